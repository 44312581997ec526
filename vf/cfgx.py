"""Symbolic expansion of the crate's modules, macros and #[cfg]s.

Parses the real source into token trees and expands module declarations, macro_rules invocations and
cfg attributes with every cfg predicate left symbolic (a z3 formula over cfg atoms).  The result says
under which condition each trait implementation and each cfg_*_atomic_* macro definition exists.
"""
import re, os, json, z3, subprocess
from .symex import Unsupported

TOK = re.compile(r'''
 (?P<ws>\s+|//[^\n]*)
|(?P<bc>/\*)
|(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
|(?P<str>[bc]?"(?:\\.|[^"\\])*")
|(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
|(?P<life>'[A-Za-z_]\w*)
|(?P<num>\d[\w]*(?:\.\d[\w]*)?)
|(?P<id>(?:r\#)?[A-Za-z_]\w*)
|(?P<p>::|->|=>|==|!=|<=|>=|&&|\|\||\.\.=|\.\.\.|\.\.|[-+*/%^!&|=<>@.,;:\#$?~()\[\]{}])
''', re.X | re.S)

class Tok:
    __slots__ = ('k', 's')
    def __init__(self, k, s): self.k, self.s = k, s
    def __repr__(self): return self.s
class Grp:
    __slots__ = ('d', 'ts')
    k = 'grp'; s = None
    def __init__(self, d, ts): self.d, self.ts = d, ts
    def __repr__(self): return self.d[0] + ' '.join(map(repr, self.ts)) + self.d[1]

def lex(src):
    pos = 0; stack = [('', [])]
    close = {')': '()', ']': '[]', '}': '{}'}
    if src.startswith('#!') and not src.startswith('#!['): pos = src.index('\n')
    while pos < len(src):
        m = TOK.match(src, pos)
        if not m: raise Unsupported('cannot tokenise: %r' % src[pos:pos + 40])
        k = m.lastgroup
        if m.group('bc'):
            d = 1; i = m.end()
            while d:
                a, b = src.find('/*', i), src.find('*/', i)
                if b < 0: raise Unsupported('comment')
                if 0 <= a < b: d += 1; i = a + 2
                else: d -= 1; i = b + 2
            pos = i; continue
        pos = m.end()
        if m.group('ws'): continue
        s = m.group(0)
        if m.group('raw'): k = 'str'
        if k == 'p' and s in '([{': stack.append((s, [])); continue
        if k == 'p' and s in ')]}':
            o, ts = stack.pop()
            if o + s != close[s]: raise Unsupported('unbalanced delimiters')
            stack[-1][1].append(Grp(o + s, ts)); continue
        stack[-1][1].append(Tok(k, s))
    if len(stack) != 1: raise Unsupported('unbalanced delimiters')
    return stack[0][1]

class Atoms:
    """cfg atoms as z3 variables; key="value" atoms of target_* keys are separate booleans"""
    def __init__(self): self.v = {}
    def get(self, key, val=None):
        k = key if val is None else '%s="%s"' % (key, val)
        if k not in self.v: self.v[k] = z3.Bool(k)
        return self.v[k]

def unq(s): return s[s.index('"') + 1:s.rindex('"')]

def predicate(ts, at):
    """cfg predicate tokens -> z3"""
    i = 0
    if not ts: raise Unsupported('empty cfg')
    t = ts[0]
    if t.k == 'grp': raise Unsupported('cfg predicate')
    if len(ts) == 2 and isinstance(ts[1], Grp):
        subs = [predicate(x, at) for x in split(ts[1].ts) if x]
        if t.s == 'all': return z3.And(*subs)
        if t.s == 'any': return z3.Or(*subs) if subs else z3.BoolVal(False)
        if t.s == 'not': return z3.Not(subs[0])
        raise Unsupported('cfg ' + t.s)
    if len(ts) == 3 and ts[1].s == '=': return at.get(t.s, unq(ts[2].s))
    if len(ts) == 1:
        if t.s in ('true', 'false'): return z3.BoolVal(t.s == 'true')
        return at.get(t.s)
    raise Unsupported('cfg predicate %r' % ts)

def split(ts, sep=','):
    out = [[]]
    for t in ts:
        if t.k == 'p' and t.s == sep: out.append([])
        else: out[-1].append(t)
    return out

class Macro:
    __slots__ = ('name', 'arms', 'pc', 'attrs')
    def __init__(self, name, arms, pc): self.name, self.arms, self.pc = name, arms, pc

# ---- macro_rules matching
def match_seq(pat, ts):
    """list of bindings dict or None"""
    def m(pi, ti, b):
        while pi < len(pat):
            p = pat[pi]
            if p.k == 'p' and p.s == '$':
                nx = pat[pi + 1]
                if isinstance(nx, Grp):       # $( ... ) sep op
                    j = pi + 2; sep = None
                    if not (pat[j].k == 'p' and pat[j].s in '*+?'): sep = pat[j]; j += 1
                    op = pat[j].s
                    return rep(nx.ts, sep, op, j + 1, ti, b)
                name = nx.s; frag = pat[pi + 3].s
                r = frag_match(frag, ts, ti, pat[pi + 4] if pi + 4 < len(pat) else None)
                if r is None: return None
                b = dict(b); b[name] = r[0]; ti = r[1]; pi += 4; continue
            if ti >= len(ts): return None
            t = ts[ti]
            if isinstance(p, Grp):
                if not isinstance(t, Grp) or t.d != p.d: return None
                r = match_seq(p.ts, t.ts)
                if r is None: return None
                b = dict(b); b.update(r)
            elif isinstance(t, Grp) or t.s != p.s: return None
            pi += 1; ti += 1
        return b if ti == len(ts) else None
    def rep(sub, sep, op, pi, ti, b):
        names = pat_names(sub)
        # greedy with backtracking over the number of repetitions
        cands = []
        cur = {n: ('rep', []) for n in names}
        cands.append((ti, cur)); k = 0
        while True:
            tj = cands[-1][0]
            if k and sep is not None:
                if tj < len(ts) and ts[tj].s == sep.s and not isinstance(ts[tj], Grp): tj += 1
                else: break
            if k and op == '?': break
            r = prefix(sub, ts, tj)
            if r is None or (r[1] == cands[-1][0] and r[1] == tj): break
            nb = {n: ('rep', cands[-1][1][n][1] + [r[0][n]]) for n in names}
            cands.append((r[1], nb)); k += 1
            if k > 3000: break
        for n_, (tj, nb) in reversed(list(enumerate(cands))):
            if op == '+' and n_ == 0: continue
            b2 = dict(b); b2.update(nb)
            r = m(pi, tj, b2)
            if r is not None: return r
        return None
    return m(0, 0, {})

def prefix(pat, ts, ti):
    """match pat against a prefix of ts[ti:]; returns (bindings, end)"""
    for end in range(ti, len(ts) + 1):
        r = match_seq(pat, ts[ti:end])
        if r is not None:
            # prefer the shortest match, except that a lone tt always takes exactly one tree
            return r, end
    return None

def pat_names(pat):
    out = []
    for i, p in enumerate(pat):
        if isinstance(p, Grp): out += pat_names(p.ts)
        elif p.k == 'p' and p.s == '$' and i + 1 < len(pat) and not isinstance(pat[i + 1], Grp): out.append(pat[i + 1].s)
    return out

def frag_match(frag, ts, i, nxt):
    if frag in ('vis',):
        if i < len(ts) and ts[i].s == 'pub':
            if i + 1 < len(ts) and isinstance(ts[i + 1], Grp) and ts[i + 1].d == '()': return ts[i:i + 2], i + 2
            return ts[i:i + 1], i + 1
        return [], i
    if i >= len(ts): return None
    t = ts[i]
    if frag == 'tt': return [t], i + 1
    if frag == 'ident': return ([t], i + 1) if t.k == 'id' else None
    if frag == 'lifetime': return ([t], i + 1) if t.k == 'life' else None
    if frag == 'literal':
        if t.k in ('str', 'num', 'chr') or t.s in ('true', 'false'): return [t], i + 1
        if t.s == '-' and i + 1 < len(ts) and ts[i + 1].k == 'num': return ts[i:i + 2], i + 2
        return None
    if frag == 'block': return ([t], i + 1) if isinstance(t, Grp) and t.d == '{}' else None
    if frag == 'meta':
        j = i
        while j < len(ts) and not (ts[j].k == 'p' and ts[j].s == ','): j += 1
        return (ts[i:j], j) if j > i else None
    if frag in ('expr', 'ty', 'path', 'pat', 'item', 'stmt'):
        j = i; depth = 0
        while j < len(ts):
            x = ts[j]
            if x.k == 'p':
                if x.s == '<' and frag in ('ty', 'path'): depth += 1
                if x.s == '>' and frag in ('ty', 'path'): depth -= 1
                if depth == 0 and x.s in (',', ';', '=>'): break
            if nxt is not None and depth == 0 and not isinstance(nxt, Grp) and nxt.s != '$' and not isinstance(x, Grp) and x.s == nxt.s and j > i: break
            j += 1
        return (ts[i:j], j) if j > i else None
    raise Unsupported('macro fragment ' + frag)

def transcribe(ts, b):
    out = []; i = 0
    while i < len(ts):
        t = ts[i]
        if isinstance(t, Grp): out.append(Grp(t.d, transcribe(t.ts, b))); i += 1; continue
        if t.k == 'p' and t.s == '$' and i + 1 < len(ts):
            nx = ts[i + 1]
            if isinstance(nx, Grp):
                j = i + 2; sep = None
                if not (ts[j].k == 'p' and ts[j].s in '*+?'): sep = ts[j]; j += 1
                names = [n for n in body_names(nx.ts) if n in b and isinstance(b[n], tuple)]
                if not names: raise Unsupported('repetition without variable')
                n = len(b[names[0]][1])
                for k in range(n):
                    b2 = dict(b)
                    for nm in names: b2[nm] = b[nm][1][k]
                    if k and sep is not None: out.append(sep)
                    out += transcribe(nx.ts, b2)
                i = j + 1; continue
            if nx.s == 'crate': out.append(nx); i += 2; continue
            if nx.s in b:
                if isinstance(b[nx.s], tuple): raise Unsupported('repetition depth')
                out += b[nx.s]; i += 2; continue
        out.append(t); i += 1
    return out
def body_names(ts):
    out = []
    for i, t in enumerate(ts):
        if isinstance(t, Grp): out += body_names(t.ts)
        elif t.s == '$' and i + 1 < len(ts) and not isinstance(ts[i + 1], Grp): out.append(ts[i + 1].s)
    return out

class Expander:
    def __init__(self, root):
        self.root = root; self.at = Atoms()
        self.impls = {}       # (trait, type) -> [pc]
        self.macros = {}      # exported macro name -> [(pc, keeps)]
        self.reexports = {}   # name -> [(pc, original)]
        self.errors = []      # compile_error! conditions
        self.modules = []; self.unknown = set(); self.invocations = 0
        self.cache = {}
    def expand(self):
        self.file(os.path.join(self.root, 'src/lib.rs'), z3.BoolVal(True), {}, top=True)
    def file(self, path, pc, scope, top=False):
        if path not in self.cache:
            with open(path) as f: self.cache[path] = lex(f.read())
        self.modules.append((os.path.relpath(path, self.root), pc))
        d = os.path.dirname(path); base = os.path.basename(path)
        sub = d if base in ('mod.rs', 'lib.rs') else os.path.join(d, base[:-3])
        self.items(self.cache[path], pc, scope, d, sub)
    def items(self, ts, pc, scope, d, sub):
        i = 0
        def AND(a, b): return z3.simplify(z3.And(a, b))
        while i < len(ts):
            # attributes
            cond = pc; attrs = []
            start = i
            while i < len(ts) and ts[i].k == 'p' and ts[i].s == '#':
                j = i + 1
                inner = ts[j].k == 'p' and ts[j].s == '!'
                if inner: j += 1
                g = ts[j]; i = j + 1
                if not g.ts: continue
                if g.ts[0].s == 'cfg':
                    c = predicate(g.ts[1].ts, self.at)
                    if inner: pc = AND(pc, c); cond = AND(cond, c)
                    else: cond = AND(cond, c)
                elif not inner: attrs.append(g.ts)
            if i >= len(ts): break
            if z3.is_false(cond):
                i = self.skip(ts, i); continue
            i = self.item(ts, i, cond, attrs, scope, d, sub)
    def skip(self, ts, i):
        """index after the item starting at i"""
        j = i
        if ts[j].s == 'pub':
            j += 1
            if isinstance(ts[j], Grp) and ts[j].d == '()': j += 1
        kw = ts[j].s
        if kw == ';': return j + 1
        semi = kw in ('use', 'type', 'static', 'extern') or (kw == 'const' and j + 1 < len(ts) and ts[j + 1].s not in ('fn', 'unsafe', 'extern'))
        while j < len(ts):
            t = ts[j]
            if t.k == 'p' and t.s == ';': return j + 1
            if isinstance(t, Grp) and t.d == '{}' and not semi:
                return j + 1
            j += 1
        return j
    def item(self, ts, i, pc, attrs, scope, d, sub):
        at = self.at
        j = i
        if ts[j].s == 'pub':
            j += 1
            if isinstance(ts[j], Grp) and ts[j].d == '()': j += 1
        kw = ts[j].s
        end = self.skip(ts, i)
        if kw == 'mod':
            name = ts[j + 1].s
            macro_use = any(a[0].s == 'macro_use' for a in attrs)
            sc = scope if macro_use else dict(scope)
            if isinstance(ts[j + 2], Grp): self.items(ts[j + 2].ts, pc, sc, os.path.join(sub, name), os.path.join(sub, name)); return j + 3
            # path attributes, possibly conditional
            paths = []; rest = pc
            for a in attrs:
                if a[0].s == 'path': paths.append((rest, unq(a[2].s))); rest = z3.BoolVal(False)
                elif a[0].s == 'cfg_attr':
                    parts = split(a[1].ts)
                    for p in parts[1:]:
                        if p and p[0].s == 'path':
                            c = predicate(parts[0], at); paths.append((z3.simplify(z3.And(rest, c)), unq(p[2].s))); rest = z3.simplify(z3.And(rest, z3.Not(c)))
            s = z3.Solver()
            for c, p in paths: self.file(os.path.normpath(os.path.join(d, p)), c, sc)
            if not z3.is_false(z3.simplify(rest)):
                for f in (os.path.join(sub, name + '.rs'), os.path.join(sub, name, 'mod.rs')):
                    if os.path.exists(f):
                        # test-only modules play no role
                        if self.never(rest): break
                        self.file(f, rest, sc); break
                else: raise Unsupported('module file for %s' % name)
            return end
        if kw == 'macro_rules' and ts[j + 1].s == '!':
            name = ts[j + 2].s; body = ts[j + 3]; e = j + 4
            if e < len(ts) and ts[e].k == 'p' and ts[e].s == ';': e += 1
            arms = []
            for arm in split(body.ts, ';'):
                if not arm: continue
                if len(arm) != 3 or arm[1].s != '=>': raise Unsupported('macro arm in ' + name)
                arms.append((arm[0].ts, arm[2].ts))
            m = Macro(name, arms, pc)
            scope[name] = scope.get(name, []) + [m]
            if any(a[0].s == 'macro_export' for a in attrs): self.exported(name, arms, pc)
            return e
        if kw == 'use' and name_use(ts[j:end]):
            for new, old in name_use(ts[j:end]): self.reexports.setdefault(new, []).append((pc, old))
            return end
        if kw in ('impl',) or (kw == 'unsafe' and ts[j + 1].s == 'impl'):
            hd = [t for t in ts[j:end - 1]]
            k = next((x for x, t in enumerate(hd) if t.s == 'for'), None)
            if k is not None:
                tr = hd[k - 1].s; ty = hd[k + 1].s if len(hd) == k + 2 else None
                if ty is not None and tr is not None and tr.startswith('Atomic'):
                    self.impls.setdefault((tr, ty), []).append(pc)
            return end
        if ts[j].k == 'id' and j + 1 < len(ts) and ts[j + 1].s == '!':
            name = kw; g = ts[j + 2]; e = j + 3
            if not isinstance(g, Grp): return end
            if e < len(ts) and ts[e].k == 'p' and ts[e].s == ';': e += 1
            if name == 'compile_error': self.errors.append(pc); return e
            defs = scope.get(name)
            if not defs:
                if not self.never(pc): self.unknown.add(name)
                return e
            rest = pc; ok = False
            for m in reversed(defs):
                c = z3.simplify(z3.And(rest, m.pc))
                if self.never(c): continue
                self.invoke(m, g.ts, c, scope, d, sub)
                rest = z3.simplify(z3.And(rest, z3.Not(m.pc)))
                if self.never(rest): break
            return e
        return end
    def never(self, c):
        """not satisfiable in a non-test, non-doc build"""
        c = z3.simplify(c)
        if z3.is_false(c): return True
        if z3.is_true(c): return False
        s = z3.Solver(); s.add(c, z3.Not(self.at.get('test')), z3.Not(self.at.get('doc')), z3.Not(self.at.get('miri')))
        archs = [v for k, v in self.at.v.items() if k.startswith('target_arch=')]
        if len(archs) > 1: s.add(z3.AtMost(*archs, 1))
        return s.check() == z3.unsat
    def invoke(self, m, ts, pc, scope, d, sub, depth=0):
        self.invocations += 1
        if self.invocations > 20000: raise Unsupported('macro recursion')
        for pat, body in m.arms:
            b = match_seq(pat, ts)
            if b is None: continue
            self.items(transcribe(body, b), pc, scope, d, sub); return
        raise Unsupported('no arm of macro %s matches %r' % (m.name, ts))
    def exported(self, name, arms, pc):
        keeps = None
        if len(arms) == 1:
            pat, body = arms[0]
            keeps = match_kind(pat, body)
        self.macros.setdefault(name, []).append((pc, keeps))

def match_kind(pat, body):
    """True: the macro keeps its contents, False: drops them, None: something else.  Decided by expanding it on a marker."""
    marker = [Tok('id', 'struct'), Tok('id', 'Marker'), Tok('p', ';'), Grp('{}', [Tok('id', 'x')])]
    b = match_seq(pat, marker)
    if b is None: return None
    out = transcribe(body, b)
    if repr(out) == repr(marker): return True
    return False if not out else None

def name_use(ts):
    """pub use {a as b, c as d}; / pub use a as b;  -> [(new, old)]"""
    out = []
    def walk(x):
        for p in split(x):
            if len(p) == 1 and isinstance(p[0], Grp): walk(p[0].ts)
            elif len(p) >= 3 and p[-2].s == 'as' and p[-3].k == 'id': out.append((p[-1].s, p[-3].s))
            elif p and isinstance(p[-1], Grp): walk(p[-1].ts)
    ts = [t for t in ts[1:] if not (t.k == 'p' and t.s == ';')]
    walk(ts)
    return [(n, o) for n, o in out if n.startswith('cfg_')]

# ---- the universe of targets
TARGET_KEYS = ('target_arch', 'target_os', 'target_env', 'target_abi', 'target_vendor', 'target_endian', 'target_pointer_width')
def universe(rustc_json):
    """distinct cfg tuples over all built-in targets of the compiler"""
    out = {}
    for name, s in rustc_json.items():
        t = dict(target_arch=s['arch'], target_os=s.get('os', 'none'), target_env=s.get('env', ''), target_abi=s.get('cfg-abi', s.get('abi', '')), target_vendor=s.get('vendor', 'unknown'),
                 target_endian=s.get('target-endian', 'little'), target_pointer_width=str(s['target-pointer-width']))
        out.setdefault(tuple(t[k] for k in TARGET_KEYS), []).append(name)
    return out

# features that exist on one architecture only, and implications between them
IMPLIES = [('v8', 'v7'), ('v7', 'v6'), ('v6', 'v5te'), ('v8m', 'v6'), ('lse128', 'lse'), ('rcpc3', 'rcpc'), ('sse2', 'sse'), ('zabha', 'zaamo'), ('a', 'zaamo')]

def environment(at, uni):
    """constraints every real configuration satisfies"""
    cs = []
    used = {k: [] for k in TARGET_KEYS}
    for a in list(at.v):
        m = re.fullmatch(r'(\w+)="(.*)"', a)
        if m and m.group(1) in used: used[m.group(1)].append(m.group(2))
    rows = set()
    for t in uni:
        rows.add(tuple((k, v) for k, val in zip(TARGET_KEYS, t) for v in used[k] if v == val))
    alts = []
    for r in rows:
        pos = set(r)
        alts.append(z3.And(*[(at.get(k, v) if (k, v) in pos else z3.Not(at.get(k, v))) for k in used for v in used[k]]))
    cs.append(z3.Or(*alts))
    for x, y in IMPLIES:
        fx = [at.v[k] for k in ('target_feature="%s"' % x, 'atomic_maybe_uninit_target_feature="%s"' % x) if k in at.v]
        fy = [at.v[k] for k in ('target_feature="%s"' % y, 'atomic_maybe_uninit_target_feature="%s"' % y) if k in at.v]
        if fx and fy and (x, y) != ('a', 'zaamo'): cs.append(z3.Implies(z3.Or(*fx), z3.Or(*fy)))
    for k in ('test', 'doc', 'miri'): cs.append(z3.Not(at.get(k)))
    return cs
