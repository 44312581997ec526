"""Parser for textual LLVM IR (the subset rustc emits for this crate).

The result is a Module of Functions made of Instr objects with a simple, uniform operand
representation.  Anything the parser does not know raises IRError: the checks turn that into
"inconclusive" (error exit), never into a pass.
"""
import re

class IRError(Exception):
    pass

TOK = re.compile(r'''
  (?P<ws>[ \t\r\n]+|;[^\n]*)
 |(?P<cstr>c"(?:[^"])*")
 |(?P<str>"(?:[^"])*")
 |(?P<glob>@(?:"[^"]*"|[\w.$-]+))
 |(?P<loc>%(?:"[^"]*"|[\w.$-]+))
 |(?P<meta>!(?:[\w.$-]+)?)
 |(?P<attr>\#\d+)
 |(?P<num>-?(?:0x[0-9A-Fa-f]+|\d+\.\d+(?:e[+-]?\d+)?|\d+))
 |(?P<word>\$?[A-Za-z_][\w.$-]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
''', re.X)

def unescape(s):
    out = bytearray()
    i = 0
    b = s.encode('utf-8')
    while i < len(b):
        if b[i] == 0x5c:
            if b[i+1] == 0x5c:
                out.append(0x5c); i += 2
            else:
                out.append(int(b[i+1:i+3], 16)); i += 3
        else:
            out.append(b[i]); i += 1
    return bytes(out)

def tokenize(s):
    toks = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise IRError('tokenize: %r' % s[pos:pos+60])
        k = m.lastgroup
        if k != 'ws':
            t = m.group()
            if k in ('glob', 'loc') and len(t) > 1 and t[1] == '"':
                t = t[0] + t[2:-1]
            if k == 'glob': t = t[1:]
            toks.append((k, t))
        pos = m.end()
    return toks

# ---------------------------------------------------------------- types
I = lambda n: ('i', n)
PTR = ('ptr',)
VOID = ('void',)

class Layout:
    """sizes from the datalayout string"""
    def __init__(self, dl):
        self.be = dl.startswith('E') or '-E-' in dl
        self.ptr = 64
        self.ialign = {1: 8, 8: 8, 16: 16, 32: 32, 64: 64}
        for f in dl.split('-'):
            m = re.fullmatch(r'p(?:e?[0-9]*)?:(\d+)(?::(\d+))?.*', f)
            if m and (f.startswith('p:') or f.startswith('p0:')):
                self.ptr = int(m.group(1))
            m = re.fullmatch(r'i(\d+):(\d+)(:\d+)?', f)
            if m:
                self.ialign[int(m.group(1))] = int(m.group(2))
    def bits(self, t):
        k = t[0]
        if k == 'i': return t[1]
        if k == 'ptr': return self.ptr
        if k == 'float': return 32
        if k == 'double': return 64
        if k == 'fp128': return 128
        if k == 'half': return 16
        if k == 'x86_fp80': return 80
        if k == 'vec': return t[1] * self.bits(t[2])
        if k in ('arr', 'struct'): return self.size(t) * 8
        raise IRError('bits of %r' % (t,))
    def size(self, t):
        k = t[0]
        if k == 'arr': return t[1] * self.size(t[2])
        if k == 'struct':
            return self.struct(t)[1]
        if k == 'i':
            b = (t[1] + 7) // 8
            a = self.align(t)
            return (b + a - 1) // a * a
        if k == 'x86_fp80': return 16
        return (self.bits(t) + 7) // 8
    def store_size(self, t):
        if t[0] == 'i': return (t[1] + 7) // 8
        return self.size(t)
    def align(self, t):
        k = t[0]
        if k == 'i':
            n = t[1]
            ks = sorted(self.ialign)
            for q in ks:
                if q >= n: return self.ialign[q] // 8
            return self.ialign[ks[-1]] // 8
        if k == 'ptr': return self.ptr // 8
        if k == 'arr': return self.align(t[2])
        if k == 'struct':
            if t[2]: return 1
            return max([self.align(x) for x in t[1]] + [1])
        if k == 'vec': return self.size(t)
        return self.size(t)
    def struct(self, t):
        off = 0; offs = []
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        a = self.align(t)
        return offs, (off + a - 1) // a * a

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'md', 'line')
    def __init__(self, op, res=None, ty=None, a=None, x=None, md=None, line=''):
        self.op, self.res, self.ty, self.a, self.x, self.md, self.line = op, res, ty, a or [], x or {}, md or {}, line
    def __repr__(self):
        return self.line

class Function:
    def __init__(self, name):
        self.name = name; self.params = []; self.ret = None; self.blocks = {}; self.entry = None
        self.retattrs = set(); self.attrs = ''; self.text = ''; self.noreturn = False; self.order = []

class Module:
    def __init__(self):
        self.globals = {}; self.funcs = {}; self.decls = {}; self.layout = None; self.types = {}; self.meta = {}
        self.aliases = {}; self.triple = ''

class P:
    def __init__(self, toks, mod, src=''):
        self.t = toks; self.i = 0; self.mod = mod; self.src = src
    def peek(self, k=0):
        return self.t[self.i+k] if self.i+k < len(self.t) else ('eof', '')
    def next(self):
        x = self.peek(); self.i += 1; return x
    def at(self, s):
        return self.peek()[1] == s and self.peek()[0] in ('p', 'word', 'dots')
    def eat(self, s):
        if self.at(s):
            self.i += 1; return True
        return False
    def expect(self, s):
        if not self.eat(s):
            raise IRError('expected %r at %r in %s' % (s, self.t[self.i:self.i+6], self.src[:200]))
    def end(self):
        return self.i >= len(self.t)
    # types
    def is_type(self):
        k, v = self.peek()
        if k == 'word':
            return v in ('ptr', 'void', 'float', 'double', 'fp128', 'x86_fp80', 'half', 'label', 'metadata', 'token', 'opaque', 'bfloat') or bool(re.fullmatch(r'i\d+', v))
        if k == 'p': return v in '[{<'
        if k == 'loc': return v in self.mod.types
        return False
    def type(self):
        k, v = self.next()
        if k == 'word':
            if re.fullmatch(r'i\d+', v): t = I(int(v[1:]))
            elif v == 'ptr':
                if self.at('addrspace'):
                    self.next(); self.expect('('); self.next(); self.expect(')')
                t = PTR
            else: t = (v,)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect(']'); t = ('arr', n, e)
        elif v == '{':
            fs = []
            while not self.at('}'):
                fs.append(self.type()); self.eat(',')
            self.expect('}'); t = ('struct', tuple(fs), False)
        elif v == '<':
            if self.at('{'):
                self.next(); fs = []
                while not self.at('}'):
                    fs.append(self.type()); self.eat(',')
                self.expect('}'); self.expect('>'); t = ('struct', tuple(fs), True)
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.type(); self.expect('>'); t = ('vec', n, e)
        elif k == 'loc' and v in self.mod.types:
            t = self.mod.types[v]
            if t[0] == 'text':
                t = self.mod.types[v] = P(tokenize(t[1]), self.mod, t[1]).type()
        else:
            raise IRError('type: %r in %s' % (v, self.src[:200]))
        # function type: ret (args)
        return t
    def attrs(self):
        out = {}
        while True:
            k, v = self.peek()
            if k == 'word' and not self.is_type() and v not in VALUEWORDS:
                self.i += 1
                if self.at('('):
                    out[v] = self.parens()
                elif v in ('align',):
                    out[v] = self.next()[1]
                else:
                    out[v] = True
            elif k == 'attr':
                self.i += 1; out[v] = True
            elif k == 'str':
                self.i += 1
                if self.eat('='): self.next()
            else:
                return out
    def parens(self):
        self.expect('('); d = 1; r = []
        while d:
            k, v = self.next()
            if k == 'eof': raise IRError('paren')
            if v == '(' and k == 'p': d += 1
            if v == ')' and k == 'p': d -= 1
            if d: r.append(v)
        return r
    # values: ('reg',name) ('int',ty,n) ('undef',ty) ('poison',ty) ('null',) ('zero',ty) ('glob',name) ('agg',ty,[...]) ('str',bytes) ('expr',op,...)
    def value(self, ty):
        k, v = self.next()
        if k == 'loc': return ('reg', v)
        if k == 'glob': return ('glob', v)
        if k == 'num':
            if ty[0] == 'i': return ('int', ty, int(v))
            return ('fp', ty, v)
        if k == 'cstr': return ('bytes', ty, unescape(v[2:-1]))
        if k == 'word':
            if v == 'true': return ('int', ty, 1)
            if v == 'false': return ('int', ty, 0)
            if v == 'undef': return ('undef', ty)
            if v == 'poison': return ('poison', ty)
            if v == 'null' or v == 'zeroinitializer': return ('zero', ty)
            if v == 'splat':
                self.expect('('); t = self.type(); x = self.value(t); self.expect(')')
                return ('agg', ty, [(t, x)] * ty[1])
            if v == 'asm': raise IRError('asm value')
            if v == 'getelementptr':
                while self.peek()[0] == 'word':
                    if self.next()[1] == 'inrange': self.parens()
                self.expect('('); sty = self.type(); self.expect(',')
                args = []
                while True:
                    t = self.type(); args.append((t, self.value(t)))
                    if not self.eat(','): break
                self.expect(')')
                return ('expr', 'gep', ty, sty, args)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'ptrtoaddr', 'addrspacecast'):
                self.expect('('); t = self.type(); x = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
                return ('expr', v, t2, t, x)
            if v in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'shl'):
                while self.peek()[0] == 'word': self.next()
                self.expect('('); t = self.type(); x = self.value(t); self.expect(','); t2 = self.type(); y = self.value(t2); self.expect(')')
                return ('expr', v, ty, t, x, y)
            raise IRError('value word %r in %s' % (v, self.src[:200]))
        if v in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[v]
            packed = False
            if v == '<' and self.at('{'):
                self.next(); packed = True; close = '}'
            els = []
            while not self.at(close):
                t = self.type(); els.append((t, self.value(t))); self.eat(',')
            self.expect(close)
            if packed: self.expect('>')
            return ('agg', ty, els)
        raise IRError('value %r in %s' % ((k, v), self.src[:200]))
    def tv(self):
        t = self.type(); a = self.attrs(); return (t, self.value(t))

VALUEWORDS = {'true', 'false', 'undef', 'poison', 'null', 'zeroinitializer', 'getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'splat', 'asm', 'trunc', 'zext', 'ptrtoaddr', 'addrspacecast', 'add', 'sub', 'and', 'or', 'xor', 'mul', 'shl', 'to', 'x', 'blockaddress', 'dso_local_equivalent'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'ptrtoaddr', 'addrspacecast', 'fptrunc', 'fpext', 'uitofp', 'sitofp', 'fptoui', 'fptosi'}

def parse_instr(line, mod):
    toks = tokenize(line)
    p = P(toks, mod, line)
    res = None
    if p.peek()[0] == 'loc' and p.peek(1) == ('p', '='):
        res = p.next()[1]; p.next()
    k, op = p.next()
    ins = Instr(op, res, line=line.strip())
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next(); ins.op = op
    if op in BIN:
        fl = []
        while p.peek()[0] == 'word' and not p.is_type():
            fl.append(p.next()[1])
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        ins.ty = t; ins.a = [a, b]; ins.x = {'flags': fl}
    elif op in CAST:
        fl = []
        while p.peek()[0] == 'word' and not p.is_type():
            fl.append(p.next()[1])
        t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
        ins.ty = t2; ins.a = [a]; ins.x = {'from': t, 'flags': fl}
    elif op in ('icmp',):
        pr = p.next()[1]
        if pr == 'samesign': pr = p.next()[1]
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        ins.ty = I(1); ins.a = [a, b]; ins.x = {'pred': pr, 'ty': t}
    elif op == 'select':
        c = p.tv(); p.expect(','); a = p.tv(); p.expect(','); b = p.tv()
        ins.ty = a[0]; ins.a = [c[1], a[1], b[1]]; ins.x = {'cty': c[0]}
    elif op == 'freeze':
        t, v = p.tv(); ins.ty = t; ins.a = [v]
    elif op == 'alloca':
        t = p.type(); n = 1
        if p.eat(','):
            if p.at('align'): p.next(); ins.x['align'] = int(p.next()[1])
            else:
                tt, v = p.tv(); n = v[2]
                if p.eat(','): p.expect('align'); ins.x['align'] = int(p.next()[1])
        ins.ty = PTR; ins.x['ty'] = t; ins.x['n'] = n
    elif op == 'load':
        ins.x['atomic'] = p.eat('atomic'); ins.x['volatile'] = p.eat('volatile')
        t = p.type(); p.expect(','); pt, v = p.tv()
        ins.ty = t; ins.a = [v]
        if ins.x['atomic']:
            while p.peek()[0] == 'word': ins.x['ord'] = p.next()[1]
        if p.eat(','):
            if p.at('align'): p.next(); ins.x['align'] = int(p.next()[1])
            else: p.i -= 1
    elif op == 'store':
        ins.x['atomic'] = p.eat('atomic'); ins.x['volatile'] = p.eat('volatile')
        t, v = p.tv(); p.expect(','); pt, q = p.tv()
        ins.ty = t; ins.a = [v, q]
        if ins.x['atomic']:
            while p.peek()[0] == 'word': ins.x['ord'] = p.next()[1]
        if p.eat(','):
            if p.at('align'): p.next(); ins.x['align'] = int(p.next()[1])
            else: p.i -= 1
    elif op == 'getelementptr':
        while p.peek()[0] == 'word' and not p.is_type():
            p.next()
            if p.at('('): p.parens()
        sty = p.type(); p.expect(',')
        args = [p.tv()]
        while p.eat(','):
            if p.peek()[0] == 'meta': p.i -= 1; break
            args.append(p.tv())
        ins.ty = PTR; ins.x = {'sty': sty, 'args': args}
    elif op == 'extractvalue':
        t, v = p.tv(); idx = []
        while p.eat(','):
            if p.peek()[0] == 'num': idx.append(int(p.next()[1]))
            else: p.i -= 1; break
        ins.a = [v]; ins.x = {'ty': t, 'idx': idx}
    elif op == 'insertvalue':
        t, v = p.tv(); p.expect(','); t2, v2 = p.tv(); idx = []
        while p.eat(','):
            if p.peek()[0] == 'num': idx.append(int(p.next()[1]))
            else: p.i -= 1; break
        ins.ty = t; ins.a = [v, v2]; ins.x = {'ety': t2, 'idx': idx}
    elif op == 'extractelement':
        t, v = p.tv(); p.expect(','); t2, v2 = p.tv()
        ins.a = [v, v2]; ins.x = {'ty': t}; ins.ty = t[2]
    elif op == 'insertelement':
        t, v = p.tv(); p.expect(','); t2, v2 = p.tv(); p.expect(','); t3, v3 = p.tv()
        ins.ty = t; ins.a = [v, v2, v3]
    elif op == 'shufflevector':
        t, v = p.tv(); p.expect(','); t2, v2 = p.tv(); p.expect(','); t3, v3 = p.tv()
        ins.ty = ('vec', t3[1], t[2]); ins.a = [v, v2, v3]; ins.x = {'ty': t}
    elif op == 'br':
        if p.at('label'):
            p.next(); ins.x['to'] = [p.next()[1][1:]]
        else:
            t, c = p.tv(); p.expect(','); p.expect('label'); a = p.next()[1][1:]; p.expect(','); p.expect('label'); b = p.next()[1][1:]
            ins.a = [c]; ins.x['to'] = [a, b]
    elif op == 'switch':
        t, v = p.tv(); p.expect(','); p.expect('label'); d = p.next()[1][1:]
        p.expect('['); cases = []
        while not p.at(']'):
            tt, c = p.tv(); p.expect(','); p.expect('label'); cases.append((c[2], p.next()[1][1:]))
        p.expect(']')
        ins.ty = t; ins.a = [v]; ins.x = {'default': d, 'cases': cases}
    elif op == 'ret':
        if p.at('void'): p.next(); ins.ty = VOID
        else:
            t, v = p.tv(); ins.ty = t; ins.a = [v]
    elif op == 'unreachable':
        pass
    elif op == 'phi':
        while p.peek()[0] == 'word' and not p.is_type(): p.next()
        t = p.type(); inc = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); l = p.next()[1][1:]; p.expect(']')
            inc.append((v, l))
            if not p.at(',') or p.peek(1)[1] != '[': break
            p.next()
        ins.ty = t; ins.x = {'inc': inc}
    elif op in ('call', 'invoke'):
        ra = p.attrs()
        t = p.type()
        if p.at('('):   # function type of varargs
            p.parens()
        ins.ty = t; ins.x['retattrs'] = ra
        if p.at('asm'):
            p.next(); opts = []
            while p.peek()[0] == 'word': opts.append(p.next()[1])
            tmpl = unescape(p.next()[1][1:-1]).decode('utf-8'); p.expect(','); cons = unescape(p.next()[1][1:-1]).decode()
            ins.x['asm'] = (opts, tmpl, cons)
        else:
            k, v = p.next()
            if k not in ('glob', 'loc'): raise IRError('callee %r in %s' % (v, line[:200]))
            ins.x['callee'] = ('glob' if k == 'glob' else 'reg', v)
        p.expect('(')
        args = []
        while not p.at(')'):
            at = p.type()
            if at == ('metadata',):
                args.append((at, None, {}))
                d = 0
                while not (d == 0 and (p.at(',') or p.at(')'))):
                    k, v = p.next()
                    if v in '([{' and k == 'p': d += 1
                    if v in ')]}' and k == 'p': d -= 1
            else:
                aa = p.attrs(); args.append((at, p.value(at), aa))
            p.eat(',')
        p.expect(')')
        ins.a = args
        while p.peek()[0] == 'attr':
            ins.x.setdefault('fnattrs', []).append(p.next()[1])
        while p.peek()[0] == 'word' and not p.at('to'):
            w = p.next()[1]; ins.x.setdefault('fnattrs', []).append(w)
            if p.at('('): p.parens()
        if p.at('['):   # operand bundles
            d = 0
            while True:
                k, v = p.next()
                if v == '[' and k == 'p': d += 1
                if v == ']' and k == 'p':
                    d -= 1
                    if d == 0: break
        if op == 'invoke':
            p.expect('to'); p.expect('label'); a = p.next()[1][1:]
            p.expect('unwind'); p.expect('label'); b = p.next()[1][1:]
            ins.x['to'] = [a, b]
    elif op == 'fence':
        while p.peek()[0] == 'word':
            w = p.next()[1]
            if w == 'syncscope':
                p.expect('('); ins.x['scope'] = p.next()[1]; p.expect(')')
            else: ins.x['ord'] = w
    elif op == 'atomicrmw':
        ins.x['volatile'] = p.eat('volatile'); ins.x['rmw'] = p.next()[1]
        pt, q = p.tv(); p.expect(','); t, v = p.tv(); ins.ty = t; ins.a = [q, v]
        ins.x['ord'] = p.next()[1]
    elif op == 'cmpxchg':
        ins.x['weak'] = p.eat('weak'); ins.x['volatile'] = p.eat('volatile')
        pt, q = p.tv(); p.expect(','); t, v = p.tv(); p.expect(','); t2, v2 = p.tv()
        ins.ty = ('struct', (t, I(1)), False); ins.a = [q, v, v2]
        ins.x['ord'] = [p.next()[1], p.next()[1]]; ins.x['ety'] = t
    elif op in ('landingpad', 'resume', 'cleanuppad', 'cleanupret', 'catchswitch', 'catchpad', 'catchret'):
        ins.x['eh'] = True
        return ins
    else:
        raise IRError('unknown instruction: %s' % line)
    # metadata attachments
    while p.eat(','):
        if p.peek()[0] != 'meta':
            p.next(); continue
        nm = p.next()[1]
        if p.peek()[0] == 'meta':
            ins.md[nm] = p.next()[1]
    return ins

def parse(text):
    mod = Module()
    lines = text.split('\n')
    m = re.search(r'^target datalayout = "([^"]*)"', text, re.M)
    mod.layout = Layout(m.group(1) if m else '')
    m = re.search(r'^target triple = "([^"]*)"', text, re.M)
    mod.triple = m.group(1) if m else ''
    attrgroups = {}
    for l in lines:
        if l.startswith('attributes #'):
            m = re.match(r'attributes (#\d+) = \{(.*)\}', l); attrgroups[m.group(1)] = m.group(2)
        elif l.startswith('%') and ' = type ' in l:
            nm, ty = l.split(' = type ', 1)
            nm = nm.strip()
            if nm[1] == '"': nm = '%' + nm[2:-1]
            mod.types[nm] = ('opaque',) if ty.strip() == 'opaque' else ('text', ty)
        elif re.match(r'!\d+ = ', l):
            a, b = l.split(' = ', 1); mod.meta[a] = b
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('@'):
            p = P(tokenize(l), mod, l)
            name = p.next()[1]; p.expect('=')
            words = []
            while p.peek()[0] in ('word', 'str', 'num') and not p.at('constant') and not p.at('global') and not p.at('alias'):
                words.append(p.next()[1])
                if p.at('('): p.parens()
            kind = p.next()[1]
            ty = p.type()
            if kind == 'alias':
                if p.at('('): p.parens()
                p.expect(',')
                t, v = p.tv(); mod.aliases[name] = v
            else:
                init = None
                if 'external' not in words and 'extern_weak' not in words:
                    init = p.value(ty)
                al = 1
                while p.eat(','):
                    if p.at('align'): p.next(); al = int(p.next()[1])
                    else: p.next()
                mod.globals[name] = dict(ty=ty, init=init, const=(kind == 'constant'), align=al)
        elif l.startswith('define ') or l.startswith('declare '):
            head = l
            p = P(tokenize(head), mod, head)
            isdef = p.next()[1] == 'define'
            ra = p.attrs()
            rt = p.type()
            name = p.next()[1]
            f = Function(name); f.ret = rt; f.retattrs = ra
            p.expect('(')
            while not p.at(')'):
                if p.eat('...'): break
                t = p.type(); aa = p.attrs()
                nm = None
                if p.peek()[0] == 'loc': nm = p.next()[1]
                f.params.append((t, nm, aa)); p.eat(',')
            p.expect(')')
            fa = []
            while not p.end():
                k, v = p.next()
                if k == 'attr': fa.append(attrgroups.get(v, ''))
                elif k == 'word': fa.append(v)
            f.attrs = ' '.join(fa)
            f.noreturn = bool(re.search(r'\bnoreturn\b', f.attrs))
            if not isdef:
                mod.decls[name] = f
            else:
                # number unnamed params
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i]); i += 1
                f.text = head + '\n' + '\n'.join(body)
                f.body = body
                mod.funcs[name] = f
        i += 1
    return mod

_phi = None
def ensure_parsed(f, mod):
    if f.blocks: return
    n = 0
    for k, (t, nm, aa) in enumerate(f.params):
        if nm is None:
            f.params[k] = (t, '%%%d' % n, aa); n += 1
        elif nm[1:].isdigit():
            n = int(nm[1:]) + 1
    cur = None
    buf = None
    depth = 0
    for l in f.body:
        s = l.strip()
        if not s or s.startswith(';'): continue
        if buf is not None:
            buf += ' ' + s
            if s == ']' or s.startswith('], ') or s.startswith(']'):
                s = buf; buf = None
            else: continue
        elif s.startswith('switch ') and not re.search(r'\]\s*(,.*)?$', s):
            buf = s; continue
        m = re.match(r'^("?[\w.$-]+"?):(\s*;.*)?$', s)
        if m:
            cur = m.group(1).strip('"'); f.blocks[cur] = []; f.order.append(cur)
            if f.entry is None: f.entry = cur
            continue
        if cur is None:
            cur = str(n); f.blocks[cur] = []; f.entry = cur; f.order.append(cur)
        if s.startswith('#dbg'): continue
        if s in ('cleanup',) or s.startswith(('catch ', 'filter ', 'cleanup ')):
            continue
        if s.startswith(('to label', 'unwind label')):
            # continuation of an invoke
            prev = f.blocks[cur].pop()
            f.blocks[cur].append(prev + ' ' + s)
            continue
        f.blocks[cur].append(s)
    for b in f.blocks:
        f.blocks[b] = [parse_instr(x, mod) for x in f.blocks[b]]
    return f
