"""C12: SMT queries over the cfg formulas of the crate's conditional compilation, cross-checked against rustc."""
import os, re, json, subprocess, time, tempfile, shutil, z3
from . import build, cfgx
from .symex import Unsupported

OR = lambda l: z3.Or(*l) if l else z3.BoolVal(False)
TR = build.TRAITS
WIDTHS = ('8', '16', '32', '64', '128', 'ptr')

class Facts:
    """formulas of one source tree"""
    def __init__(self, root):
        x = self.x = cfgx.Expander(root); x.expand()
        # every macro invoked at item level must have been expanded; a definition must keep or drop its contents as a whole
        unk = x.unknown - set(x.macros) - set(x.reexports)
        if unk: raise Unsupported('item-level macros that are not macro_rules of the crate: %s' % sorted(unk))
        rc, so, se = build.rustc(build.NIGHTLY, ['-Zunstable-options', '--print', 'all-target-specs-json'])
        if rc: raise Unsupported('target list: ' + se[-300:])
        self.uni = cfgx.universe(json.loads(so))
        at = x.at
        for w in ('16', '32', '64'): at.get('target_pointer_width', w)
        self.env = cfgx.environment(at, self.uni) + [z3.Not(e) for e in x.errors]
        g = at.get
        # a CPU without CMPXCHG has no CMPXCHG8B either
        self.env.append(z3.Implies(g('atomic_maybe_uninit_no_cmpxchg'), g('atomic_maybe_uninit_no_cmpxchg8b')))
    def keep(self, name):
        """(kept, dropped, defined more than once or by something else)"""
        x = self.x
        if name in x.macros:
            d = [(pc, k) for pc, k in x.macros[name]]
        elif name in x.reexports:
            d = []
            for pc, old in x.reexports[name]:
                for pc2, k in x.macros.get(old, []): d.append((z3.And(pc, pc2), k))
        else: raise Unsupported('macro %s is not defined' % name)
        return OR([pc for pc, k in d if k]), OR([pc for pc, k in d if k is False]), OR([pc for pc, k in d if k is None])
    def imp(self, tr, ty): return OR(self.x.impls.get((tr, ty), []))
    def full(self, ty, cas): return z3.And(self.imp('AtomicLoad', ty), self.imp('AtomicStore', ty), z3.Implies(cas, z3.And(self.imp('AtomicSwap', ty), self.imp('AtomicCompareExchange', ty))))

def obligations(f):
    """[(subject, message, goal)]: every goal has to be valid"""
    out = []
    casy, casn, caso = f.keep('cfg_has_atomic_cas'); ncy, ncn, nco = f.keep('cfg_no_atomic_cas')
    pw = {w: f.x.at.get('target_pointer_width', w) for w in ('16', '32', '64')}
    out.append(('cas', 'exactly one of cfg_has_atomic_cas and cfg_no_atomic_cas keeps its contents', z3.And(z3.Xor(casy, ncy), casy == ncn, ncy == casn, z3.Not(caso), z3.Not(nco))))
    names = {'8': ('i8', 'u8'), '16': ('i16', 'u16'), '32': ('i32', 'u32'), '64': ('i64', 'u64'), '128': ('i128', 'u128'), 'ptr': ('isize', 'usize')}
    for w in WIDTHS:
        hy, hn, ho = f.keep('cfg_has_atomic_' + w); ny, nn, no = f.keep('cfg_no_atomic_' + w)
        out.append((w, 'exactly one of cfg_has_atomic_%s and cfg_no_atomic_%s keeps its contents' % (w, w), z3.And(z3.Xor(hy, ny), hy == nn, ny == hn, z3.Not(ho), z3.Not(no))))
        for t in names[w]:
            out.append((t, 'cfg_has_atomic_%s keeps its contents only where %s has load and store, and swap and compare_exchange where cfg_has_atomic_cas keeps its contents' % (w, t), z3.Implies(hy, f.full(t, casy))))
            out.append((t, 'cfg_no_atomic_%s keeps its contents only where %s has no atomic operations' % (w, t), z3.Implies(ny, z3.Not(f.full(t, casy)))))
            out.append((t, 'cfg_no_atomic_cas keeps its contents only where %s has no compare_exchange' % t, z3.Implies(ncy, z3.Not(f.imp('AtomicCompareExchange', t)))))
        for tr in TR:
            a, b = names[w]
            out.append((a, '%s is implemented for %s exactly where it is for %s' % (tr, a, b), f.imp(tr, a) == f.imp(tr, b)))
    for tr in TR:
        for sg in 'iu':
            for w, c in pw.items():
                out.append((sg + 'size', '%s is implemented for %ssize exactly where it is for the %s-bit type of a %s-bit target' % (tr, sg, w, w), z3.Implies(c, f.imp(tr, sg + 'size') == f.imp(tr, sg + w))))
    return out

def answers(f, assign):
    """what the formulas say under a concrete assignment {atom name: bool} (others false)"""
    sub = [(v, z3.BoolVal(bool(assign.get(n, False)))) for n, v in f.x.at.v.items()]
    ev = lambda e: z3.is_true(z3.simplify(z3.substitute(e, *sub)))
    out = {}
    for t in build.TYPES:
        for tr in TR: out[t, tr] = ev(f.imp(tr, t))
    for w in WIDTHS + ('cas',):
        for h in ('has', 'no'): out['cfg_%s_atomic_%s' % (h, w)] = ev(f.keep('cfg_%s_atomic_%s' % (h, w))[0])
    return out

def assignment(ws, cfg, cfgs):
    """atoms that hold for a configuration, asked from rustc"""
    a = {}
    for l in build.print_cfg(cfg, build.rustflags(cfg)) + list(cfgs):
        if '=' in l: k, v = l.split('=', 1); a['%s="%s"' % (k, v.strip('"'))] = True
        elif l: a[l] = True
    if cfg.profile != 'dev': a.pop('debug_assertions', None)
    else: a['debug_assertions'] = True
    return a

def probe_macros(ws, cfg, d):
    """which macros keep their contents (asked from rustc)"""
    src = '#![no_std]\n'; lines = {}; n = 2
    for w in WIDTHS + ('cas',):
        for h in ('has', 'no'):
            name = 'cfg_%s_atomic_%s' % (h, w); src += 'atomic_maybe_uninit::%s! { const _: u32 = "kept"; }\n' % name; lines[n] = name; n += 1
    rc, so, se = ws.dep(cfg, d, 'mprobe', src, extra=['--error-format=json'])
    kept = set()
    for l in se.split('\n'):
        if not l.startswith('{'): continue
        j = json.loads(l)
        if j.get('level') != 'error': continue
        if (j.get('code') or {}).get('code') == 'E0308':
            for sp in j['spans']:
                if sp['is_primary']: kept.add(lines[sp['line_start']])
        elif j.get('spans'): raise build.BuildError('macro probe %s: %s' % (cfg.id, j.get('message')))
    return {n: n in kept for n in lines.values()}

def observed(ws, cfg, d):
    av = build.availability(ws, cfg, d)
    out = {(t, tr): tr in av[t] for t in build.TYPES for tr in TR}
    out.update(probe_macros(ws, cfg, d))
    return out

PREFER = (('x86_64-unknown-linux-gnu', 'x86'), ('i686-unknown-linux-gnu', 'x86'))
def counterexample(f, goal, excl=()):
    """assignment violating the goal, on a target with an installed std if there is one; None if valid"""
    s = z3.Solver(); s.set('timeout', 60000); s.add(*f.env); s.add(z3.Not(goal))
    for reg in excl: s.add(z3.Not(z3.And(*[z3.Not(f.x.at.get(a[1:])) if a[0] == '!' else f.x.at.get(a) for a in reg])))
    r = s.check()
    if r == z3.unknown: raise Unsupported('solver gave up')
    if r == z3.unsat: return None
    tuples = {n: t for t, ns in f.uni.items() for n in ns}
    def cond(t):
        return z3.And(*[(v if m.group(2) == dict(zip(cfgx.TARGET_KEYS, t))[m.group(1)] else z3.Not(v)) for n, v in f.x.at.v.items() for m in [re.fullmatch(r'(\w+)="(.*)"', n)] if m and m.group(1) in cfgx.TARGET_KEYS])
    order = [n for n, _ in PREFER if n in tuples] + sorted(ns[0] for ns in f.uni.values())
    base = s
    for small in (True, False):
        for n in order:
            base.push(); base.add(cond(tuples[n]))
            if small:
                # prefer assignments without custom cfgs
                base.add(*[z3.Not(v) for a, v in f.x.at.v.items() if a.startswith('atomic_maybe_uninit_') and 'unstable_asm' not in a and 'target_feature' not in a])
            ok = base.check() == z3.sat
            m = base.model() if ok else None
            base.pop()
            if ok: return n, sorted(a for a, v in f.x.at.v.items() if z3.is_true(m[v]))
    return None, []

def confirm(ws, f, target, atoms):
    """compile the crate for the counterexample's target and flags; returns the disagreement-free observation or an error"""
    feats = [re.fullmatch(r'target_feature="(.*)"', a).group(1) for a in atoms if a.startswith('target_feature=')]
    installed = target in ('x86_64-unknown-linux-gnu', 'i686-unknown-linux-gnu')
    cfgs = tuple(a for a in atoms if a.startswith('atomic_maybe_uninit'))
    known = {m.group(1) for a in f.x.at.v for m in [re.fullmatch(r'target_feature="(.*)"', a)] if m}
    c0 = build.Config('probe', '', target, tc=build.STABLE if installed else build.NIGHTLY, own_core=not installed)
    have = {l.split('"')[1] for l in build.print_cfg(c0, []) if l.startswith('target_feature=')}
    flags = ['+' + x for x in feats if x not in have] + ['-' + x for x in sorted(known & have) if x not in feats]
    cfg = build.Config('c12-%s-%s' % (target, abs(hash(tuple(atoms))) % 10**6), '', target, ','.join(flags), cfgs=cfgs, tc=c0.tc, own_core=c0.own_core)
    d, cs = ws.crate(cfg)
    a = assignment(ws, cfg, cs)
    want = answers(f, a); got = observed(ws, cfg, d)
    diff = [str(k) for k in want if want[k] != got[k]]
    return dict(target=target, flags=','.join(flags), cfgs=sorted(cs), predicted_equals_rustc=not diff, differs=diff[:10], holding=sorted(str(k) for k in got if got[k])), a
