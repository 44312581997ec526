"""Memory-ordering properties (C05, C06): litmus composition decided by SMT.

Every explored path of every operation is reduced to a class: its C++20 meaning (read / write /
read-modify-write with a memory order) and the hardware events that implement it (fences, access with
its ordering annotations, fences).  A query takes a thread shape and leaves the class in each slot,
the locations, reads-from and coherence order symbolic: is there an execution the hardware model
allows and the C++20 model forbids?
"""
import z3, itertools, time
from . import symex, props
from .symex import Unsupported, STATS, OR, AND, NOT, eq, zb
from .ops import LOADF, STOREF, SWAPF, ORDS

MODES = {'Relaxed': '', 'Release': 'r', 'Acquire': 'a', 'AcqRel': 'ar', 'SeqCst': 'ars'}

# ------------------------------------------------------------------ extraction
def tags(x):
    return tuple(sorted((k, str(v)) for k, v in x.items() if v and k[0] != '_' and k not in ('lli',)))

_combos = {}
def combos(st, x, extra):
    """feasible concrete values of an ordering argument on a path.  The whole path condition with `extra` is
    known to be satisfiable, so only the conjuncts connected to x through shared variables can restrict it."""
    cs = symex.connected([c for c in st.pc + extra if not isinstance(c, bool)], [x])
    key = (x.get_id(), tuple(sorted({c.get_id() for c in cs})))
    if key in _combos: return _combos[key][0]
    out = []
    s = z3.Solver(); s.set('timeout', 60000)
    s.add(*cs)
    while True:
        STATS.queries += 1
        r = s.check()
        if r == z3.unknown: raise Unsupported('solver returned unknown')
        if r == z3.unsat: break
        v = s.model().eval(x, model_completion=True).as_long()
        out.append(v); s.add(x != v)
    if len(_combos) > 5000: _combos.clear()
    _combos[key] = (out, x, cs)
    return out

def holds(st, goal, *extra):
    if goal is True: return True
    if goal is False: return False
    return st.sat(*[zb(e) for e in extra], z3.Not(goal)) is None

def layout(tr, i, end):
    """hardware layout around the event with index i of the trace tr, looking no further than end"""
    e = tr[i]
    first = i
    rt = wt = ()
    hr = e.k in ('R', 'RMW'); hw = e.k in ('W', 'RMW')
    mid = ()
    t = tags(e.x)
    if e.k == 'R': rt = t
    elif e.k == 'W': wt = t
    elif 'lli' in e.x:
        first = e.x['lli']; rt = tags(tr[first].x); wt = t
        mid = tuple(tags(f.x) for f in tr[first + 1:i] if f.k == 'F')
    else: rt = wt = t + (('single', '1'),)
    pre = tuple(tags(f.x) for f in tr[:first] if f.k == 'F' or (f.k == 'R' and f.x.get('A')))
    post = []
    for f in tr[i + 1:end]:
        if f.k == 'F':
            d = f.x.get('_dep')
            post.append(tags(f.x) + ((('dep', '1'),) if d is not None and (i in d or first in d) else ()))
    return dict(pre=pre, post=tuple(post), mid=mid, rt=rt, wt=wt, hr=hr, hw=hw)

def extract(run):
    """[(ckind, mode, layout, description)] for every returning path"""
    out = []
    be = run.ex.be; W = 8 * run.n; lost = 0
    for st in run.states:
        if st.status != 'ret': continue
        tr = st.trace; op = run.op
        def covering(kinds, want_r=None, want_w=None, *extra):
            for i in reversed(range(len(tr))):
                e = tr[i]
                if e.k not in kinds: continue
                if want_r is not None:
                    v = props.sub(e.off, e.n, e.r, run, be)
                    if v is None or not holds(st, eq(v, want_r, W), run.valid, *extra): continue
                if want_w is not None:
                    v = props.sub(e.off, e.n, e.w, run, be)
                    if v is None or not holds(st, eq(v, want_w, W), run.valid, *extra): continue
                return i
            return None
        def emit(ck, i, which, extra, end=None):
            nonlocal lost
            if i is None:
                if st.sat(zb(run.valid), *[zb(x) for x in extra]) is not None: lost += 1
                return
            lay = layout(tr, i, len(tr) if end is None else end)
            lays = [lay]
            if ck == 'R' and lay['hw'] and ('single', '1') in lay['wt']:
                # a compare-and-swap instruction that leaves the value as it was: it may or may not count as a write
                lays = [dict(lay, hw=False)] + ([] if run.ex.cfg.model == 'tso' else [lay])
            if st.sat(zb(run.valid), *[zb(x) for x in extra]) is None: return
            for c in combos(st, which, [zb(run.valid)] + [zb(x) for x in extra]):
                m = ORDS[c]
                d = MODES[m]
                if ck == 'R': d = d.replace('r', '')
                if ck == 'W': d = d.replace('a', '')
                if ('opaque',) in [(k,) for k, _, _ in st.viol]: pass
                for lay in lays: out.append((ck, d, lay, '%s_%s %s' % (run.op, run.t, m)))
        if op in LOADF: emit('R', covering(('R', 'RMW'), props.outval(st, run)[0]), run.o, [])
        elif op in STOREF: emit('W', covering(('W', 'RMW'), None, run.val), run.o, [])
        elif op in SWAPF: emit('U', covering(('RMW',), props.outval(st, run)[0], run.val), run.o, [])
        else:
            ok, w = props.okflag(st, run); out_ = props.outval(st, run)[0]
            if op == 'fu':
                for n_, (pv, pu, nx, nu, b, at) in enumerate(st.cbs):
                    i = None
                    for j in reversed(range(at)):
                        if tr[j].k in ('R', 'RMW'):
                            v = props.sub(tr[j].off, tr[j].n, tr[j].r, run, be)
                            if v is not None and holds(st, eq(v, pv, W), run.valid): i = j; break
                    emit('R', i, run.f, [], at)
                if not st.cbs: lost += 1; continue
                new = st.cbs[-1][2]
            else: new = run.new
            if st.sat(zb(run.valid), zb(ok)) is not None:
                emit('U', covering(('RMW',), out_, new, ok), run.s, [ok])
            if op != 'fu' and st.sat(zb(run.valid), zb(NOT(ok))) is not None:
                emit('R', covering(('R', 'RMW'), out_, None, NOT(ok)), run.f, [NOT(ok)])
    return out, lost

# ------------------------------------------------------------------ attributes per hardware model
def fence_attr(model, t):
    d = dict(t)
    ir = d.get('ir')
    if model == 'tso':
        if d.get('full') or ir == 'seq_cst': return {'full'}
        return set()
    if model == 'sc': return set()
    if model == 'armv8':
        if ir: return {'ld'} if ir == 'acquire' else {'full', 'ld', 'st'}
        if d.get('dmb') == 'full': return {'full', 'ld', 'st'}
        if d.get('dmb'): return {d['dmb']}
        if d.get('A'): return {'ldar'}
        return set()
    if model in ('power', 'armv7'):
        if ir: return {'ff'} if ir == 'seq_cst' else {'lw'}
        return {k for k in ('ff', 'lw') if d.get({'ff': 'full', 'lw': 'lwsync'}[k])} | ({'ctli'} if d.get('ctli') and d.get('dep') else set())
    if model in ('rvwmo', 'la'):
        if ir: return {'acquire': {'rr', 'rw'}, 'release': {'rw', 'ww'}, 'acq_rel': {'rr', 'rw', 'ww'}, 'seq_cst': {'rr', 'rw', 'wr', 'ww'}}[ir]
        return set(d.get('ord', '').split())
    raise Unsupported('memory model ' + model)

def attrs(model, ck, mode, lay):
    a = set()
    if ck in 'RU': a.add('cR')
    if ck in 'WU': a.add('cW')
    if 'a' in mode: a.add('acq')
    if 'r' in mode: a.add('rel')
    if 's' in mode: a.add('sc')
    if lay['hr'] and ck in 'RU': a.add('hR')
    if lay['hw']: a.add('hW')
    for pos in ('pre', 'mid', 'post'):
        for f in lay[pos]: a |= {pos + ':' + x for x in fence_attr(model, f)}
    rt, wt = dict(lay['rt']), dict(lay['wt'])
    if model == 'tso':
        if rt.get('full') or wt.get('full'): a |= {'pre:full', 'post:full'}
    if model in ('power', 'armv7') and (rt.get('full') or wt.get('full')): a |= {'pre:ff', 'post:ff'}
    if model == 'armv8' and 'hR' in a:
        if rt.get('A'): a |= {'r:A', 'r:Q'}
        if rt.get('Q'): a.add('r:Q')
    if model == 'armv8' and 'hW' in a:
        if wt.get('L'): a.add('w:L')
        if wt.get('L') and wt.get('A') and wt.get('single') and 'hR' in a: a.add('rw:amo')
    if model == 'la' and rt.get('pair') and 'hW' not in a: rt = {}      # the barriers of ll/sc belong to the completed pair
    if model in ('rvwmo', 'la'):
        for h, k, t in (('hR', 'r:', rt), ('hW', 'w:', wt)):
            if h in a: a |= {k + x for x in ('aq', 'rl') if t.get(x)} | ({k + 'rcsc'} if t.get('aq') or t.get('rl') else set())
    return frozenset(a)

STRONGER_C = ('acq', 'rel', 'sc')
def prune(classes):
    """classes: {(attrs): (groups, who)} -> maximal ones.  A class is dominated by one with the same kind, at least its C++ ordering and at most its hardware ordering."""
    items = [(a, g, w) for a, (g, w) in classes.items()]
    def dom(x, y):     # x makes y redundant
        ax, gx, _ = x; ay, gy, _ = y
        if ax == ay and gx == gy: return False
        cx = {k for k in ax if k in STRONGER_C}; cy = {k for k in ay if k in STRONGER_C}
        base = ('cR', 'cW', 'hR', 'hW')
        if {k for k in ax if k in base} != {k for k in ay if k in base}: return False
        hx = {k for k in ax if ':' in k}; hy = {k for k in ay if ':' in k}
        return cy <= cx and hx <= hy and gy <= gx
    return [x for i, x in enumerate(items) if not any(dom(y, x) for y in items)]

# ------------------------------------------------------------------ SMT encoding
class Query:
    def __init__(self, model, shape, classes, nloc):
        self.model, self.shape, self.classes = model, shape, classes
        n = self.n = sum(shape)
        self.th = [t for t, k in enumerate(shape) for _ in range(k)]
        R = range(n)
        s = self.s = z3.SolverFor('QF_FD')
        B = lambda *a: z3.Bool('_'.join(map(str, a)))
        self.sel = [[B('sel', i, c) for c in range(len(classes))] for i in R]
        for i in R:
            s.add(z3.PbEq([(x, 1) for x in self.sel[i]], 1))
        allattr = sorted({a for c in classes for a in c[0]})
        self.at = [dict() for _ in R]
        for i in R:
            for a in allattr:
                v = [self.sel[i][k] for k, c in enumerate(classes) if a in c[0]]
                self.at[i][a] = z3.BoolVal(True) if len(v) == len(classes) else z3.Or(*v)
        F = z3.BoolVal(False)
        A = lambda i, a: self.at[i].get(a, F)
        self.A = A
        # locations: slot i uses location l; location l has a type group
        self.loc = [[B('loc', i, l) for l in range(nloc)] for i in R]
        for i in R:
            s.add(z3.PbEq([(x, 1) for x in self.loc[i]], 1))
            # symmetry: location l+1 is first used after location l
            for l in range(1, nloc):
                s.add(z3.Implies(self.loc[i][l], z3.Or(*[self.loc[k][l - 1] for k in range(i)]) if i else F))
        groups = sorted({g for c in classes for g in c[1]})
        gv = [[B('grp', l, g) for g in range(len(groups))] for l in range(nloc)]
        for l in range(nloc): s.add(z3.PbEq([(x, 1) for x in gv[l]], 1))
        for i in R:
            for k, c in enumerate(classes):
                bad = [g for g in range(len(groups)) if groups[g] not in c[1]]
                for l in range(nloc):
                    for g in bad: s.add(z3.Or(z3.Not(self.sel[i][k]), z3.Not(self.loc[i][l]), z3.Not(gv[l][g])))
        sl = [[z3.Or(*[z3.And(self.loc[i][l], self.loc[j][l]) for l in range(nloc)]) for j in R] for i in R]
        self.sl = sl
        # coherence: strict total order on the writes of each location
        co = self.co = [[B('co', i, j) if i != j else F for j in R] for i in R]
        for i in R:
            for j in R:
                if i == j: continue
                s.add(z3.Implies(co[i][j], z3.And(A(i, 'hW'), A(j, 'hW'), sl[i][j])))
                if i < j:
                    s.add(z3.Or(z3.Not(co[i][j]), z3.Not(co[j][i])))
                    s.add(z3.Implies(z3.And(A(i, 'hW'), A(j, 'hW'), sl[i][j]), z3.Or(co[i][j], co[j][i])))
                for k in R:
                    if k not in (i, j): s.add(z3.Or(z3.Not(co[i][j]), z3.Not(co[j][k]), co[i][k]))
        # reads-from
        rf = self.rf = [[B('rf', i, j) if i != j else F for j in R] for i in R]
        ini = self.ini = [B('ini', j) for j in R]
        for j in R:
            for i in R:
                if i != j: s.add(z3.Implies(rf[i][j], z3.And(A(i, 'hW'), A(j, 'hR'), sl[i][j])))
            s.add(z3.Implies(ini[j], A(j, 'hR')))
            src = [(rf[i][j], 1) for i in R if i != j] + [(ini[j], 1)]
            s.add(z3.PbLe(src, 1)); s.add(z3.Implies(A(j, 'hR'), z3.Or(*[x for x, _ in src])))
        fr = self.fr = [[z3.And(A(j, 'hR'), A(w, 'hW'), sl[j][w], z3.Or(ini[j], *[z3.And(rf[k][j], co[k][w]) for k in R if k != j])) for w in R] for j in R]
        # atomicity: nothing between the read and the write of one operation
        for j in R:
            for w in R:
                if w != j: s.add(z3.Not(z3.And(A(j, 'hR'), A(j, 'hW'), fr[j][w], co[w][j])))
            s.add(z3.Implies(z3.And(A(j, 'hR'), A(j, 'hW')), z3.And(*[z3.Implies(rf[k][j], co[k][j]) for k in R if k != j])))
            for k in R:
                if k != j: s.add(z3.Implies(z3.And(ini[j], A(j, 'hW'), A(k, 'hW'), sl[j][k]), co[j][k]))
        self.hardware()
        self.language()
    # parts: 2i = the read of slot i, 2i+1 = its write
    def acyclic(self, name, edges):
        """edges: {(p, q): formula} over parts; asserts acyclicity via a strict total order"""
        s = self.s; N = sorted({p for e in edges for p in e})
        o = {}
        for p in N:
            for q in N:
                if p < q: o[p, q] = z3.Bool('%s_%d_%d' % (name, p, q)); o[q, p] = z3.Not(o[p, q])
        for p, q, r in itertools.permutations(N, 3):
            if p < q and p < r: s.add(z3.Or(z3.Not(o[p, q]), z3.Not(o[q, r]), o[p, r]))
        for (p, q), f in edges.items():
            if p == q: s.add(z3.Not(f))
            else: s.add(z3.Implies(f, o[p, q]))
    def parts(self):
        for i in range(self.n):
            yield 2 * i, i, 'hR'
            yield 2 * i + 1, i, 'hW'
    def po(self, p, q):
        i, j = p // 2, q // 2
        return self.th[i] == self.th[j] and (i < j or (i == j and p < q))
    def between(self, p, q, f):
        """some fence f between the parts p and q (program order)"""
        i, j = p // 2, q // 2; A = self.A
        if i == j: return A(i, 'mid:' + f)
        v = [A(i, 'post:' + f), A(j, 'pre:' + f)]
        if p % 2 == 0: v.append(z3.And(A(i, 'mid:' + f)))
        if q % 2 == 1: v.append(A(j, 'mid:' + f))
        for k in range(i + 1, j): v += [A(k, pos + f) for pos in ('pre:', 'mid:', 'post:')]
        return z3.Or(*v)
    def hardware(self):
        n = self.n; A = self.A; R = range(n)
        act = {}
        for p, i, k in self.parts(): act[p] = A(i, k)
        self.act = act
        # per-location coherence
        e = {}
        def add(d, p, q, f):
            d[p, q] = f if (p, q) not in d else z3.Or(d[p, q], f)
        for p in act:
            for q in act:
                if p != q and self.po(p, q): add(e, p, q, z3.And(act[p], act[q], self.sl[p // 2][q // 2]))
        com = {}
        for i in R:
            for j in R:
                if i != j:
                    add(com, 2 * i + 1, 2 * j, self.rf[i][j]); add(com, 2 * i + 1, 2 * j + 1, self.co[i][j])
                    add(com, 2 * i, 2 * j + 1, self.fr[i][j])
        for k, f in com.items(): add(e, k[0], k[1], f)
        self.acyclic('uni', e)
        getattr(self, 'hw_' + self.model)(act, com, add)
    def hw_tso(self, act, com, add):
        g = {}
        for p in act:
            for q in act:
                if p == q or not self.po(p, q): continue
                if p % 2 == 1 and q % 2 == 0: add(g, p, q, z3.And(act[p], act[q], self.between(p, q, 'full')))
                else: add(g, p, q, z3.And(act[p], act[q]))
        for (p, q), f in com.items():
            if p % 2 == 1 and q % 2 == 0 and self.th[p // 2] == self.th[q // 2]: continue      # internal rf
            add(g, p, q, f)
        self.acyclic('ghb', g)
    def hw_sc(self, act, com, add):
        g = dict(com)
        for p in act:
            for q in act:
                if p != q and self.po(p, q): add(g, p, q, z3.And(act[p], act[q]))
        self.acyclic('sc', g)
    def hw_armv8(self, act, com, add):
        """Armv8 (multi-copy atomic), ordered-before without dependencies"""
        A = self.A; g = {}; sl = self.sl
        for p in act:
            for q in act:
                if p == q or not self.po(p, q): continue
                i, j = p // 2, q // 2
                both = z3.And(act[p], act[q])
                if i == j: add(g, p, q, both); continue          # read and write of one read-modify-write
                R, W = p % 2 == 0, q % 2 == 1
                c = [self.between(p, q, 'full')]
                if R: c += [A(i, 'r:Q'), self.between(p, q, 'ld')]
                else:
                    c += [A(i, 'rw:amo')] + [z3.And(A(i, 'w:L'), A(k, 'pre:ldar')) for k in range(i + 1, j + 1)]
                    if W: c.append(self.between(p, q, 'st'))
                    else:
                        c.append(z3.And(A(i, 'w:L'), A(j, 'r:A')))
                        # the write of a read-modify-write before a following acquire of the same location
                        c.append(z3.And(A(i, 'hR'), A(j, 'r:Q'), sl[i][j], *[z3.Not(z3.And(A(k, 'hW'), sl[i][k])) for k in range(i + 1, j)]))
                if W: c += [A(j, 'w:L'), sl[i][j]]
                add(g, p, q, z3.And(both, z3.Or(*c)))
        for (p, q), f in com.items():
            if self.th[p // 2] == self.th[q // 2]: continue          # internal
            add(g, p, q, f)
        self.acyclic('ob', g)
    def hw_rvwmo(self, act, com, add):
        """RVWMO: global memory order over preserved program order (without dependencies), rfe, co, fr"""
        A = self.A; g = {}; sl = self.sl
        for p in act:
            for q in act:
                if p == q or not self.po(p, q): continue
                i, j = p // 2, q // 2; k, l = 'rw'[p % 2], 'rw'[q % 2]
                both = z3.And(act[p], act[q])
                if i == j: add(g, p, q, both); continue          # paired lr and sc, or one amo
                c = [self.between(p, q, k + l), A(i, k + ':aq'), A(j, l + ':rl'), z3.And(A(i, k + ':rcsc'), A(j, l + ':rcsc'))]
                if l == 'w': c.append(sl[i][j])
                elif k == 'w': c.append(z3.And(A(i, 'hR'), self.rf[i][j]))
                add(g, p, q, z3.And(both, z3.Or(*c)))
        for (p, q), f in com.items():
            if p % 2 == 1 and q % 2 == 0 and self.th[p // 2] == self.th[q // 2]: continue      # internal rf
            add(g, p, q, f)
        self.acyclic('gmo', g)
    hw_la = hw_rvwmo
    def hw_armv7(self, act, com, add): self.hw_power(act, com, add, False)
    def hw_power(self, act, com, add, poloc_cc=True):
        """the axiomatic Power model of "Herding cats" (also for the non-multi-copy-atomic reading of Armv7 and MIPS);
        the only dependencies known are those from a load through a branch to an instruction fence.
        Relations are solver variables closed under the rules: every axiom forbids something, so the solver is free to
        take the least ones."""
        A = self.A; N = sorted(act); s = self.s; sl = self.sl; ids = itertools.count()
        class Rel(dict): pass
        def rel(pairs=None):
            """relation over pairs of parts; absent pairs are never related"""
            k = next(ids); r = Rel()
            for x in (pairs if pairs is not None else itertools.product(N, N)): r[x] = z3.Bool('w%d_%d_%d' % (k, *x))
            return r
        def sub(x, y):
            for k, f in x.items(): s.add(z3.Implies(f, y[k]) if k in y else z3.Not(f))
        def seq(x, y, z):
            for (p, q), f in x.items():
                for r in N:
                    if (q, r) in y: s.add(z3.Implies(z3.And(f, y[q, r]), z[p, r]) if (p, r) in z else z3.Not(z3.And(f, y[q, r])))
        ff = Rel(); lw = Rel(); cf = Rel(); pl = Rel(); po_ = [(p, q) for p in N for q in N if p != q and self.po(p, q)]
        for p, q in po_:
            i, j = p // 2, q // 2; both = z3.And(act[p], act[q])
            ff[p, q] = z3.And(both, self.between(p, q, 'ff'))
            if not (p % 2 == 1 and q % 2 == 0): lw[p, q] = z3.And(both, self.between(p, q, 'lw'))
            if p % 2 == 0 and i != j: cf[p, q] = z3.And(both, A(i, 'post:ctli'))
            pl[p, q] = z3.And(both, sl[i][j]) if i != j else both
        rfe, rfi, fre, coe, co_, allcom = Rel(), Rel(), Rel(), Rel(), Rel(), Rel()
        for (p, q), f in com.items():
            allcom[p, q] = f if (p, q) not in allcom else z3.Or(allcom[p, q], f)
            ext_ = self.th[p // 2] != self.th[q // 2]
            if p % 2 == 1 and q % 2 == 0: (rfe if ext_ else rfi)[p, q] = f
            elif p % 2 == 0:
                if ext_: fre[p, q] = f
            else:
                co_[p, q] = f
                if ext_: coe[p, q] = f
        # preserved program order
        ii, ic, ci, cc = rel(po_), rel(po_), rel(po_), rel(po_)
        def via(x, z):      # po-loc & (x ; rfe)
            for (p, q), f in x.items():
                for r in N:
                    if (q, r) in rfe and (p, r) in pl: s.add(z3.Implies(z3.And(f, rfe[q, r], pl[p, r]), z[p, r]))
        for (p, q), f in rfi.items():
            if (p, q) in ii: s.add(z3.Implies(f, ii[p, q]))
        via(fre, ii); via(coe, ci)
        sub(cf, ci)
        if poloc_cc: sub(pl, cc)
        else: sub(Rel({k: f for k, f in pl.items() if k[0] // 2 == k[1] // 2}), ic)
        sub(ci, ii); seq(ic, ci, ii); seq(ii, ii, ii)
        sub(ii, ic); sub(cc, ic); seq(ic, cc, ic); seq(ii, ic, ic)
        seq(ci, ii, ci); seq(cc, ci, ci)
        sub(ci, cc); seq(ci, ic, cc); seq(cc, cc, cc)
        hb, fence, base, ffhb, prop, comp = rel(), rel(po_), rel(), rel(), rel(), rel()
        sub(Rel({k: f for k, f in ii.items() if k[0] % 2 == 0 and k[1] % 2 == 0}), hb)
        sub(Rel({k: f for k, f in ic.items() if k[0] % 2 == 0 and k[1] % 2 == 1}), hb)
        if not poloc_cc: sub(Rel({k: f for k, f in pl.items() if k[0] % 2 == 0 and k[1] % 2 == 1}), hb)
        sub(ff, fence); sub(lw, fence)
        sub(fence, hb); sub(rfe, hb); seq(hb, hb, hb)
        for a in N: s.add(z3.Not(hb[a, a]))
        # prop-base = (fence | rfe;fence); hb*        base also holds its transitive closure, base1 does not
        base1 = rel()
        sub(fence, base1); seq(rfe, fence, base1); seq(base1, hb, base1)
        sub(base1, base); seq(base, base, base)
        sub(ff, ffhb); seq(base, ff, ffhb); seq(ffhb, hb, ffhb)
        sub(allcom, comp); seq(comp, comp, comp)
        sub(Rel({k: f for k, f in base1.items() if k[0] % 2 and k[1] % 2}), prop)
        sub(ffhb, prop); seq(comp, ffhb, prop)
        obs = rel(); seq(fre, prop, obs); seq(obs, hb, obs)
        for a in N: s.add(z3.Not(obs[a, a]))
        e = {}
        for a in N:
            for b in N: e[a, b] = z3.Or(co_[a, b], prop[a, b]) if (a, b) in co_ else prop[a, b]
        self.acyclic('prp', e)
    # ---- C++20
    def closure(self, m, N):
        k = 1
        while k < N:
            m = [[z3.Or(m[i][j], *[z3.And(m[i][x], m[x][j]) for x in range(N) if x not in (i, j)]) for j in range(N)] for i in range(N)]
            # name the intermediate formulas
            k *= 2
            m = [[self.name(m[i][j]) for j in range(N)] for i in range(N)]
        # the diagonal: a cycle through i
        return m
    def name(self, f):
        self.cnt = getattr(self, 'cnt', 0) + 1
        b = z3.Bool('d%d' % self.cnt); self.s.add(b == f); return b
    def language(self):
        n = self.n; R = range(n); A = self.A; s = self.s; F = z3.BoolVal(False)
        ghost = any('hW' in c[0] and 'cW' not in c[0] for c in self.classes)
        co, rf = self.co, self.rf
        mo = [[z3.And(co[i][j], A(i, 'cW'), A(j, 'cW')) for j in R] for i in R]
        if not ghost: rfc = [[z3.And(rf[i][j], A(j, 'cR')) for j in R] for i in R]
        else:
            rfc = [[F] * n for _ in R]
            for i in R:
                for j in R:
                    if i == j: continue
                    alts = [rf[i][j]]
                    for x in R:
                        if x in (i, j): continue
                        alts.append(z3.And(rf[x][j], z3.Not(A(x, 'cW')), co[i][x], *[z3.Not(z3.And(A(k, 'cW'), co[i][k], co[k][x])) for k in R if k not in (i, x)]))
                    rfc[i][j] = self.name(z3.And(A(i, 'cW'), A(j, 'cR'), z3.Or(*alts)))
        nosrc = [z3.And(A(j, 'cR'), *[z3.Not(rfc[i][j]) for i in R if i != j]) for j in R]
        frc = [[self.name(z3.And(A(j, 'cR'), A(w, 'cW'), self.sl[j][w], z3.Or(nosrc[j], *[z3.And(rfc[k][j], mo[k][w]) for k in R if k != j]))) if j != w else F for w in R] for j in R]
        U = lambda k: z3.And(A(k, 'cR'), A(k, 'cW'))
        # release sequences
        rs = [[rfc[i][j] for j in R] for i in R]
        for _ in range(max(0, n - 2)):
            rs = [[self.name(z3.Or(rfc[i][j], *[z3.And(rs[i][k], U(k), rfc[k][j]) for k in R if k not in (i, j)])) if i != j else F for j in R] for i in R]
        po = [[z3.BoolVal(self.th[i] == self.th[j] and i < j) for j in R] for i in R]
        base = [[z3.Or(po[i][j], z3.And(A(i, 'rel'), A(j, 'acq'), rs[i][j])) if i != j else F for j in R] for i in R]
        hb = self.closure(base, n)
        self.hb = hb
        eco = [[z3.Or(rfc[i][j], mo[i][j], frc[i][j], *[z3.And(z3.Or(mo[i][k], frc[i][k]), rfc[k][j]) for k in R if k not in (i, j)]) if i != j else F for j in R] for i in R]
        bad = []
        for i in R:
            for j in R:
                if i != j: bad.append(z3.And(hb[i][j], z3.Or(eco[j][i], hb[j][i])))
        self.c05 = z3.Or(*bad)
        sc = lambda i: A(i, 'sc')
        nl = [[z3.And(po[i][j], z3.Not(self.sl[i][j])) for j in R] for i in R]
        scb = [[z3.And(sc(i), sc(j), z3.Or(po[i][j], mo[i][j], frc[i][j], z3.And(hb[i][j], self.sl[i][j]),
                *[z3.And(nl[i][k], z3.Or(*[z3.And(hb[k][m], nl[m][j]) for m in R] + [nl[k][j]])) for k in R])) if i != j else F for j in R] for i in R]
        scb = [[self.name(scb[i][j]) if i != j else F for j in R] for i in R]
        psc = self.closure(scb, n)
        self.c06 = z3.And(z3.Not(self.c05), z3.Or(*[z3.And(psc[i][j], psc[j][i]) for i in R for j in R if i < j]))
    def nonvacuous(self):
        STATS.queries += 1
        return self.s.check(z3.Not(self.c05), self.A(0, 'cW')) == z3.sat
    def solve(self, which, timeout=600000):
        """None or a description of a bad execution"""
        t = time.time(); s = self.s
        s.set('timeout', timeout)
        s.push(); s.add(getattr(self, which))
        r = s.check(); STATS.queries += 1
        try:
            if r == z3.unknown: raise Unsupported('solver returned unknown (%s %s)' % (self.shape, which))
            return self.decode(s.model()) if r == z3.sat else None
        finally:
            s.pop(); STATS.solver_s += time.time() - t
    def decode(self, m):
        T = lambda f: z3.is_true(m.eval(f, model_completion=True))
        R = range(self.n); L = 'xyzuvw'; ops = []
        for i in R:
            c = next(k for k in range(len(self.classes)) if T(self.sel[i][k]))
            l = next(k for k in range(len(self.loc[i])) if T(self.loc[i][k]))
            src = None
            if T(self.A(i, 'hR')):
                src = 'initial value' if T(self.ini[i]) else 'op%d' % next((k for k in R if k != i and T(self.rf[k][i])), -1)
            ops.append(dict(op=i, thread=self.th[i], location=L[l], what=self.classes[c][2], kind={'R': 'read', 'W': 'write', 'RW': 'read-modify-write'}[''.join(k for k in 'RW' if 'c' + k in self.classes[c][0])], hardware=sorted(a for a in self.classes[c][0] if ':' in a), reads_from=src))
        co = ['op%d -> op%d' % (i, j) for i in R for j in R if i != j and T(self.co[i][j])]
        return dict(program=ops, coherence=co)

def shapes(tier):
    q = [(1, 1), (2, 1), (2, 2), (1, 1, 2), (3, 1), (1, 2, 2), (2, 2, 2), (1, 1, 2, 2), (3, 2), (3, 3)]
    return q if tier == 'quick' else q + [(1, 1, 3), (1, 2, 3), (4, 2), (2, 2, 3), (1, 1, 1, 2), (1, 1, 2, 3), (1, 2, 2, 2), (4, 3), (2, 2, 2, 2)]
