"""Symbolic executor for LLVM IR with inline assembly, over z3 bit-vectors.

Values are pairs (val, und): val is a python int (constant) or a z3 bit-vector, und is the mask of
undefined (uninitialised / poison) bits, again int or z3.  Aggregates are python lists of such pairs.
"""
import z3, time, re
from . import llir
from .llir import IRError

class Unsupported(Exception):
    """the engine cannot encode something: inconclusive, never a pass"""

class Stats:
    def __init__(self):
        self.queries = 0; self.solver_s = 0.0; self.instrs = 0; self.asm_instrs = 0; self.paths = 0; self.unknown = 0; self.obligations = 0; self.simplified = 0
STATS = Stats()
TIMEOUT_MS = 60000

_solver = None
def check(assertions):
    global _solver
    if _solver is None:
        _solver = z3.Solver(); _solver.set('timeout', TIMEOUT_MS)
    s = _solver
    t = time.time()
    s.push()
    try:
        s.add(*assertions) if assertions else None
        r = s.check()
        STATS.queries += 1
        if r == z3.unknown:
            STATS.unknown += 1
            raise Unsupported('solver returned unknown: ' + s.reason_unknown())
        return s.model() if r == z3.sat else None
    finally:
        s.pop(); STATS.solver_s += time.time() - t

_vars = {}
def variables(e):
    """names of the free constants of e"""
    k = e.get_id()
    if k in _vars: return _vars[k][1]
    r = set(); seen = set(); work = [e]
    while work:
        x = work.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in _vars: r |= _vars[i][1]; continue
        ch = x.children()
        if ch: work += ch
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.add(x.decl().name())
    if len(_vars) > 100000: _vars.clear()
    r = frozenset(r); _vars[k] = (e, r)       # keeps e alive, so its id is not reused
    return r
_slices = {}
def connected(cs, ys):
    """the conjuncts of cs that share variables, directly or through one another, with ys"""
    comp = set()
    for y in ys: comp |= variables(y)
    rest = [(c, variables(c)) for c in cs]; use = set(); ch = True
    while ch:
        ch = False; nxt = []
        for c, v in rest:
            if comp.isdisjoint(v): nxt.append((c, v))
            else:
                use.add(c.get_id()); comp |= v; ch = True
        rest = nxt
    return [c for c in cs if c.get_id() in use]

def components(cs, ys):
    """ys with the conjuncts of cs they depend on, separated into groups that share no variable: [(conjuncts, goals)]"""
    groups = []        # (variables, conjuncts' ids, goals)
    for y in ys:
        use = connected(cs, [y]); v = set(variables(y)).union(*[variables(c) for c in use]); ids = {c.get_id() for c in use}; gs = [y]; keep = []
        for g in groups:
            if g[0].isdisjoint(v): keep.append(g)
            else: v |= g[0]; ids |= g[1]; gs = g[2] + gs
        groups = keep + [(v, ids, gs)]
    return [([c for c in cs if c.get_id() in ids], gs) for _, ids, gs in groups]

def is_int(x): return isinstance(x, int)
def mask(w): return (1 << w) - 1
def bv(x, w):
    return z3.BitVecVal(x & mask(w), w) if isinstance(x, int) else x
def norm(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    return e
def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x
def ext(x, hi, lo, w):
    if is_int(x): return (x >> lo) & mask(hi - lo + 1)
    if lo == 0 and hi == w - 1: return x
    return norm(z3.Extract(hi, lo, x))
def cat(parts):
    """parts: list of (val,width), most significant first"""
    tot = sum(w for _, w in parts)
    if all(is_int(v) for v, _ in parts):
        r = 0
        for v, w in parts: r = r << w | (v & mask(w))
        return r
    if len(parts) == 1: return parts[0][0]
    return norm(z3.Concat(*[bv(v, w) for v, w in parts]))
def zext(x, w, W):
    if is_int(x): return x & mask(w)
    return x if w == W else norm(z3.ZeroExt(W - w, x))
def sext(x, w, W):
    if is_int(x): return sgn(x & mask(w), w) & mask(W)
    return x if w == W else norm(z3.SignExt(W - w, x))
def ite(c, a, b, w):
    if isinstance(c, bool): return a if c else b
    c = z3.simplify(c)
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if is_int(a) and is_int(b) and a == b: return a
    if not is_int(a) and not is_int(b) and a.eq(b): return a
    return norm(z3.If(c, bv(a, w), bv(b, w)))
def eq(a, b, w):
    if is_int(a) and is_int(b): return (a & mask(w)) == (b & mask(w))
    r = z3.simplify(bv(a, w) == bv(b, w))
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return r
def AND(*xs):
    ys = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        ys.append(x)
    if not ys: return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def OR(*xs):
    ys = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        ys.append(x)
    if not ys: return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)
def NOT(x):
    if isinstance(x, bool): return not x
    return z3.Not(x)
def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x
def binop(op, a, b, w):
    m = mask(w)
    if is_int(a) and is_int(b):
        if op == 'add': return (a + b) & m
        if op == 'sub': return (a - b) & m
        if op == 'mul': return (a * b) & m
        if op == 'and': return a & b
        if op == 'or': return a | b
        if op == 'xor': return a ^ b
        if op == 'shl': return (a << b) & m if b < w else 0
        if op == 'lshr': return (a & m) >> b if b < w else 0
        if op == 'ashr': return (sgn(a, w) >> min(b, w - 1)) & m
        if op == 'udiv' and b: return a // b
        if op == 'urem' and b: return a % b
    A, B = bv(a, w), bv(b, w)
    e = {'add': lambda: A + B, 'sub': lambda: A - B, 'mul': lambda: A * B, 'and': lambda: A & B, 'or': lambda: A | B,
         'xor': lambda: A ^ B, 'shl': lambda: A << B, 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B,
         'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B), 'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op]()
    return norm(e)

_fresh = [0]; _names = {}
def addtaint(op, a, ua, b, ub, w):
    """which bits of a +/- b depend on the unknown bits ua, ub (exact for the sum: carries are monotone)"""
    na, nb = binop('xor', ua, mask(w), w), binop('xor', ub, mask(w), w)
    lo, hi = binop('and', a, na, w), binop('or', a, ua, w)
    bl, bh = binop('and', b, nb, w), binop('or', b, ub, w)
    if op == 'sub': bl, bh = bh, bl
    return binop('or', binop('or', ua, ub, w), binop('xor', binop(op, lo, bl, w), binop(op, hi, bh, w), w), w)

def reset_fresh():
    _fresh[0] = 0; _names.clear()
def fresh(name, w):
    _fresh[0] += 1
    k = (name, _fresh[0], w); v = _names.get(k)
    if v is None: v = _names[k] = z3.BitVec('%s!%d' % (name, _fresh[0]), w)
    return v
def freshb(name):
    _fresh[0] += 1
    return z3.Bool('%s!%d' % (name, _fresh[0]))

class Obj:
    """memory object; chunks: dict offset -> (nbytes, val, und)"""
    __slots__ = ('name', 'lo', 'hi', 'base', 'chunks', 'const', 'kind', 'align')
    def __init__(self, name, lo, hi, base, kind, const=False, align=1):
        self.name, self.lo, self.hi, self.base, self.kind, self.const, self.align = name, lo, hi, base, kind, const, align
        self.chunks = {}
    def copy(self):
        o = Obj(self.name, self.lo, self.hi, self.base, self.kind, self.const, self.align)
        o.chunks = dict(self.chunks)
        return o
    def _split(self, off, n, be):
        """ensure no chunk straddles the boundary of [off, off+n)"""
        for s in list(self.chunks):
            cn, v, u = self.chunks[s]
            if s < off + n and off < s + cn and (s < off or s + cn > off + n):
                del self.chunks[s]
                for i in range(cn):
                    k = (cn - 1 - i) if be else i
                    self.chunks[s + i] = (1, ext(v, 8*k+7, 8*k, cn*8), 0 if is_int(u) and u == 0 else ext(u, 8*k+7, 8*k, cn*8))
    def write(self, off, n, v, u, be):
        c = self.chunks.get(off)
        if not (c and c[0] == n):
            self._split(off, n, be)
            for s in list(self.chunks):
                if off <= s < off + n: del self.chunks[s]
        self.chunks[off] = (n, v, u)
    def read(self, off, n, be):
        c = self.chunks.get(off)
        if c and c[0] == n: return c[1], c[2]
        parts = []
        i = 0
        # collect byte ranges
        spans = sorted(self.chunks)
        pos = off
        while pos < off + n:
            best = None
            for s in spans:
                cn = self.chunks[s][0]
                if s <= pos < s + cn: best = s; break
            if best is None:
                nxt = min([s for s in spans if s > pos] + [off + n])
                k = min(nxt, off + n) - pos
                parts.append((0, mask(8*k), k)); pos += k
            else:
                cn, v, u = self.chunks[best]
                a = pos - best; b = min(best + cn, off + n) - best   # bytes [a,b)
                if be: hi, lo = 8*(cn - a) - 1, 8*(cn - b)
                else: hi, lo = 8*b - 1, 8*a
                parts.append((ext(v, hi, lo, cn*8), u if is_int(u) and u == 0 else ext(u, hi, lo, cn*8), b - a)); pos += b - a
        if not be: parts.reverse()
        v = cat([(p[0], 8*p[2]) for p in parts])
        u = 0 if all(is_int(p[1]) and p[1] == 0 for p in parts) else cat([(p[1], 8*p[2]) for p in parts])
        return v, u

class Frame:
    __slots__ = ('f', 'block', 'idx', 'regs', 'prev', 'ret', 'allocas', 'uid')
    count = 0
    def __init__(self, f):
        Frame.count += 1; self.uid = Frame.count
        self.f = f; self.block = f.entry; self.idx = 0; self.regs = {}; self.prev = None; self.ret = None; self.allocas = []
    def copy(self):
        g = Frame.__new__(Frame)
        g.uid = self.uid
        g.f, g.block, g.idx, g.regs, g.prev, g.ret, g.allocas = self.f, self.block, self.idx, dict(self.regs), self.prev, self.ret, list(self.allocas)
        return g

class Event:
    """memory event on the atomic location or fence.  k: R W RMW F ; off relative to the location word"""
    __slots__ = ('k', 'off', 'n', 'r', 'w', 'x', 'cond')
    def __init__(self, k, off=0, n=0, r=None, w=None, **x):
        self.k, self.off, self.n, self.r, self.w, self.x = k, off, n, r, w, x
    def __repr__(self):
        return '%s[%s+%d] r=%s w=%s %s' % (self.k, self.off, self.n, self.r, self.w, {k: v for k, v in self.x.items() if v and k[0] != '_'})

class State:
    def __init__(self, ex):
        self.ex = ex; self.pc = []; self.mem = {}; self.own = set(); self.frames = []; self.trace = []
        self.status = 'run'; self.info = None; self.retval = None; self.viol = []; self.nalloc = 0; self.counts = {}
        self.model = (None, 0); self.nf = 0; self.nfr = 0
        self.cbs = []; self.irq = None; self.loopc = {}; self.notes = []; self.asmlog = []; self.excl = None
    def fork(self):
        s = State.__new__(State)
        s.ex = self.ex; s.pc = list(self.pc); s.mem = dict(self.mem); s.own = set(); self.own = set()
        s.frames = [f.copy() for f in self.frames]; s.trace = list(self.trace)
        s.status = self.status; s.info = self.info; s.retval = self.retval; s.viol = list(self.viol); s.nalloc = self.nalloc
        s.counts = dict(self.counts); s.cbs = list(self.cbs); s.irq = self.irq; s.loopc = dict(self.loopc); s.notes = list(self.notes)
        s.asmlog = list(self.asmlog); s.excl = self.excl; s.model = self.model; s.nf = _fresh[0]; s.nfr = self.nfr
        return s
    def assume(self, c):
        if c is True: return
        self.pc.append(zb(c))
    def sat(self, *cs):
        """model of pc & cs, or None.  The path condition itself is satisfiable (every branch was tested), so only
        the conjuncts connected to cs through shared variables can make the whole unsatisfiable."""
        ys = []
        for c in cs:
            if c is False: return None
            if c is True: continue
            ys.append(c)
        w = self.witness()
        if all(z3.is_true(w.eval(c, model_completion=True)) for c in ys): return w
        return self.extend(w, ys)
    def extend(self, w, ys):
        """the model w of the rest of the path condition, changed to satisfy ys as well; None if that is impossible"""
        n = w.__copy__()
        for use, gs in components(self.pc, ys):
            key = (tuple(c.get_id() for c in use), tuple(c.get_id() for c in gs))
            r = _slices.get(key)
            if r is None:
                if len(_slices) > 20000: _slices.clear()
                r = _slices[key] = (check(use + gs), use, gs)
            m = r[0]
            if m is None: return None
            for d in m.decls():
                if d.arity() == 0: n.update_value(d, m[d])
        return n
    def witness(self):
        """a model of the path condition"""
        m, n = self.model
        if m is None: m = check(self.pc)
        else:
            bad = [c for c in self.pc[n:] if not z3.is_true(m.eval(c, model_completion=True))]
            if bad: m = self.extend(m, bad)
        if m is None: raise Unsupported('a path with an unsatisfiable condition')
        self.model = (m, len(self.pc))
        return m
    def possible(self, c):
        if isinstance(c, bool): return c
        return self.feasible(c) is not None
    def feasible(self, c):
        """model of the path condition and c, or None"""
        return self.sat(c)
    def split(self, c):
        """[(state, truth)] for condition c"""
        if isinstance(c, bool): return [(self, c)]
        c = z3.simplify(c)
        if z3.is_true(c): return [(self, True)]
        if z3.is_false(c): return [(self, False)]
        n = z3.Not(c)
        t = self.feasible(c); f = self.feasible(n)
        if t is not None and f is not None:
            o = self.fork()
            self.pc.append(c); o.pc.append(n)
            self.model = (t, len(self.pc)); o.model = (f, len(o.pc))
            return [(self, True), (o, False)]
        if t is not None: return [(self, True)]
        return [(self, False)]
    def violate(self, kind, msg, cond=True):
        """record a violation under cond (if feasible)"""
        if cond is False: return
        if cond is not True:
            cond = z3.simplify(cond)
            if z3.is_false(cond): return
        if self.possible(cond):
            self.viol.append((kind, msg, zb(cond) if cond is not True else z3.BoolVal(True)))
    # ---- memory
    def obj(self, name):
        o = self.mem[name]
        if name not in self.own:
            o = o.copy(); self.mem[name] = o; self.own.add(name)
        return o
    def add_obj(self, name, lo, hi, base, kind, const=False, align=1):
        o = Obj(name, lo, hi, base, kind, const, align)
        self.mem[name] = o; self.own.add(name)
        return o
    def resolve(self, addr, n, what):
        """address value -> (object name, concrete offset); forks are not needed in this code base"""
        ex = self.ex
        W = ex.ptrw
        if is_int(addr):
            for nm, o in self.mem.items():
                if is_int(o.base) and o.base + o.lo <= addr and addr + n <= o.base + o.hi:
                    return nm, addr - o.base
            return None, addr
        # symbolic: try the location
        cand = z3.simplify(z3.substitute(addr, *ex.basesub)) if ex.basesub else addr
        if z3.is_bv_value(cand):
            a = cand.as_long()
        else:
            m = self.witness()
            if m is None: return None, addr
            a = m.eval(z3.substitute(addr, *ex.basesub), model_completion=True).as_long()
        for nm, o in self.mem.items():
            b = o.base if is_int(o.base) else z3.simplify(z3.substitute(o.base, *ex.basesub)).as_long()
            if b + o.lo <= a and a + n <= b + o.hi:
                off = a - b
                tgt = (o.base if is_int(o.base) else o.base) + off
                d = z3.simplify(addr == tgt)
                if z3.is_true(d) or not self.possible(z3.Not(d)):
                    return nm, off
                # address depends on data: report
                return None, addr
        return None, addr

class Executor:
    def __init__(self, modules, isa, cfg, spec_externs=None, max_steps=4000):
        self.mods = modules; self.isa = isa; self.cfg = cfg
        self.layout = modules[0].layout
        self.ptrw = self.layout.ptr; self.be = self.layout.be
        self.basesub = []
        self.max_steps = max_steps
        self.funcs = {}
        for m in modules:
            for n, f in m.funcs.items():
                if n not in self.funcs: self.funcs[n] = (f, m)
        self.decls = {}
        for m in modules:
            for n, f in m.decls.items(): self.decls.setdefault(n, f)
        self.externs = spec_externs or {}
        self.globaddr = {}
        self.nextg = 1 << (24 if self.ptrw > 16 else 14)
        self.interf = False      # havoc the location before each asm access
        self.spurious = False    # allow spurious SC failure / weak failure
        self.max_retry = 2
        self.indirect = {}; self.used = set(); self.undef = False; self.quiesce = False; self.taintmap = {}; self.tvnames = {}; self.frz = {}; self.frzdone = z3.Bool('frzdone')
        self.loc = None          # name of the shared location object
        self.on_event = None
        self.record_asm = None
        self.stackdown = (1 << 30) if self.ptrw > 16 else 0x7000
    # ---- values
    def const(self, c, st, fr):
        k = c[0]
        if k == 'reg': return fr.regs[c[1]]
        if k == 'int': return (c[2] & mask(c[1][1]), 0)
        if k in ('undef', 'poison'): return self.undefv(c[1])
        if k == 'zero': return self.zero(c[1])
        if k == 'glob': return (self.gaddr(c[1], st), 0)
        if k == 'agg':
            if c[1][0] == 'vec':
                w = self.layout.bits(c[1][2]); vs = [self.const(v, st, fr) for t, v in c[2]]
                return (cat([(v[0], w) for v in reversed(vs)]), cat([(v[1], w) for v in reversed(vs)]))
            return [self.const(v, st, fr) for t, v in c[2]]
        if k == 'bytes':
            return [(b, 0) for b in c[2]]
        if k == 'fp':
            import struct
            s = c[2]
            if s.startswith('0x'):
                x = int(s, 16)
                if c[1][0] == 'double': return (x, 0)
                d = struct.unpack('>d', x.to_bytes(8, 'big'))[0]
            else: d = float(s)
            if c[1][0] == 'double': return (int.from_bytes(struct.pack('>d', d), 'big'), 0)
            return (int.from_bytes(struct.pack('>f', d), 'big'), 0)
        if k == 'expr':
            op = c[1]
            if op == 'gep': return self.gep(c[3], [(t, self.const(v, st, fr)) for t, v in c[4]])
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'ptrtoaddr', 'trunc', 'zext'):
                v = self.const(c[4], st, fr); a = self.layout.bits(c[3]); b = self.layout.bits(c[2])
                return (zext(v[0], a, b), 0) if b >= a else (ext(v[0], b-1, 0, a), 0)
            w = self.layout.bits(c[3])
            return (binop(op, self.const(c[4], st, fr)[0], self.const(c[5], st, fr)[0], w), 0)
        raise Unsupported('const %r' % (c,))
    def undefv(self, t):
        if t[0] == 'struct': return [self.undefv(x) for x in t[1]]
        if t[0] == 'arr': return [self.undefv(t[2]) for _ in range(t[1])]
        return (0, mask(self.layout.bits(t)))
    def zero(self, t):
        if t[0] == 'struct': return [self.zero(x) for x in t[1]]
        if t[0] == 'arr': return [self.zero(t[2]) for _ in range(t[1])]
        return (0, 0)
    def gaddr(self, name, st):
        if name not in self.globaddr:
            size = 16
            for m in self.mods:
                if name in m.globals:
                    size = m.layout.size(m.globals[name]['ty']); break
            self.globaddr[name] = self.nextg
            self.nextg += (size + 63) // 32 * 32
        a = self.globaddr[name]
        key = '@' + name
        if key not in st.mem:
            for m in self.mods:
                if name in m.globals:
                    g = m.globals[name]; L = m.layout
                    o = st.add_obj(key, 0, L.size(g['ty']), a, 'global', g['const'], g['align'])
                    if g['init'] is not None:
                        self.store_raw(st, key, 0, g['ty'], self.const(g['init'], st, None))
                    break
        return a
    def flat(self, t, v):
        """leaf list (offset, type, value)"""
        L = self.layout
        if t[0] == 'struct':
            offs, _ = L.struct(t)
            r = []
            for o, ft, fv in zip(offs, t[1], v):
                r += [(o + a, b, c) for a, b, c in self.flat(ft, fv)]
            return r
        if t[0] == 'arr':
            es = L.size(t[2]); r = []
            for i, x in enumerate(v):
                r += [(i * es + a, b, c) for a, b, c in self.flat(t[2], x)]
            return r
        return [(0, t, v)]
    def store_raw(self, st, name, off, t, v):
        o = st.obj(name)
        for a, lt, lv in self.flat(t, v):
            w = self.layout.bits(lt); n = self.layout.store_size(lt)
            if n == 0: continue
            x, u = lv
            if n * 8 != w:
                x = zext(x, w, n * 8); u = zext(u, w, n * 8)
            o.write(off + a, n, x, u, self.be)
    def load_raw(self, st, name, off, t):
        L = self.layout
        if t[0] == 'struct':
            offs, _ = L.struct(t)
            return [self.load_raw(st, name, off + o, ft) for o, ft in zip(offs, t[1])]
        if t[0] == 'arr':
            es = L.size(t[2])
            return [self.load_raw(st, name, off + i * es, t[2]) for i in range(t[1])]
        w = L.bits(t); n = L.store_size(t)
        v, u = st.mem[name].read(off, n, self.be)
        if n * 8 != w:
            v = ext(v, w-1, 0, n*8); u = ext(u, w-1, 0, n*8) if not (is_int(u) and u == 0) else 0
        return (v, u)
    def gep(self, sty, args):
        L = self.layout; W = L.ptr
        (pt, (p, pu)) = args[0]
        off = 0; t = sty
        def idxv(ty, v):
            w = L.bits(ty)
            if w < W: return sext(v[0], w, W)
            if w > W: return ext(v[0], W-1, 0, w)
            return v[0]
        u = pu
        a = p
        first = True
        for (ty, v) in args[1:]:
            if not (is_int(v[1]) and v[1] == 0): u = mask(W)
            i = idxv(ty, v)
            if first:
                a = binop('add', a, binop('mul', i, L.size(sty), W), W); first = False
            elif t[0] == 'struct':
                offs, _ = L.struct(t); a = binop('add', a, offs[i], W); t = t[1][i]
            elif t[0] == 'arr' or t[0] == 'vec':
                t = t[2]; a = binop('add', a, binop('mul', i, L.size(t), W), W)
            else: raise Unsupported('gep into %r' % (t,))
        return (a, u)
    # ---- running
    def run(self, st):
        # names of fresh variables are counted per path, so that sibling paths build identical terms and share queries
        work = [st]; done = []; st.nf = _fresh[0]; top = st.nf
        while work:
            s = work.pop(); _fresh[0] = s.nf
            steps = 0
            while s is not None and s.status == 'run':
                steps += 1
                if steps > self.max_steps: raise Unsupported('step bound exceeded in %s' % (s.frames[0].f.name if s.frames else '?'))
                r = self.step(s)
                if r is None: continue
                if len(r) == 0: s = None; break
                for x in r: x.nf = _fresh[0]
                s = r[0]; work.extend(r[1:])
            top = max(top, _fresh[0])
            if s is not None:
                STATS.paths += 1; done.append(s)
        _fresh[0] = top
        return done
    def call_function(self, st, name, args):
        f, m = self.funcs[name]
        llir.ensure_parsed(f, m)
        self.used.add(name)
        fr = Frame(f); st.nfr += 1; fr.uid = st.nfr
        for (t, nm, aa), v in zip(f.params, args): fr.regs[nm] = v
        st.frames.append(fr)
        return fr
    def goto(self, st, fr, label):
        key = (len(st.frames), fr.f.name, fr.block, label)
        fr.prev = fr.block; fr.block = label; fr.idx = 0
        # evaluate phis simultaneously
        blk = fr.f.blocks[label]
        vals = []
        for ins in blk:
            if ins.op != 'phi': break
            for v, l in ins.x['inc']:
                if l.strip('"') == fr.prev:
                    vals.append((ins.res, self.const(v, st, fr))); break
            else: raise Unsupported('phi')
        for r, v in vals: fr.regs[r] = v
        fr.idx = len(vals)
        # IR loops are bounded by the number of callback calls / retries of the function
        order = fr.f.order
        if order.index(label) <= order.index(fr.prev):
            k = ('loop', len(st.frames), fr.f.name, label)
            st.loopc[k] = st.loopc.get(k, 0) + 1
            if st.loopc[k] > 40:
                st.status = 'cut'; st.info = 'IR loop bound'
    def need_defined(self, st, v, w, what):
        u = v[1]
        if is_int(u):
            if u & mask(w): st.violate('ub', what + ' depends on uninitialised bits')
        else:
            st.violate('ub', what + ' depends on uninitialised bits', u != 0)
    def need_typed(self, st, v, w, what, extra=None):
        """the value passes through a type that must be initialised.  Returns the value with its remaining taint.

        Bits an asm block delivers are fixed bits to the language, so inside the function containing the block
        (and what it calls) they may be handled as an integer, although which bits they are depends on
        uninitialised memory: those marks (frz_<frame>) are not held against this read, and never again for
        values that went through one.  Once that function has returned, its results count as possibly
        uninitialised again."""
        u = v[1]
        if is_int(u):
            self.need_defined(st, v, w, what); return v
        act = {f.uid for f in st.frames}
        if extra is not None: act.add(extra.uid)
        m = [(b, self.frzdone) for k, b in self.frz.items() if k in act]
        if m: u = z3.substitute(u, *m)
        rest = z3.simplify(z3.substitute(u, (self.frzdone, z3.BoolVal(False))))
        if not (z3.is_bv_value(rest) and rest.as_long() == 0):
            st.violate('ub', what + ' depends on uninitialised bits', rest != 0)
        return (v[0], u)
    def frzmark(self, st, u):
        """taint of a value delivered by an asm block of the current function"""
        if is_int(u) or not self.undef: return u
        k = st.frames[-1].uid
        b = self.frz.get(k)
        if b is None: b = self.frz[k] = z3.Bool('frz_%d' % k)
        if ('frz', k) not in st.counts:
            st.counts[('frz', k)] = 1; st.pc.append(b)
        if 'frzdone' not in st.counts:
            st.counts['frzdone'] = 1; st.pc.append(self.frzdone)
        return z3.If(b, u, z3.BitVecVal(0, u.size()))
    def step(self, st):
        fr = st.frames[-1]
        ins = fr.f.blocks[fr.block][fr.idx]
        fr.idx += 1
        STATS.instrs += 1
        op = ins.op
        L = self.layout
        C = lambda c: self.const(c, st, fr)
        if op in llir.BIN:
            a, b = C(ins.a[0]), C(ins.a[1]); t = ins.ty
            w = L.bits(t)
            if t[0] == 'vec' and op not in ('and', 'or', 'xor'): raise Unsupported('vector ' + op)
            ua, ub = a[1], b[1]
            v = binop(op, a[0], b[0], w)
            if is_int(ua) and ua == 0 and is_int(ub) and ub == 0: u = 0
            elif op in ('and', 'or', 'xor'):
                u = binop('or', ua, ub, w)
                if op == 'and':   # 0 & undef = 0
                    da = binop('and', binop('xor', ua, mask(w), w), binop('xor', a[0], mask(w), w), w)
                    db = binop('and', binop('xor', ub, mask(w), w), binop('xor', b[0], mask(w), w), w)
                    u = binop('and', u, binop('xor', binop('or', da, db, w), mask(w), w), w)
                elif op == 'or':
                    da = binop('and', binop('xor', ua, mask(w), w), a[0], w); db = binop('and', binop('xor', ub, mask(w), w), b[0], w)
                    u = binop('and', u, binop('xor', binop('or', da, db, w), mask(w), w), w)
            elif op in ('shl', 'lshr') and is_int(ub) and ub == 0:
                u = binop(op, ua, b[0], w)
            elif op in ('add', 'sub'): u = addtaint(op, a[0], ua, b[0], ub, w)
            else:
                any_u = OR(NOT(eq(ua, 0, w)), NOT(eq(ub, 0, w)))
                u = ite(any_u, mask(w), 0, w)
            if op in ('shl', 'lshr', 'ashr') and not is_int(b[0]):
                # over-shift is poison
                u = ite(z3.ULT(bv(b[0], w), z3.BitVecVal(w, w)), u, mask(w), w)
            elif op in ('shl', 'lshr', 'ashr') and b[0] >= w:
                u = mask(w)
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                self.need_defined(st, b, w, 'divisor')
                st.violate('ub', 'division by zero', eq(b[0], 0, w))
            fr.regs[ins.res] = (v, u)
            return
        if op in llir.CAST:
            f, t = ins.x['from'], ins.ty
            if op in ('bitcast', 'addrspacecast') and f[0] not in ('arr', 'struct'):
                fr.regs[ins.res] = C(ins.a[0]); return
            wa, wb = L.bits(f), L.bits(t)
            v, u = C(ins.a[0])
            if op in ('zext', 'inttoptr', 'ptrtoint', 'ptrtoaddr', 'trunc'):
                if wb >= wa:
                    r = (zext(v, wa, wb), 0 if is_int(u) and u == 0 else zext(u, wa, wb))
                    if op == 'zext' and not (is_int(u) and u == 0): pass
                else: r = (ext(v, wb-1, 0, wa), 0 if is_int(u) and u == 0 else ext(u, wb-1, 0, wa))
            elif op == 'sext': r = (sext(v, wa, wb), 0 if is_int(u) and u == 0 else sext(u, wa, wb))
            else: raise Unsupported(op)
            fr.regs[ins.res] = r
            return
        if op == 'icmp':
            a, b = C(ins.a[0]), C(ins.a[1]); w = L.bits(ins.x['ty']); pr = ins.x['pred']
            if ins.x['ty'][0] == 'vec': raise Unsupported('vector icmp')
            x, y = a[0], b[0]
            if is_int(x) and is_int(y):
                X, Y = (sgn(x, w), sgn(y, w)) if pr[0] == 's' else (x, y)
                p = pr[-2:]
                r = {'eq': X == Y, 'ne': X != Y, 'gt': X > Y, 'ge': X >= Y, 'lt': X < Y, 'le': X <= Y}[p]
                v = int(r)
            else:
                X, Y = bv(x, w), bv(y, w)
                e = {'eq': lambda: X == Y, 'ne': lambda: X != Y, 'ugt': lambda: z3.UGT(X, Y), 'uge': lambda: z3.UGE(X, Y), 'ult': lambda: z3.ULT(X, Y),
                     'ule': lambda: z3.ULE(X, Y), 'sgt': lambda: X > Y, 'sge': lambda: X >= Y, 'slt': lambda: X < Y, 'sle': lambda: X <= Y}[pr]()
                v = ite(e, 1, 0, 1)
            if is_int(a[1]) and a[1] == 0 and is_int(b[1]) and b[1] == 0: u = 0
            else: u = ite(OR(NOT(eq(a[1], 0, w)), NOT(eq(b[1], 0, w))), 1, 0, 1)
            fr.regs[ins.res] = (v, u)
            return
        if op == 'select':
            c = C(ins.a[0]); a = C(ins.a[1]); b = C(ins.a[2])
            cv = eq(c[0], 1, 1)
            if isinstance(a, list): raise Unsupported('select agg')
            w = L.bits(ins.ty)
            if not (is_int(c[1]) and c[1] == 0):
                self.need_typed(st, c, 1, 'select')
            fr.regs[ins.res] = (ite(cv, a[0], b[0], w), ite(cv, a[1], b[1], w))
            return
        if op == 'freeze':
            v, u = C(ins.a[0]); w = L.bits(ins.ty)
            fr.regs[ins.res] = (self.freeze(v, u, w), 0)
            return
        if op == 'alloca':
            t = ins.x['ty']; size = L.size(t) * ins.x.get('n', 1); al = max(ins.x.get('align', 1), 1)
            st.nalloc += 1
            key = 'a%d' % st.nalloc
            base = self.stackdown + 64 * 0 + sum(0 for _ in ())  # placeholder
            base = st.counts.get('allocptr', self.stackdown)
            base = (base + al - 1) // al * al
            st.counts['allocptr'] = base + max(size, 1) + 16
            st.add_obj(key, 0, size, base, 'alloca', False, al)
            fr.allocas.append(key)
            fr.regs[ins.res] = (base, 0)
            return
        if op == 'load':
            p = C(ins.a[0])
            self.need_defined(st, p, self.ptrw, 'pointer')
            n = L.size(ins.ty)
            if n == 0:
                fr.regs[ins.res] = self.zero(ins.ty); return
            nm, off = st.resolve(p[0], n, 'load')
            if nm is None:
                st.violate('mem', 'load of %d bytes outside any object: %s' % (n, ins.line)); st.status = 'ub'; st.info = 'bad load'
                return [st]
            self.plain(st, nm, off, n, 'R', ins, L)
            v = self.load_raw(st, nm, off, ins.ty)
            if '!noundef' in ins.md and not isinstance(v, list):
                v = self.need_typed(st, v, L.bits(ins.ty), 'typed read (%s)' % ins.line)
            fr.regs[ins.res] = v
            return
        if op == 'store':
            p = C(ins.a[1]); v = C(ins.a[0])
            self.need_defined(st, p, self.ptrw, 'pointer')
            n = L.size(ins.ty)
            if n == 0: return
            nm, off = st.resolve(p[0], n, 'store')
            if nm is None or st.mem[nm].const:
                st.violate('mem', 'store of %d bytes outside any writable object: %s' % (n, ins.line)); st.status = 'ub'; st.info = 'bad store'
                return [st]
            self.plain(st, nm, off, n, 'W', ins, L)
            self.store_raw(st, nm, off, ins.ty, v); self.critical(st, nm, off, n)
            return
        if op == 'getelementptr':
            fr.regs[ins.res] = self.gep(ins.x['sty'], [(t, C(v)) for t, v in ins.x['args']])
            return
        if op == 'extractvalue':
            v = C(ins.a[0])
            for i in ins.x['idx']: v = v[i]
            fr.regs[ins.res] = v
            return
        if op == 'insertvalue':
            v = C(ins.a[0]); x = C(ins.a[1])
            def ins_(v, idx):
                v = list(v)
                v[idx[0]] = x if len(idx) == 1 else ins_(v[idx[0]], idx[1:])
                return v
            fr.regs[ins.res] = ins_(v, ins.x['idx'])
            return
        if op in ('extractelement', 'insertelement', 'shufflevector'):
            return self.vecop(st, fr, ins, C)
        if op == 'br':
            if not ins.a:
                self.goto(st, fr, ins.x['to'][0].strip('"')); return
            c = C(ins.a[0])
            self.need_typed(st, c, 1, 'branch')
            if is_int(c[0]):
                self.goto(st, fr, ins.x['to'][0 if c[0] else 1]); return
            out = []
            for s, tv in st.split(c[0] == 1):
                self.goto(s, s.frames[-1], ins.x['to'][0 if tv else 1]); out.append(s)
            return out
        if op == 'switch':
            v = C(ins.a[0]); w = L.bits(ins.ty)
            self.need_typed(st, v, w, 'switch')
            if is_int(v[0]):
                for c, l in ins.x['cases']:
                    if c & mask(w) == v[0]: self.goto(st, fr, l); return
                self.goto(st, fr, ins.x['default']); return
            out = []; rest = st; alive = True
            for c, l in ins.x['cases']:
                nxt = None
                for s, tv in rest.split(v[0] == z3.BitVecVal(c & mask(w), w)):
                    if tv: self.goto(s, s.frames[-1], l); out.append(s)
                    else: nxt = s
                if nxt is None: alive = False; break
                rest = nxt
            if alive:
                self.goto(rest, rest.frames[-1], ins.x['default']); out.append(rest)
            return out
        if op == 'ret':
            v = C(ins.a[0]) if ins.a else None
            f = st.frames.pop()
            if 'noundef' in f.f.retattrs and v is not None and not isinstance(v, list):
                v = self.need_typed(st, v, L.bits(ins.ty), 'return value of %s' % demangle(f.f.name), f)
            for k in f.allocas:
                st.mem.pop(k, None)
            if not st.frames:
                st.status = 'ret'; st.retval = v
                return [st]
            c = st.frames[-1]
            if f.ret is not None and v is not None: c.regs[f.ret] = v
            return
        if op == 'unreachable':
            st.violate('ub', 'reached an unreachable point in %s' % demangle(fr.f.name)); st.status = 'ub'; st.info = 'unreachable'
            return [st]
        if op in ('call', 'invoke'):
            return self.call(st, fr, ins, C)
        if op == 'fence':
            if ins.x.get('scope', '').strip('"') != 'singlethread':
                st.trace.append(Event('F', ir=ins.x.get('ord')))
            return
        raise Unsupported('instruction %s' % ins.line)
    def freeze(self, v, u, w):
        if is_int(u) and u == 0: return v
        f = fresh('frz', w)
        return binop('or', binop('and', v, binop('xor', u, mask(w), w), w), binop('and', f, u, w), w)
    def vecop(self, st, fr, ins, C):
        L = self.layout
        if ins.op == 'extractelement':
            v = C(ins.a[0]); i = C(ins.a[1])[0]; w = L.bits(ins.x['ty'][2]); W = L.bits(ins.x['ty'])
            fr.regs[ins.res] = (ext(v[0], w*i+w-1, w*i, W), ext(v[1], w*i+w-1, w*i, W)); return
        if ins.op == 'insertelement':
            v = C(ins.a[0]); x = C(ins.a[1]); i = C(ins.a[2])[0]; n = ins.ty[1]; w = L.bits(ins.ty[2]); W = n*w
            def put(a, b): return cat([(b if j == i else ext(a, w*j+w-1, w*j, W), w) for j in reversed(range(n))])
            fr.regs[ins.res] = (put(v[0], x[0]), put(v[1], x[1])); return
        raise Unsupported(ins.op)
    def plain(self, st, nm, off, n, k, ins, L):
        if nm != self.loc: return
        if st.irq != 'off': st.trace.append(Event('plain' + k, off, n, line=ins.line))
        elif k == 'R':
            # interrupts are off: part of one indivisible step of the only processor
            st.trace.append(Event('R', off, n, st.mem[nm].read(off, n, self.be)[0], crit=st.counts.get('crit', 0)))
    def critical(self, st, nm, off, n):
        """after a write by compiled code while interrupts are off"""
        if nm != self.loc or st.irq != 'off': return
        w = st.mem[nm].read(off, n, self.be)[0]; c = st.counts.get('crit', 0)
        for i in range(len(st.trace) - 1, -1, -1):
            e = st.trace[i]
            if e.x.get('crit') != c: break
            if (e.off, e.n) == (off, n):
                st.trace[i] = Event('W' if e.k == 'W' else 'RMW', off, n, e.r, w, crit=c); return
        st.trace.append(Event('W', off, n, None, w, crit=c))
    # ---- calls
    def call(self, st, fr, ins, C):
        L = self.layout
        if 'asm' in ins.x:
            from . import asmx
            args = [(t, C(v)) for t, v, aa in ins.a]
            out = asmx.run(self, st, ins, args)
            res = []
            for s, val in out:
                if s.status == 'run':
                    if ins.res is not None: s.frames[-1].regs[ins.res] = val
                    if ins.op == 'invoke': self.goto(s, s.frames[-1], ins.x['to'][0])
                res.append(s)
            return res
        kind, name = ins.x['callee']
        if kind == 'reg':
            a = C(('reg', name))[0]
            if is_int(a): name = self.indirect.get(a) or next((n for n, g in self.globaddr.items() if g == a and n in self.funcs), None)
            if not is_int(a) or name is None: raise Unsupported('indirect call')
        args = []
        for t, v, aa in ins.a:
            if v is None: args.append(None); continue
            x = C(v)
            if 'noundef' in aa and not isinstance(x, list) and not name.startswith('llvm.'):
                x = self.need_typed(st, x, L.bits(t), 'argument of %s' % demangle(name))
            args.append(x)
        for m in self.mods:
            if name in m.aliases and m.aliases[name][0] == 'glob': name = m.aliases[name][1]
        def setret(v):
            if ins.res is not None: fr.regs[ins.res] = v
            if ins.op == 'invoke': self.goto(st, fr, ins.x['to'][0])
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, ins, name, args, setret)
        if name in ('memcpy', 'memmove', 'memset'):
            return self.intrinsic(st, fr, ins, 'llvm.%s.' % name, args, setret)
        if name in self.externs:
            return self.externs[name](self, st, fr, ins, args, setret)
        if name in self.funcs:
            f, m = self.funcs[name]
            if len(st.frames) > 60: raise Unsupported('recursion')
            nf = self.call_function(st, name, args)
            nf.ret = ins.res
            if ins.op == 'invoke':
                # continue at the normal destination after return
                fr.prev_inv = None
                self.goto(st, fr, ins.x['to'][0])
                # goto evaluated phis before the callee's value exists; phis on invoke results are not emitted by rustc
            return
        d = self.decls.get(name)
        if d is not None and (d.noreturn or 'noreturn' in ins.x.get('fnattrs', [])):
            st.status = 'panic'; st.info = (demangle(name), self.strings(st, args))
            return [st]
        h = self.externs.get('*')
        if h: return h(self, st, fr, ins, name, args, setret)
        raise Unsupported('call to external function %s' % demangle(name))
    def strings(self, st, args, depth=3):
        """constant strings reachable from panic arguments"""
        out = []; seen = set()
        def scan(addr, d):
            if not is_int(addr) or d < 0: return
            nm, off = st.resolve(addr, 1, '')
            if nm is None or nm in seen: return
            seen.add(nm)
            o = st.mem[nm]
            bs = bytearray()
            for i in range(o.lo, o.hi):
                v, u = o.read(i, 1, self.be)
                if not is_int(v): v = 0
                if is_int(u) and u: v = 0
                bs.append(v)
            s = bytes(bs)
            for m in re.findall(rb'[\x20-\x7e]{6,}', s): out.append(m.decode())
            pn = self.ptrw // 8
            for i in range(0, len(s) - pn + 1, pn):
                v = int.from_bytes(s[i:i+pn], 'big' if self.be else 'little')
                if v: 
                    if v not in (0,): scan(v, d - 1)
        for a in args:
            if isinstance(a, list): continue
            if a is None: continue
            scan(a[0], depth)
        return out
    def intrinsic(self, st, fr, ins, name, args, setret):
        L = self.layout
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.donothing', 'llvm.invariant')):
            setret((0, 0)); return
        if name.startswith('llvm.assume'):
            c = args[0]
            self.need_typed(st, c, 1, 'assume')
            st.violate('ub', 'false assumption', eq(c[0], 0, 1))
            return
        if name.startswith('llvm.expect'):
            setret(args[0]); return
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            dst, src, n = args[0], args[1], args[2][0]
            if not is_int(n): raise Unsupported('symbolic memcpy length')
            if n == 0: setret(dst); return
            a, ao = st.resolve(src[0], n, 'memcpy'); b, bo = st.resolve(dst[0], n, 'memcpy')
            if a is None or b is None or st.mem[b].const:
                st.violate('mem', 'memcpy outside any object'); st.status = 'ub'; st.info = 'memcpy'; return [st]
            self.plain(st, a, ao, n, 'R', ins, L); self.plain(st, b, bo, n, 'W', ins, L)
            v, u = st.mem[a].read(ao, n, self.be) if n <= 64 else (None, None)
            if v is None: raise Unsupported('large memcpy')
            st.obj(b).write(bo, n, v, u, self.be); self.critical(st, b, bo, n)
            setret(dst); return
        if name.startswith('llvm.memset'):
            dst, v, n = args[0], args[1], args[2][0]
            if not is_int(n) or n > 64: raise Unsupported('memset')
            if n == 0: setret(dst); return
            b, bo = st.resolve(dst[0], n, 'memset')
            if b is None: st.violate('mem', 'memset outside any object'); st.status = 'ub'; return [st]
            self.plain(st, b, bo, n, 'W', ins, L)
            st.obj(b).write(bo, n, cat([(v[0], 8)] * n), cat([(v[1], 8)] * n), self.be); self.critical(st, b, bo, n)
            setret(dst); return
        if name.startswith('llvm.trap'):
            st.status = 'panic'; st.info = ('trap', []); return [st]
        m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            w = int(m.group(3)); a, b = args[0][0], args[1][0]
            f = sext if m.group(1) == 's' else zext
            e = 2 * w
            r = binop(m.group(2), f(a, w, e), f(b, w, e), e)
            lo = ext(r, w-1, 0, e)
            ov = NOT(eq(f(lo, w, e), r, e))
            if m.group(2) == 'sub' and m.group(1) == 'u': ov = (a < b) if is_int(a) and is_int(b) else z3.ULT(bv(a, w), bv(b, w))
            setret([(lo, 0), (ite(ov, 1, 0, 1), 0)]); return
        m = re.match(r'llvm\.bswap\.i(\d+)', name)
        if m:
            w = int(m.group(1)); v, u = args[0]
            f = lambda x: cat([(ext(x, 8*i+7, 8*i, w), 8) for i in range(w // 8)])
            setret((f(v), f(u))); return
        m = re.match(r'llvm\.fsh([lr])\.i(\d+)', name)
        if m:
            w = int(m.group(2)); a, b, c = [x[0] for x in args]
            k = binop('urem', c, w, w)
            W2 = 2 * w
            x = cat([(a, w), (b, w)]); kk = zext(k, w, W2)
            if m.group(1) == 'l': r = ext(binop('shl', x, kk, W2), W2-1, w, W2)
            else: r = ext(binop('lshr', x, kk, W2), w-1, 0, W2)
            setret((r, 0)); return
        m = re.match(r'llvm\.(ctpop|cttz|ctlz|abs|umin|umax|smin|smax|bitreverse)\.i(\d+)$', name)
        if m:
            op, w = m.group(1), int(m.group(2)); a = args[0][0]
            for x in args: 
                if not (is_int(x[1]) and x[1] == 0): self.need_defined(st, x, w if x is args[0] else 1, op)
            if op == 'ctpop':
                r = 0
                for i in range(w): r = binop('add', r, zext(ext(a, i, i, w), 1, w), w)
            elif op in ('cttz', 'ctlz'):
                r = w
                for i in (reversed(range(w)) if op == 'cttz' else range(w)):
                    r = ite(eq(ext(a, i, i, w), 1, 1), i if op == 'cttz' else w - 1 - i, r, w)
            elif op == 'abs': r = ite(eq(ext(a, w-1, w-1, w), 1, 1), binop('sub', 0, a, w), a, w)
            elif op == 'bitreverse': r = cat([(ext(a, i, i, w), 1) for i in range(w)])
            else:
                b = args[1][0]; A, B = bv(a, w), bv(b, w)
                c = z3.simplify({'umin': z3.ULT(A, B), 'umax': z3.UGT(A, B), 'smin': A < B, 'smax': A > B}[op])
                r = ite(c, a, b, w)
            setret((r, 0)); return
        m = re.match(r'llvm\.(u|s)(add|sub)\.sat\.i(\d+)$', name)
        if m and m.group(1) == 'u':
            w = int(m.group(3)); a, b = args[0][0], args[1][0]
            r = binop(m.group(2), a, b, w); A, B, R = bv(a, w), bv(b, w), bv(r, w)
            setret((ite(z3.ULT(R, A), mask(w), r, w) if m.group(2) == 'add' else ite(z3.ULT(A, B), 0, r, w), 0)); return
        raise Unsupported('intrinsic ' + name)

def demangle(n):
    # enough of v0 for messages
    parts = re.findall(r'\d+([A-Za-z_]\w*)', n)
    out = []
    i = 0
    for m in re.finditer(r'(\d+)_?', n):
        k = int(m.group(1)); s = n[m.end():m.end()+k]
        if re.fullmatch(r'[A-Za-z_]\w*', s) and 0 < k < 60 and len(s) == k: out.append(s)
    return '::'.join(out[-3:]) if n.startswith('_R') and out else n
