"""Symbolic execution of inline assembly blocks, common to all ISAs.

Register allocation is symbolic: each operand is a cell; a non-early-clobber output may share its
register with a plain input, equal inputs may share, and registers named in the text but not declared
may coincide with any operand of a suitable class.  Sharing is an unconstrained solver boolean, so the
functional and contract checks hold for every legal allocation.
"""
import re, z3
from .symex import *
from .symex import STATS, TIMEOUT_MS

class Con:
    __slots__ = ('kind', 'early', 'code', 'fixed', 'tie')
    def __init__(self):
        self.kind = None; self.early = False; self.code = None; self.fixed = None; self.tie = None

def parse_constraints(s):
    parts = []; cur = ''; d = 0
    for c in s:
        if c == '{': d += 1
        if c == '}': d -= 1
        if c == ',' and d == 0: parts.append(cur); cur = ''
        else: cur += c
    if cur: parts.append(cur)
    ops = []; clob = []
    for p in parts:
        if p.startswith('~{'): clob.append(p[2:-1]); continue
        if p.startswith('!'): raise Unsupported('asm goto')
        c = Con()
        q = p
        if q.startswith('='): c.kind = 'out'; q = q[1:]
        elif q.startswith('+'): raise Unsupported('+ constraint')
        else: c.kind = 'in'
        if q.startswith('&'): c.early = True; q = q[1:]
        if q.startswith('*'): raise Unsupported('indirect constraint')
        m = re.fullmatch(r'\{(.*)\}', q)
        if m: c.fixed = m.group(1).lower()
        elif q.isdigit(): c.tie = int(q)
        else: c.code = q
        ops.append(c)
    return ops, clob

OPTOK = re.compile(r'\$\$|\$\{(\d+)(?::(\w))?\}|\$(\d+)|\$\{:(uid|private|comment)\}|\$\((.*?)\$\|(.*?)\$\)', re.S)
def expand_template(t):
    def sub(m):
        if m.group(0) == '$$': return '$'
        if m.group(4): return '' if m.group(4) != 'uid' else '_uid'
        n = m.group(1) or m.group(3)
        if n is None: raise Unsupported('asm alternatives')
        return '\x01%s:%s\x01' % (n, m.group(2) or '')
    return OPTOK.sub(sub, t)

class Cell:
    __slots__ = ('key', 'w', 'val', 'init', 'has_in', 'out', 'early', 'fixed', 'cls', 'ops', 'declared', 'vec', 'clob')
    def __init__(self, key, w):
        self.key = key; self.w = w; self.val = None; self.init = None; self.has_in = False; self.out = False; self.early = False
        self.fixed = None; self.cls = None; self.ops = []; self.declared = True; self.vec = False; self.clob = False
    def copy(self):
        c = Cell(self.key, self.w)
        for a in self.__slots__: setattr(c, a, getattr(self, a))
        return c

class Machine:
    """state inside one asm block"""
    def __init__(self, st, isa):
        self.st = st; self.isa = isa; self.cells = []; self.opcell = {}; self.phys = {}; self.alias = {}
        self.flags = {}; self.flags0 = {}; self.retries = 0; self.touched = set(); self.memacc = False; self.fence = False
        self.clob = set(); self.x = {}; self.opw = {}; self.aliasmap = {}; self.ended = False; self.nostack = True
    def fork(self):
        m = Machine(self.st.fork(), self.isa)
        m.cells = [c.copy() for c in self.cells]; m.opcell = self.opcell; m.phys = dict(self.phys); m.alias = self.alias
        m.flags = dict(self.flags); m.flags0 = dict(self.flags0); m.retries = self.retries; m.touched = set(self.touched); m.memacc = self.memacc; m.fence = self.fence
        m.clob = self.clob; m.x = {k: (dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v) for k, v in self.x.items()}
        m.opw = self.opw; m.aliasmap = self.aliasmap; m.ended = self.ended; m.nostack = self.nostack
        return m
    def split(self, c):
        """[(machine, bool)]"""
        if isinstance(c, bool): return [(self, c)]
        c = z3.simplify(c)
        if z3.is_true(c): return [(self, True)]
        if z3.is_false(c): return [(self, False)]
        n = z3.Not(c); t = self.st.feasible(c); f = self.st.feasible(n)
        if t is not None and f is not None:
            o = self.fork(); self.st.pc.append(c); o.st.pc.append(n)
            self.st.model = (t, len(self.st.pc)); o.st.model = (f, len(o.st.pc))
            return [(self, True), (o, False)]
        return [(self, True)] if t is not None else [(self, False)]
    # registers
    def cell_of_phys(self, key):
        if key in self.phys: return self.phys[key]
        # undeclared register named in the text
        isa = self.isa
        w = isa.width(key)
        c = Cell(key, w); c.fixed = key; c.declared = False
        spv = isa.special_init(self, key)
        c.val = spv if spv is not None else fresh('reg_' + key, w)
        c.vec = isa.is_vec(key)
        i = len(self.cells); self.cells.append(c); self.phys[key] = i
        if key not in isa.unallocatable:
            amo = []
            for j, d in enumerate(self.cells[:-1]):
                if d.fixed is None and d.cls and key in d.cls and d.w == w:
                    b = freshb('alloc_%s_%d' % (key, j)); amo.append(b)
                    self.alias.setdefault(i, []).append((j, b)); self.alias.setdefault(j, []).append((i, b))
                    self.aliasmap[(i, j)] = b
                    # if the operand lives in this register its current value is the register's value
                    self.st.pc.append(z3.Implies(b, bv(c.val, w) == bv(d.init if d.has_in else d.val, w)))
                    # an operand already written through its own name: propagate
                    c.val = ite(b, d.val, c.val, w)
            for a in range(len(amo)):
                for b2 in range(a): self.st.pc.append(z3.Not(z3.And(amo[a], amo[b2])))
        if c.clob: pass
        c.init = c.val if c.init is None else c.init
        return i
    def read_cell(self, i):
        return self.cells[i].val
    def write_cell(self, i, v):
        c = self.cells[i]
        c.val = v
        self.touched.add(i)
        for j, b in self.alias.get(i, []):
            d = self.cells[j]
            if d.w == c.w: d.val = ite(b, v, d.val, d.w)
    # memory
    def access(self, addr, n, kind, wfn=None, **x):
        """kind R | W | RMW.  wfn(old)->new value (or None for R). Returns the value read."""
        st = self.st; ex = st.ex
        self.memacc = True
        nm, off = st.resolve(addr, n, 'asm')
        if nm is None:
            st.violate('mem', 'asm accesses %d bytes outside the location and its operands (offset %s)' % (n, z3.simplify(bv(addr, ex.ptrw) - ex.locbase) if ex.loc and not is_int(addr) else addr))
            st.status = 'ub'; st.info = 'asm access'; self.ended = True
            return 0
        if nm == ex.loc:
            pre = None
            if interfering(st):
                havoc(st); pre = dict(st.mem[nm].chunks)
            r, u = st.mem[nm].read(off, n, ex.be)
            if ex.undef: r = self.held(nm, off, n, r, u)
            w = None
            if kind in ('W', 'RMW'):
                w = wfn(r)
                self.put(nm, off, n, w)
            if pre is not None: x['_pre'] = pre
            st.trace.append(Event(kind, off, n, r if kind != 'W' else None, w, **x))
            self.isa.on_shared_access(self, off, n, kind, x)
            return r
        o = st.mem[nm]
        if x.get('full'): st.trace.append(Event('F', full=True))
        if kind in ('W', 'RMW') and o.const:
            st.violate('mem', 'asm writes to constant memory'); self.ended = True; st.status = 'ub'; return 0
        v, u = o.read(off, n, ex.be)
        if not (is_int(u) and u == 0): v = self.held(nm, off, n, v, u)
        if kind in ('W', 'RMW'):
            w = wfn(v)
            self.put(nm, off, n, w)
        if o.kind == 'stack': self.x['stackacc'] = True
        st.notes.append((kind, nm, off, n))
        return v
    def put(self, nm, off, n, w):
        st = self.st; u = st.ex.frzmark(st, taint(st.ex, w, n * 8))
        st.obj(nm).write(off, n, w, u, st.ex.be)
        if is_int(u) and u == 0: return
        seen = self.x.setdefault('held', {})
        for k in self.bytekeys(nm, off, n, w, u): seen[k[:4]] = (k[4], k[4], k[5])
    def bytekeys(self, nm, off, n, v, u):
        be = self.st.ex.be; keys = []
        for i in range(n):
            k = 8 * (n - 1 - i if be else i); a, b = ext(v, k + 7, k, 8 * n), ext(u, k + 7, k, 8 * n)
            keys.append((nm, off + i, a if is_int(a) else ('x', a.get_id()), b if is_int(b) else ('x', b.get_id()), a, b, k))
        return keys
    def held(self, nm, off, n, v, u):
        """what the memory holds: uninitialised bits are arbitrary, but the same on every read within the block"""
        if is_int(u) and u == 0: return v
        seen = self.x.setdefault('held', {}); keys = self.bytekeys(nm, off, n, v, u)
        if all(k[:4] in seen for k in keys):
            return cat([(seen[k[:4]][0], 8) for k in sorted(keys, key=lambda k: -k[6])])
        x = tainted(self.st.ex, self.st, v, u, 8 * n)
        for k in keys: seen[k[:4]] = (ext(x, k[6] + 7, k[6], 8 * n), k[4], k[5])
        return x
    def ll(self, addr, n, **x):
        r = self.access(addr, n, 'R', ll=True, **x)
        st = self.st
        if self.ended: return r
        nm, off = st.resolve(addr, n, 'asm')
        st.excl = (nm, off, n, r, len(st.trace) - 1)
        return r
    def ll_pair(self, addr, n, **x):
        """load-exclusive of two adjacent registers: two accesses, which only a successful store-exclusive makes one"""
        be = self.st.ex.be
        a = self.access(addr, n, 'R', ll=True, **x)
        if self.ended: return None
        i = len(self.st.trace) - 1
        b = self.access(binop('add', addr, n, self.st.ex.ptrw), n, 'R', ll=True, **x)
        if self.ended: return None
        st = self.st
        nm, off = st.resolve(addr, 2 * n, 'asm')
        st.excl = (nm, off, 2 * n, cat([(a, 8*n), (b, 8*n)]) if be else cat([(b, 8*n), (a, 8*n)]), i)
        return a, b
    def sc(self, addr, n, val, **x):
        """[(machine, success)]"""
        st = self.st; ex = st.ex
        self.memacc = True
        nm, off = st.resolve(addr, n, 'asm')
        if nm != ex.loc:
            st.violate('mem', 'store-conditional outside the location'); st.status = 'ub'; self.ended = True
            return [(self, True)]
        ok = st.excl is not None and st.excl[0] == nm and st.excl[1] == off and st.excl[2] == n
        out = []
        if not ok or interfering(st) or ex.spurious:
            m = self.fork() if ok else self
            if interfering(m.st): havoc(m.st)
            m.st.excl = None
            m.st.trace.append(Event('SCFAIL', off, n, **x))
            if not ok: m.st.counts['sc_without_ll'] = 1
            out.append((m, False))
        if ok:
            r = st.excl[3]
            if interfering(st):
                havoc(st)
                st.obj(nm).write(off, n, r, 0, ex.be)      # reservation intact: those bytes are as read
            self.put(nm, off, n, val)
            st.trace.append(Event('RMW', off, n, r, val, sc=True, lli=st.excl[4], **x))
            self.isa.on_shared_access(self, off, n, 'RMW', x)
            st.excl = None
            out.append((self, True))
        return out
    def fence_event(self, **x):
        self.fence = True
        self.st.trace.append(Event('F', **x))

def tainted(ex, st, v, u, w):
    """the machine value of a partly uninitialised value: arbitrary but fixed bits, remembered as tainted"""
    if is_int(u) and u == 0: return v
    if not ex.undef: return ex.freeze(v, u, w)
    # the name says what is tainted: sibling paths may use the same counter for different values
    k = u if is_int(u) else u.get_id()
    if k not in ex.tvnames: ex.tvnames[k] = (len(ex.tvnames), u)
    x = fresh('tv%d' % ex.tvnames[k][0], w)
    st.pc.append((x ^ bv(v, w)) & ~bv(u, w) == 0)
    ex.taintmap[x.decl().name()] = u
    return x

def taint(ex, e, w):
    """mask of the bits of a machine value that come from uninitialised bits.  Data flow first; where xor may cancel
    a tainted variable, the solver decides byte by byte whether the value depends on its uninitialised bits."""
    if not ex.undef or is_int(e): return 0
    t = dataflow(ex, e, w, ex.taintmap)
    if is_int(t) or w % 8: return t
    vs = {}; xor = False; todo = [e]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); ch = x.children()
        if not ch:
            n = x.decl().name()
            if n in ex.taintmap: vs[n] = x
        elif x.decl().kind() in (z3.Z3_OP_BXOR, z3.Z3_OP_BADD, z3.Z3_OP_BSUB): xor = True
        todo += ch
    if not xor or len(vs) < 2: return t
    parts = []
    for i in reversed(range(0, w, 8)):
        b = z3.simplify(z3.Extract(i + 7, i, e)); tm = dict(ex.taintmap)
        if z3.is_bv_value(b): parts.append((0, 8)); continue
        for n, x in vs.items():
            if is_int(ex.taintmap[n]) and ex.taintmap[n] == 0: continue
            y = z3.BitVec(n + "'", x.size()); u = bv(ex.taintmap[n], x.size())
            s = z3.Solver(); s.set('timeout', TIMEOUT_MS); STATS.queries += 1
            s.add((x ^ y) & ~u == 0, b != z3.substitute(b, (x, y)))
            r = s.check()
            if r == z3.unknown: raise Unsupported('solver returned unknown')
            if r == z3.unsat: tm[n] = 0
        parts.append((dataflow(ex, b, 8, tm), 8))
    return cat(parts)

def dataflow(ex, e, w, taintmap):
    if is_int(e): return 0
    memo = {}
    def t(e):
        k = e.get_id()
        if k in memo: return memo[k]
        w = e.size(); d = e.decl().kind(); ch = e.children()
        if not ch: r = taintmap.get(e.decl().name(), 0)
        elif d == z3.Z3_OP_EXTRACT:
            hi, lo = e.params(); r = ext(t(ch[0]), hi, lo, ch[0].size())
        elif d == z3.Z3_OP_CONCAT: r = cat([(t(c), c.size()) for c in ch])
        elif d == z3.Z3_OP_ITE: 
            a, b = t(ch[1]), t(ch[2]); r = a if (is_int(a) and is_int(b) and a == b) else ite(ch[0], a, b, w)
        elif d in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BNOT):
            r = 0
            for c in ch: r = binop('or', r, t(c), w)
            if d in (z3.Z3_OP_BAND, z3.Z3_OP_BOR):
                for c in ch:     # a known 0 (and) / 1 (or) fixes the bit
                    tc = t(c); known = binop('xor', tc, mask(w), w)
                    cv = c if d == z3.Z3_OP_BOR else ~c
                    r = binop('and', r, binop('xor', binop('and', known, z3.simplify(cv), w), mask(w), w), w)
        elif d in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
            nm = 'add' if d == z3.Z3_OP_BADD else 'sub'; r, acc = t(ch[0]), norm(ch[0])
            for c in ch[1:]:
                tc = t(c)
                if not (is_int(r) and r == 0 and is_int(tc) and tc == 0): r = addtaint(nm, acc, r, norm(c), tc, w)
                acc = binop(nm, acc, norm(c), w)
        elif d == z3.Z3_OP_ZERO_EXT: r = zext(t(ch[0]), ch[0].size(), w)
        elif d == z3.Z3_OP_SIGN_EXT: r = sext(t(ch[0]), ch[0].size(), w)
        elif d in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR):
            op = {z3.Z3_OP_BSHL: 'shl', z3.Z3_OP_BLSHR: 'lshr', z3.Z3_OP_BASHR: 'ashr'}[d]
            r = 0 if is_int(t(ch[0])) and t(ch[0]) == 0 else binop(op, t(ch[0]), ch[1], w)
            tk = t(ch[1])
            if not (is_int(tk) and tk == 0): r = ite(eq(tk, 0, ch[1].size()), r, mask(w), w)
        else:
            cond = False
            for c in ch:
                if z3.is_bv(c): cond = OR(cond, NOT(eq(t(c), 0, c.size())))
            r = ite(cond, mask(w), 0, w)
        memo[k] = r
        return r
    return t(e)

def irq_off(m):
    """interrupts are disabled from here on"""
    st = m.st
    if st.irq == 'off': return
    if interfering(st): havoc(st)
    st.irq = 'off'; st.counts['crit'] = st.counts.get('crit', 0) + 1; m.fence = True
IE = z3.Bool('interrupts_enabled')
def irq_restore(m, bit):
    """the interrupt enable bit is set to the given value; it was IE when the operation began"""
    st = m.st; m.fence = True
    b = z3.simplify(zb(eq(bit, 1, 1)))
    if z3.is_false(b): return irq_off(m)
    if not z3.eq(b, IE): st.violate('contract', 'the interrupt enable flag is not restored', z3.Xor(b, IE))
    st.irq = None
def irq_bit(m): return 0 if m.st.irq == 'off' else z3.If(IE, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

def interfering(st):
    ex = st.ex
    if not ex.interf or st.irq == 'off': return False
    if ex.quiesce and (st.counts.get('retry', 0) >= 1 or len(st.cbs) >= 2): return False
    return True

def havoc(st):
    ex = st.ex
    o = st.obj(ex.loc)
    ex.havocs = getattr(ex, 'havocs', 0) + 1
    for s in list(o.chunks):
        n, v, u = o.chunks[s]
        o.chunks[s] = (n, fresh('env%d' % s, n * 8), u)

_tcache = {}
def program(isa, tmpl):
    k = (isa.key, tmpl)
    if k not in _tcache:
        items = []
        for line in re.split(r'[\n]', expand_template(tmpl)):
            line = isa.strip_comment(line)
            for part in line.split(isa.sep) if isa.sep else [line]:
                s = part.strip()
                while True:
                    m = re.match(r'^([\w.$]+):\s*', s)
                    if not m: break
                    items.append(('label', m.group(1))); s = s[m.end():]
                if not s: continue
                if s.startswith('.') and not isa.is_insn(s):
                    items.append(('dir', s)); continue
                items.append(('insn', isa.parse(s)))
        _tcache[k] = items
    return _tcache[k]

def find_label(items, pc, lab):
    m = re.fullmatch(r'(\d+)([bf])', lab)
    if m:
        rng = range(pc, -1, -1) if m.group(2) == 'b' else range(pc, len(items))
        for i in rng:
            if items[i] == ('label', m.group(1)): return i
    else:
        for i, it in enumerate(items):
            if it == ('label', lab): return i
    raise Unsupported('label %s' % lab)

def run(ex, st, ins, args):
    isa = ex.isa
    opts, tmpl, cons = ins.x['asm']
    ops, clob = parse_constraints(cons)
    L = ex.layout
    outs = [o for o in ops if o.kind == 'out']
    items = program(isa, tmpl)
    m = Machine(st, isa)
    m.clob = set(clob); m.nostack = 'alignstack' not in opts
    rt = ins.ty
    if rt == ('void',): otypes = []
    elif rt[0] == 'struct' and len(outs) != 1: otypes = list(rt[1])
    elif rt[0] == 'struct': otypes = list(rt[1])
    else: otypes = [rt]
    assert len(otypes) == len(outs), cons
    ai = 0
    # cells
    def newcell(con, t, idx):
        w, vec = isa.cellwidth(con, L, t)
        c = Cell('op%d' % idx, w); c.vec = vec
        if con.fixed is not None:
            r = isa.reg(con.fixed)
            if r is None: raise Unsupported('register %s' % con.fixed)
            c.fixed = r[0]; c.key = r[0]
        else:
            c.cls = isa.regclass(con.code, t, L)
        return c
    optype = {}
    for i, o in enumerate(ops):
        if o.kind == 'out':
            t = otypes[i]; optype[i] = t
            c = newcell(o, t, i)
            if c.fixed is not None and c.fixed in m.phys: raise Unsupported('duplicate output register')
            c.out = True; c.early = o.early
            k = len(m.cells); m.cells.append(c); m.opcell[i] = k
            c.ops.append(i)
            if c.fixed is not None: m.phys[c.fixed] = k
        else:
            t, v = args[ai]; ai += 1; optype[i] = t
            if isinstance(v, list): raise Unsupported('aggregate asm operand')
            w = L.bits(t)
            val = v[0] if is_int(v[1]) and v[1] == 0 else tainted(ex, st, v[0], v[1], w)
            if o.tie is not None:
                k = m.opcell[o.tie]; c = m.cells[k]
            else:
                c = newcell(o, t, i)
                if c.fixed is not None and c.fixed in m.phys:
                    k = m.phys[c.fixed]
                    c2 = m.cells[k]
                    if not c2.out or c2.early: raise Unsupported('register declared twice')
                    c = c2
                else:
                    k = len(m.cells); m.cells.append(c)
                    if c.fixed is not None: m.phys[c.fixed] = k
            m.opcell[i] = k; c.ops.append(i)
            if c.has_in: raise Unsupported('two inputs in one register')
            c.has_in = True
            c.val = isa.widen(val, w, c, t)
            c.init = c.val
    m.opw = optype
    # clobbered physical registers
    for cl in clob:
        r = isa.reg(cl)
        if r is not None and r[0] not in m.phys:
            c = Cell(r[0], isa.width(r[0])); c.fixed = r[0]; c.out = True; c.early = True; c.clob = True; c.vec = isa.is_vec(r[0])
            c.val = c.init = fresh('clb_' + r[0], c.w)
            m.phys[r[0]] = len(m.cells); m.cells.append(c)
    for c in m.cells:
        if c.val is None: c.val = fresh('junk_' + c.key, c.w); c.init = c.val
    # sharing of registers
    n = len(m.cells)
    amo = {}
    for i in range(n):
        A = m.cells[i]
        if not A.out or A.early: continue
        for j in range(n):
            B = m.cells[j]
            if i == j or not B.has_in or B.out: continue
            if A.w != B.w or A.vec != B.vec: continue
            ca = {A.fixed} if A.fixed else A.cls
            cb = {B.fixed} if B.fixed else B.cls
            if not ca or not cb or not (ca & cb): continue
            b = freshb('share_%d_%d' % (i, j))
            if A.has_in:
                st.pc.append(z3.Implies(b, bv(A.val, A.w) == bv(B.val, B.w)))
            else:
                A.val = ite(b, B.val, A.val, A.w)
            m.alias.setdefault(i, []).append((j, b)); m.alias.setdefault(j, []).append((i, b))
            m.aliasmap[(i, j)] = b
            amo.setdefault(('o', i), []).append(b); amo.setdefault(('i', j), []).append(b)
    for bs in amo.values():
        for a in range(len(bs)):
            for b2 in range(a): st.pc.append(z3.Not(z3.And(bs[a], bs[b2])))
    # contract-level checks on the options happen at the end
    isa.begin(m, ins)
    m.flags0 = dict(m.flags)
    st.asmlog.append((ins, tuple(opts), tmpl, cons))
    tr0 = len(st.trace)
    from . import symex
    nf = symex._fresh
    m.st.nf = nf[0]; top = nf[0]
    work = [(m, 0)]
    fin = []; delay = getattr(isa, 'delay', False)
    while work:
        m, pc = work.pop(); nf[0] = m.st.nf
        steps = 0
        while not m.ended:
            if pc >= len(items): break
            steps += 1
            if steps > 400: raise Unsupported('asm step bound: %s' % tmpl)
            kind, it = items[pc]
            if kind in ('label', 'dir'):
                if kind == 'dir': isa.directive(m, it)
                pc += 1; continue
            STATS.asm_instrs += 1
            if ex.record_asm is not None: ex.record_asm(it, m)
            r = isa.exec(m, it)
            if r is None: pc += 1; continue
            nxt = []
            for m2, lab in r: m2.st.nf = nf[0]
            top = max(top, nf[0])
            if delay and any(lab is not None for _, lab in r):
                # the instruction after the branch is executed first, on both ways
                k = next((k for k in range(pc + 1, len(items)) if items[k][0] == 'insn'), None)
                for m2, lab in r:
                    if m2.ended: continue
                    if k is None: m2.st.violate('contract', 'the delay slot of the last branch is not part of the asm block "%s"' % tmpl[:80]); continue
                    nf[0] = m2.st.nf
                    if isa.exec(m2, items[k][1]) is not None: raise Unsupported('branch or split in a delay slot')
                    m2.st.nf = nf[0]
                r = [(m2, ('PC', k + 1) if lab is None and k is not None else lab) for m2, lab in r]
                top = max(top, nf[0])
            for m2, lab in r:
                if m2.ended: fin.append(m2); continue
                if lab is None: nxt.append((m2, pc + 1)); continue
                if lab == 'SKIP': nxt.append((m2, pc + 2)); continue
                if isinstance(lab, tuple) and lab[0] == 'PC': nxt.append((m2, lab[1])); continue
                tgt = find_label(items, pc, lab)
                if tgt <= pc:
                    m2.retries += 1
                    m2.st.counts['retry'] = m2.st.counts.get('retry', 0) + 1
                    if m2.st.counts['retry'] > ex.max_retry:
                        m2.st.status = 'cut'; m2.st.info = 'retry bound'; fin.append(m2); continue
                nxt.append((m2, tgt))
            if not nxt: m = None; break
            m, pc = nxt[0]; work.extend(nxt[1:])
        top = max(top, nf[0])
        if m is not None: fin.append(m)
    nf[0] = top
    res = []
    for m in fin:
        s = m.st
        if s.status == 'run':
            finish(ex, m, ins, opts, clob, tmpl)
            vals = []
            for i, o in enumerate(outs):
                c = m.cells[m.opcell[i]]
                w = L.bits(otypes[i])
                v = isa.narrow(c.val, c, w, otypes[i])
                vals.append((v, 0 if isa.pure_values and not m.memacc else ex.frzmark(s, taint(ex, v, w))))
            if rt == ('void',): v = None
            elif rt[0] == 'struct': v = vals
            else: v = vals[0]
            res.append((s, v))
        else:
            res.append((s, None))
    return res

def finish(ex, m, ins, opts, clob, tmpl):
    """the block's contract with the compiler"""
    st = m.st; isa = m.isa
    short = ' ; '.join(x.strip() for x in tmpl.split('\n'))[:120]
    for i, c in enumerate(m.cells):
        if i not in m.touched and not m.alias.get(i): continue
        if c.out: continue
        # plain inputs and undeclared registers must be preserved, unless shared with an output
        excuse = []
        for j, b in m.alias.get(i, []):
            if m.cells[j].out: excuse.append(b)
        if c.val is c.init: continue
        same = eq(c.val, c.init, c.w)
        if same is True: continue
        who = 'input operand %s' % (c.ops,) if c.ops else 'undeclared register %s' % c.key
        if not isa.may_clobber(m, c):
            st.violate('contract', 'asm block "%s" changes %s' % (short, who), AND(NOT(same), *[z3.Not(b) for b in excuse]))
    allowed = isa.flag_clobbers(clob)
    for f, v in m.flags.items():
        if f in allowed: continue
        v0 = m.flags0.get(f)
        if v is v0: continue
        if v0 is None or v is None: same = False
        elif isinstance(v, bool) or isinstance(v0, bool): same = z3.simplify(zb(v) == zb(v0)); same = True if z3.is_true(same) else same
        elif z3.is_bool(v) or (not is_int(v) and z3.is_bool(v)): same = z3.simplify(v == v0); same = True if z3.is_true(same) else same
        else: same = eq(v, v0, isa.flagwidth(f))
        if same is not True:
            st.violate('contract', 'asm block "%s" changes %s, which it does not declare' % (short, f), NOT(same) if same is not False else True)
    if m.memacc or m.fence:
        if 'sideeffect' not in opts: st.violate('opaque', 'asm block "%s" accesses memory but has no side effect for the optimiser (pure)' % short)
        if 'memory' not in clob: st.violate('opaque', 'asm block "%s" accesses memory without a memory clobber' % short)
    isa.end(m, ins, short)
