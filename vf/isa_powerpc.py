"""PowerPC (32- and 64-bit) semantics for the inline assembly blocks.

isync orders only what a branch depending on the loaded value has decided, so registers carry the set of loads they
depend on (by name, as the architecture defines dependencies), and a branch adds the set of its condition."""
import re, z3
from .symex import *
from .isa_base import Base, OPERAND

SZ = {'b': 1, 'h': 2, 'w': 4, 'd': 8, 'q': 16}
BITS = {'and': ('and', 0), 'or': ('or', 0), 'xor': ('xor', 0), 'andc': ('and', 1), 'orc': ('or', 1), 'eqv': ('xor', 1)}

class PPC(Base):
    comments = ('#', '//')
    names = dict([('%%r%d' % i, 'r%d' % i) for i in range(32)] + [('r%d' % i, 'r%d' % i) for i in range(32)])
    unallocatable = {'r1', 'r2', 'r13', 'r29', 'r30', 'r31'}
    flagnames = ('cr0', 'crx')
    flagw = {'cr0': 4, 'crx': 28}
    clobflags = {'cr0': ('cr0',)}
    def __init__(self, cfg, L):
        super().__init__(cfg, L)
        self.bits = 64 if cfg.target.startswith('powerpc64') else 32
        self.key = 'powerpc%d%s' % (self.bits, 'be' if self.be else '')
    def regclass(self, code, t, L):
        if code not in ('r', 'b'): raise Unsupported('constraint %s' % code)
        return {'r%d' % i for i in range(0 if code == 'r' else 1, 32)} - self.unallocatable
    def cellwidth(self, con, L, t):
        return self.bits, False
    # ---- dependencies
    def rd(self, m, s, w=None):
        c = self.cell(m, s)
        m.x['cur'] = m.x.get('cur', frozenset()) | m.x.get('dep', {}).get(c, frozenset())
        return super().rd(m, s, w)
    def wr(self, m, s, v):
        m.x.setdefault('dep', {})[self.cell(m, s)] = m.x.get('cur', frozenset())
        super().wr(m, s, v)
    def exec(self, m, i):
        m.x['cur'] = frozenset()
        return super().exec(m, i)
    def setcr(self, m, v):
        m.flags['cr0'] = v; m.x['crdep'] = m.x.get('cur', frozenset())
    # ---- moves and arithmetic
    def i_mr(self, m, i, o): self.wr(m, o[0], self.rd(m, o[1]))
    def i_li(self, m, i, o): self.wr(m, o[0], self.imm(o[1]) & mask(self.bits))
    def i_not(self, m, i, o): self.wr(m, o[0], binop('xor', self.rd(m, o[1]), mask(self.bits), self.bits))
    def i_neg(self, m, i, o): self.wr(m, o[0], binop('sub', 0, self.rd(m, o[1]), self.bits))
    def i_add(self, m, i, o): self.wr(m, o[0], binop('add', self.rd(m, o[1]), self.rd(m, o[2]), self.bits))
    def i_sub(self, m, i, o): self.wr(m, o[0], binop('sub', self.rd(m, o[1]), self.rd(m, o[2]), self.bits))
    def i_subf(self, m, i, o): self.wr(m, o[0], binop('sub', self.rd(m, o[2]), self.rd(m, o[1]), self.bits))
    def shift(self, op, w):
        def f(m, i, o):
            n = ext(self.src(m, o[2]), 6 if w == 64 else 5, 0, self.bits); nw = 7 if w == 64 else 6
            a = self.rd(m, o[1], w)
            r = ite(zb(eq(ext(n, nw - 1, nw - 1, nw), 1, 1)), 0, binop(op, a, zext(n, nw, w), w), w)
            self.wr(m, o[0], zext(r, w, self.bits))
        return f
    def cr_of(self, m, a, b, w, signed):
        A, B = bv(a, w), bv(b, w)
        lt = (A < B) if signed else z3.ULT(A, B); gt = (A > B) if signed else z3.UGT(A, B)
        bit = lambda c: ite(zb(c), 1, 0, 1)
        return cat([(bit(z3.simplify(lt)), 1), (bit(z3.simplify(gt)), 1), (bit(eq(a, b, w)), 1), (fresh('so', 1), 1)])
    def cmp(self, w, signed):
        def f(m, i, o):
            if len(o) == 3:
                if o[0].strip().lstrip('%') not in ('cr0', '0'): raise Unsupported(i.text)
                o = o[1:]
            if self.isimm(o[1]): b = self.imm(o[1]) & mask(w)
            else: b = self.rd(m, o[1], w)
            self.setcr(m, self.cr_of(m, self.rd(m, o[0], w), b, w, signed))
        return f
    def i_mfcr(self, m, i, o):
        m.x['cur'] = m.x.get('crdep', frozenset())
        self.wr(m, o[0], zext(cat([(m.flags['cr0'], 4), (m.flags['crx'], 28)]), 32, self.bits))
    # ---- control
    def i_b(self, m, i, o): return [(m, o[0])]
    def cond(self, bit, want):
        def f(m, i, o):
            if len(o) == 2:
                if o[0].strip().lstrip('%') not in ('cr0', '0'): raise Unsupported(i.text)
                o = o[1:]
            m.x['ctl'] = m.x.get('ctl', frozenset()) | m.x.get('crdep', frozenset())
            return self.branch(m, eq(ext(m.flags['cr0'], bit, bit, 4), want, 1), o[0])
        return f
    # ---- fences
    def i_sync(self, m, i, o):
        if o and self.imm(o[0]) not in (0, 1): raise Unsupported(i.text)
        if o and self.imm(o[0]) == 1: m.fence_event(lwsync=1)
        else: m.fence_event(full=1)
    i_hwsync = i_sync
    def i_lwsync(self, m, i, o): m.fence_event(lwsync=1)
    def i_isync(self, m, i, o): m.fence_event(ctli=1, _dep=m.x.get('ctl', frozenset()))
    # ---- memory
    def addr(self, m, s):
        M = re.fullmatch(r'(-?\w*)\(\s*(.+?)\s*\)', s.strip())
        if not M: raise Unsupported('address %r' % s.replace('\x01', '%'))
        return self.ea(m, M.group(2), int(M.group(1) or '0', 0))
    def ea(self, m, base, k):
        c = self.cell(m, base); r = m.cells[c]
        zero = r.fixed == 'r0' or (r.fixed is None and 'r0' in (r.cls or ()))
        if zero: raise Unsupported('base register may be r0')      # reads as zero there
        a = super().rd(m, base)
        if k: a = binop('add', a, k & mask(self.bits), self.bits)
        return self.toptr(m, a, self.bits)
    def xaddr(self, m, a, b):
        """indexed form: the first register reads as zero when written 0, the second is always a register"""
        if self.isimm(a):
            if self.imm(a) != 0: raise Unsupported('indexed address')
            return self.toptr(m, super().rd(m, b), self.bits)
        raise Unsupported('indexed address')
    def pair(self, m, s):
        r = self.reg(s.strip())
        if r is None or int(r[0][1:]) % 2: raise Unsupported('register pair %s' % s)
        return s.strip(), '%%r%d' % (int(r[0][1:]) + 1)
    def put(self, m, s, v, n, dep):
        m.x['cur'] = dep
        if n == 16:
            h, l = self.pair(m, s); self.wr(m, h, ext(v, 127, 64, 128)); self.wr(m, l, ext(v, 63, 0, 128))
        else: self.wr(m, s, zext(v, 8 * n, self.bits))
    def get(self, m, s, n):
        if n == 16:
            h, l = self.pair(m, s); return cat([(self.rd(m, h), 64), (self.rd(m, l), 64)])
        return self.rd(m, s, 8 * n)
    def load(self, m, i, o, n, indexed=False):
        k = len(m.st.trace)
        r = m.access(self.xaddr(m, o[1], o[2]) if indexed else self.addr(m, o[1]), n, 'R')
        if not m.ended: self.put(m, o[0], r, n, frozenset([len(m.st.trace) - 1]) if len(m.st.trace) > k else frozenset())
    def store(self, m, i, o, n, indexed=False):
        v = self.get(m, o[0], n); m.access(self.xaddr(m, o[1], o[2]) if indexed else self.addr(m, o[1]), n, 'W', lambda _: v)
    def ll(self, m, i, o, n):
        if len(o) == 4: raise Unsupported(i.text)
        k = len(m.st.trace)
        r = m.ll(self.xaddr(m, o[1], o[2]), n)
        if not m.ended: self.put(m, o[0], r, n, frozenset([len(m.st.trace) - 1]) if len(m.st.trace) > k else frozenset())
    def sc(self, m, i, o, n):
        v = self.get(m, o[0], n); out = []
        for m2, ok in m.sc(self.xaddr(m, o[1], o[2]), n, v):
            if not m2.ended:
                m2.x['cur'] = frozenset([len(m2.st.trace) - 1])
                self.setcr(m2, cat([(0, 2), (1 if ok else 0, 1), (fresh('so', 1), 1)]))
            out.append((m2, None))
        return out
    def lookup(self, i):
        mn = i.mn; W = self.bits
        base = mn.rstrip('.')
        if base in BITS and mn in (base, base + '.'):
            op, inv = BITS[base]
            def f(m, i, o):
                b = self.rd(m, o[2])
                if inv: b = binop('xor', b, mask(W), W)
                r = binop(op, self.rd(m, o[1]), b, W); self.wr(m, o[0], r)
                if mn != base: self.setcr(m, self.cr_of(m, r, 0, W, True))
            return f
        if mn in ('slw', 'slwi'): return self.shift('shl', 32)
        if mn in ('srw', 'srwi'): return self.shift('lshr', 32)
        if W == 64 and mn in ('sld', 'sldi'): return self.shift('shl', 64)
        if W == 64 and mn in ('srd', 'srdi'): return self.shift('lshr', 64)
        M = re.fullmatch(r'cmp(l?)([wd])(i?)', mn)
        if M and not (M.group(2) == 'd' and W == 32): return self.cmp(64 if M.group(2) == 'd' else 32, not M.group(1))
        M = re.fullmatch(r'b(eq|ne|lt|ge|gt|le)[+-]?', mn)
        if M: return self.cond(*{'eq': (1, 1), 'ne': (1, 0), 'lt': (3, 1), 'ge': (3, 0), 'gt': (2, 1), 'le': (2, 0)}[M.group(1)])
        M = re.fullmatch(r'l([bhw])z(x?)', mn) or (W == 64 and re.fullmatch(r'l([dq])(x?)', mn))
        if M: return lambda m, i, o: self.load(m, i, o, SZ[M.group(1)], bool(M.group(2)))
        M = re.fullmatch(r'l([bhwdq])arx', mn)
        if M and not (M.group(1) in 'dq' and W == 32): return lambda m, i, o: self.ll(m, i, o, SZ[M.group(1)])
        M = re.fullmatch(r'st([bhwdq])cx\.', mn)
        if M and not (M.group(1) in 'dq' and W == 32): return lambda m, i, o: self.sc(m, i, o, SZ[M.group(1)])
        M = re.fullmatch(r'st([bhwdq])(x?)', mn)
        if M and not (M.group(1) in 'dq' and W == 32): return lambda m, i, o: self.store(m, i, o, SZ[M.group(1)], bool(M.group(2)))
        return None
    def insn_feature(self, i):
        if re.fullmatch(r'l[bh]arx|st[bh]cx\.', i.mn): return 'partword-atomics'
        if re.fullmatch(r'l?q|lqarx|stq|stqcx\.', i.mn): return 'quadword-atomics'
        return ''

def make(cfg, L): return PPC(cfg, L)
