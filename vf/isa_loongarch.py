"""LoongArch (LA64, LA32) semantics for the inline assembly blocks."""
import re, z3
from .symex import *
from .isa_base import Base, OPERAND

ABI = {'zero': 0, 'ra': 1, 'tp': 2, 'sp': 3, 'fp': 22, 's9': 22}
ABI.update({'a%d' % i: 4 + i for i in range(8)}); ABI.update({'t%d' % i: 12 + i for i in range(9)}); ABI.update({'s%d' % i: 23 + i for i in range(9)})
ABI.update({'r%d' % i: i for i in range(32)})
SZ = {'b': 1, 'h': 2, 'w': 4, 'd': 8}
ALU = {'add': 'add', 'sub': 'sub', 'mul': 'mul', 'sll': 'shl', 'srl': 'lshr', 'sra': 'ashr', 'slli': 'shl', 'srli': 'lshr', 'srai': 'ashr', 'addi': 'add'}
AMO = {'swap': lambda a, b, w: b, 'add': lambda a, b, w: binop('add', a, b, w), 'and': lambda a, b, w: binop('and', a, b, w), 'or': lambda a, b, w: binop('or', a, b, w), 'xor': lambda a, b, w: binop('xor', a, b, w)}
ALL = 'rr rw wr ww '

class LA(Base):
    comments = ('#', '//')
    names = dict([(n, 'r%d' % i) for n, i in ABI.items() if i] + [('$' + n, 'r%d' % i) for n, i in ABI.items() if i])
    zero = ('$zero', '$r0', 'zero', 'r0')
    unallocatable = {'r2', 'r3', 'r21', 'r22', 'r31'}
    def __init__(self, cfg, L):
        super().__init__(cfg, L)
        self.bits = 64 if cfg.target.startswith('loongarch64') else 32
        self.key = 'loongarch%d' % self.bits
    def regclass(self, code, t, L):
        if code != 'r': raise Unsupported('constraint %s' % code)
        return {'r%d' % i for i in range(1, 32) if i not in (2, 3, 21, 22, 31)}
    def flag_clobbers(self, clob): return set()
    def addr(self, m, r, off='0'):
        a = self.rd(m, r)
        o = self.imm(off)
        if o: a = binop('add', a, o & mask(self.bits), self.bits)
        return self.toptr(m, a, self.bits)
    def put(self, m, s, v, n): self.wr(m, s, sext(v, 8 * n, self.bits))
    def i_move(self, m, i, o): self.wr(m, o[0], self.rd(m, o[1]))
    def i_li_w(self, m, i, o): self.wr(m, o[0], self.imm(o[1]) & mask(self.bits))
    i_li_d = i_li_w
    def bitop(self, f):
        def g(m, i, o): self.wr(m, o[0], f(self.rd(m, o[1]), self.src(m, o[2]), self.bits))
        return g
    def i_sltui(self, m, i, o): self.wr(m, o[0], ite(zb(z3.ULT(bv(self.rd(m, o[1]), self.bits), bv(self.src(m, o[2]), self.bits))), 1, 0, self.bits))
    i_sltu = i_sltui
    def i_maskeqz(self, m, i, o): self.wr(m, o[0], ite(zb(eq(self.rd(m, o[2]), 0, self.bits)), 0, self.rd(m, o[1]), self.bits))
    def i_masknez(self, m, i, o): self.wr(m, o[0], ite(zb(eq(self.rd(m, o[2]), 0, self.bits)), self.rd(m, o[1]), 0, self.bits))
    def i_b(self, m, i, o): return [(m, o[0])]
    def i_beqz(self, m, i, o): return self.branch(m, eq(self.rd(m, o[0]), 0, self.bits), o[1])
    def i_bnez(self, m, i, o): return self.branch(m, NOT(eq(self.rd(m, o[0]), 0, self.bits)), o[1])
    def i_beq(self, m, i, o): return self.branch(m, eq(self.rd(m, o[0]), self.rd(m, o[1]), self.bits), o[2])
    def i_bne(self, m, i, o): return self.branch(m, NOT(eq(self.rd(m, o[0]), self.rd(m, o[1]), self.bits)), o[2])
    def i_dbar(self, m, i, o):
        h = self.imm(o[0])
        if h >= 0x20: m.fence_event(hint=h); return           # 0x700: loads of the same address only
        k = ''.join(a + b + ' ' for a, bit in (('r', 8), ('w', 4)) for b, c in (('r', 2), ('w', 1)) if not h & bit and not h & c)
        m.fence_event(ord=k)
    def i_ibar(self, m, i, o): m.fence = True
    def load(self, m, i, o, n, un):
        if n * 8 > self.bits: raise Unsupported(i.text)
        r = m.access(self.addr(m, o[1], o[2]), n, 'R')
        if not m.ended: self.wr(m, o[0], (zext if un else sext)(r, 8 * n, self.bits))
    def store(self, m, i, o, n):
        v = self.rd(m, o[0], 8 * n); m.access(self.addr(m, o[1], o[2]), n, 'W', lambda _: v)
    def ll(self, m, i, o, n):
        r = m.ll(self.addr(m, o[1], o[2]), n, aq=1, rl=1, pair=1)
        if not m.ended: self.put(m, o[0], r, n)
    def sc(self, m, i, o, n):
        v = self.rd(m, o[0], 8 * n); out = []
        for m2, ok in m.sc(self.addr(m, o[1], o[2]), n, v, aq=1, rl=1):
            if not m2.ended: self.wr(m2, o[0], 1 if ok else 0)
            out.append((m2, None))
        return out
    def amo(self, m, i, o, n, fn, **x):
        # am* rd, rk, rj: rd must differ from rj (exception) and from rk (result undefined)
        if self.cell(m, o[0]) is not None:
            for k in (1, 2):
                if self.same(m, o[0], o[k]): m.st.violate('ub', 'register overlap in "%s"' % i.text)
                self.sharing(m, o[0], o[k], i.text)
        v = self.rd(m, o[1], 8 * n)
        r = m.access(self.addr(m, o[2]), n, 'RMW', lambda old: fn(old, v, 8 * n), **x)
        if not m.ended: self.put(m, o[0], r, n)
    def lookup(self, i):
        mn = i.mn; W = self.bits
        BIT = {'and': 'and', 'or': 'or', 'xor': 'xor', 'andi': 'and', 'ori': 'or', 'xori': 'xor'}
        if mn in BIT: return self.bitop(lambda a, b, w: binop(BIT[mn], a, b, w))
        if mn == 'andn': return self.bitop(lambda a, b, w: binop('and', a, binop('xor', b, mask(w), w), w))
        if mn == 'orn': return self.bitop(lambda a, b, w: binop('or', a, binop('xor', b, mask(w), w), w))
        if mn == 'nor': return self.bitop(lambda a, b, w: binop('xor', binop('or', a, b, w), mask(w), w))
        M = re.fullmatch(r'(\w+)\.([wd])', mn)
        if M and M.group(1) in ALU:
            w = 32 if M.group(2) == 'w' else 64
            if w > W: return None
            op = ALU[M.group(1)]
            def f(m, i, o):
                b = ext(self.src(m, o[2]), w - 1, 0, W); a = self.rd(m, o[1], w)
                if op in ('shl', 'lshr', 'ashr'): b = binop('and', b, w - 1, w)
                self.wr(m, o[0], sext(binop(op, a, b, w), w, W))
            return f
        if mn in ('ext.w.b', 'ext.w.h'): return lambda m, i, o: self.put(m, o[0], self.rd(m, o[1], 8 * SZ[mn[-1]]), SZ[mn[-1]])
        M = re.fullmatch(r'ld\.([bhwd])(u?)', mn)
        if M: return lambda m, i, o: self.load(m, i, o, SZ[M.group(1)], M.group(2))
        M = re.fullmatch(r'st\.([bhwd])', mn)
        if M: return lambda m, i, o: self.store(m, i, o, SZ[M.group(1)])
        M = re.fullmatch(r'(ll|sc)\.([wd])', mn)
        if M and SZ[M.group(2)] * 8 <= W: return lambda m, i, o: getattr(self, M.group(1))(m, i, o, SZ[M.group(2)])
        M = re.fullmatch(r'am(swap|add|and|or|xor)(_db)?\.([bhwd])', mn)
        if M and SZ[M.group(3)] * 8 <= W: return lambda m, i, o: self.amo(m, i, o, SZ[M.group(3)], AMO[M.group(1)], **(dict(aq=1, rl=1) if M.group(2) else {}))
        return None
    def insn_feature(self, i):
        return 'lam-bh' if re.fullmatch(r'am\w+\.[bh]', i.mn) else ''

def make(cfg, L): return LA(cfg, L)
