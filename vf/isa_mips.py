"""MIPS (MIPS32, MIPS64, release 6) semantics for the inline assembly blocks."""
import re, z3
from .symex import *
from .isa_base import Base, OPERAND

ABI = {'zero': 0, 'at': 1, 'v0': 2, 'v1': 3, 'gp': 28, 'sp': 29, 'fp': 30, 's8': 30, 'ra': 31, 'k0': 26, 'k1': 27, 't8': 24, 't9': 25}
ABI.update({'a%d' % i: 4 + i for i in range(4)}); ABI.update({'t%d' % i: 8 + i for i in range(8)}); ABI.update({'s%d' % i: 16 + i for i in range(8)})
ABI.update({str(i): i for i in range(32)})
SZ = {'b': 1, 'h': 2, 'w': 4, 'd': 8}
ALU = {'addu': ('add', 32), 'addiu': ('add', 32), 'subu': ('sub', 32), 'daddu': ('add', 64), 'daddiu': ('add', 64), 'dsubu': ('sub', 64),
       'sllv': ('shl', 32), 'srlv': ('lshr', 32), 'srav': ('ashr', 32), 'sll': ('shl', 32), 'srl': ('lshr', 32), 'sra': ('ashr', 32), 'dsllv': ('shl', 64), 'dsrlv': ('lshr', 64)}
BIT = {'and': 'and', 'or': 'or', 'xor': 'xor', 'andi': 'and', 'ori': 'or', 'xori': 'xor'}

class MIPS(Base):
    comments = ('#', '//')
    names = {'$' + n: 'r%d' % i for n, i in ABI.items() if i}
    zero = ('$zero', '$0')
    unallocatable = {'r26', 'r27', 'r28', 'r29', 'r30'}
    def __init__(self, cfg, L):
        super().__init__(cfg, L)
        self.bits = 64 if 'mips64' in cfg.target or 'mipsisa64' in cfg.target else 32
        self.r6 = 'r6' in cfg.target
        self.key = 'mips%d%s%s' % (self.bits, 'r6' if self.r6 else '', 'be' if self.be else '')
    def regclass(self, code, t, L):
        if code not in 'rdy': raise Unsupported('constraint %s' % code)
        return {'r%d' % i for i in range(1, 26)} | {'r31'}
    def widen(self, v, w, c, t):
        # LLVM keeps 32-bit values sign-extended in 64-bit registers (every i32 lives in GPR32)
        if self.bits == 64 and w == 32: return sext(v, 32, 64)
        return super().widen(v, w, c, t)
    def flag_clobbers(self, clob): return set()
    def directive(self, m, s):
        p = s.split(None, 1)
        if p[0] == '.set':
            a = p[1].strip()
            if a in ('push', 'pop', 'noat', 'at', 'reorder', 'macro', 'nomacro') or re.fullmatch(r'mips\d+(r\d)?|arch=\w+', a):
                st = m.x.setdefault('set', [(False,)])
                if a == 'push': st.append(st[-1])
                elif a == 'pop':
                    if len(st) < 2: raise Unsupported('.set pop without push')
                    st.pop()
                elif a in ('noat', 'at'): st[-1] = (a == 'noat',)
                return
        raise Unsupported('directive %s' % s)
    def cell_at(self, m): return m.x.get('set', [(False,)])[-1][0]
    def addr(self, m, s):
        M = re.fullmatch(r'(-?\w*)\(\s*(.+?)\s*\)', s.strip())
        if not M: raise Unsupported('address %r' % s.replace('\x01', '%'))
        a = self.rd(m, M.group(2))
        if M.group(1):
            k = int(M.group(1), 0)
            lim = 256 if self.r6 and self.llsc else 32768
            if not -lim <= k < lim: raise Unsupported('offset %d' % k)
            if k: a = binop('add', a, k & mask(self.bits), self.bits)
        return self.toptr(m, a, self.bits)
    llsc = False
    def put(self, m, s, v, n): self.wr(m, s, sext(v, 8 * n, self.bits))
    def i_move(self, m, i, o): self.wr(m, o[0], self.rd(m, o[1]))
    def i_li(self, m, i, o): self.wr(m, o[0], self.imm(o[1]) & mask(self.bits))
    def i_not(self, m, i, o): self.wr(m, o[0], binop('xor', self.rd(m, o[1]), mask(self.bits), self.bits))
    def i_nor(self, m, i, o): self.wr(m, o[0], binop('xor', binop('or', self.rd(m, o[1]), self.rd(m, o[2]), self.bits), mask(self.bits), self.bits))
    def i_sltu(self, m, i, o): self.wr(m, o[0], ite(zb(z3.ULT(bv(self.rd(m, o[1]), self.bits), bv(self.src(m, o[2]), self.bits))), 1, 0, self.bits))
    i_sltiu = i_sltu
    def i_b(self, m, i, o): return [(m, o[0])]
    i_j = i_b
    def i_beqz(self, m, i, o): return self.branch(m, eq(self.rd(m, o[0]), 0, self.bits), o[1])
    def i_bnez(self, m, i, o): return self.branch(m, NOT(eq(self.rd(m, o[0]), 0, self.bits)), o[1])
    def i_beq(self, m, i, o): return self.branch(m, eq(self.rd(m, o[0]), self.rd(m, o[1]), self.bits), o[2])
    def i_bne(self, m, i, o): return self.branch(m, NOT(eq(self.rd(m, o[0]), self.rd(m, o[1]), self.bits)), o[2])
    def i_sync(self, m, i, o):
        if o and self.imm(o[0]) != 0: raise Unsupported(i.text)
        m.fence_event(full=1)
    def load(self, m, i, o, n, un):
        if n * 8 > self.bits: raise Unsupported(i.text)
        r = m.access(self.addr(m, o[1]), n, 'R')
        if not m.ended: self.wr(m, o[0], (zext if un else sext)(r, 8 * n, self.bits))
    def store(self, m, i, o, n):
        v = self.rd(m, o[0], 8 * n); m.access(self.addr(m, o[1]), n, 'W', lambda _: v)
    def ll(self, m, i, o, n):
        r = m.ll(self.addr(m, o[1]), n)
        if not m.ended: self.put(m, o[0], r, n)
    def sc(self, m, i, o, n):
        v = self.rd(m, o[0], 8 * n); out = []
        for m2, ok in m.sc(self.addr(m, o[1]), n, v):
            if not m2.ended: self.wr(m2, o[0], 1 if ok else 0)
            out.append((m2, None))
        return out
    def lookup(self, i):
        mn = i.mn; W = self.bits
        if mn in BIT: return lambda m, i, o: self.wr(m, o[0], binop(BIT[mn], self.rd(m, o[1]), self.src(m, o[2]), W))
        if mn in ALU:
            op, w = ALU[mn]
            if w > W: return None
            def f(m, i, o):
                b = ext(self.src(m, o[2]), w - 1, 0, W); a = self.rd(m, o[1])
                if op in ('shl', 'lshr', 'ashr'):
                    b = binop('and', b, w - 1, w)
                if w < W and op != 'shl':
                    bad = NOT(eq(a, sext(ext(a, 31, 0, W), 32, W), W))
                    if bad is not False: m.st.violate('ub', '"%s" of a value that is not a sign-extended word (unpredictable)' % i.text, bad)
                self.wr(m, o[0], sext(binop(op, ext(a, w - 1, 0, W), b, w), w, W))
            return f
        M = re.fullmatch(r'l([bhwd])(u?)', mn)
        if M: return lambda m, i, o: self.load(m, i, o, SZ[M.group(1)], M.group(2))
        M = re.fullmatch(r's([bhwd])', mn)
        if M: return lambda m, i, o: self.store(m, i, o, SZ[M.group(1)])
        M = re.fullmatch(r'(ll|sc)(d?)', mn)
        if M and not (M.group(2) and W == 32): return lambda m, i, o: getattr(self, M.group(1))(m, i, o, 8 if M.group(2) else 4)
        return None

def make(cfg, L): return MIPS(cfg, L)
