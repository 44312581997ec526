"""RISC-V (RV32, RV64) semantics for the inline assembly blocks."""
import re, z3
from .symex import *
from .isa_base import Base, OPERAND

ABI = {'zero': 0, 'ra': 1, 'sp': 2, 'gp': 3, 'tp': 4, 't0': 5, 't1': 6, 't2': 7, 's0': 8, 'fp': 8, 's1': 9}
ABI.update({'a%d' % i: 10 + i for i in range(8)}); ABI.update({'s%d' % i: 16 + i for i in range(2, 12)}); ABI.update({'t%d' % i: 25 + i for i in range(3, 7)})
ABI.update({'x%d' % i: i for i in range(32)})
BR = {'beq': lambda s, a, b, w: eq(a, b, w), 'bne': lambda s, a, b, w: NOT(eq(a, b, w)), 'bltu': lambda s, a, b, w: z3.ULT(bv(a, w), bv(b, w)), 'bgeu': lambda s, a, b, w: z3.UGE(bv(a, w), bv(b, w)),
      'blt': lambda s, a, b, w: bv(a, w) < bv(b, w), 'bge': lambda s, a, b, w: bv(a, w) >= bv(b, w)}
ALU = {'add': 'add', 'sub': 'sub', 'and': 'and', 'or': 'or', 'xor': 'xor', 'sll': 'shl', 'srl': 'lshr', 'sra': 'ashr', 'mul': 'mul'}
SZ = {'b': 1, 'h': 2, 'w': 4, 'd': 8}
AMO = {'swap': lambda a, b, w: b, 'add': lambda a, b, w: binop('add', a, b, w), 'and': lambda a, b, w: binop('and', a, b, w), 'or': lambda a, b, w: binop('or', a, b, w), 'xor': lambda a, b, w: binop('xor', a, b, w)}

class RV(Base):
    comments = ('#', '//')
    names = {n: 'x%d' % i for n, i in ABI.items() if i}
    zero = ('zero', 'x0')
    unallocatable = {'x1', 'x2', 'x3', 'x4', 'x8', 'x9'} - {'x1'}
    def __init__(self, cfg, L):
        super().__init__(cfg, L)
        self.bits = 64 if cfg.target.startswith('riscv64') else 32
        self.e = cfg.target.startswith('riscv32e')
        self.key = 'riscv%d%s' % (self.bits, 'e' if self.e else '')
    def regclass(self, code, t, L):
        if code != 'r': raise Unsupported('constraint %s' % code)
        return {'x%d' % i for i in range(5, 16 if self.e else 32) if i not in (8, 9)} | {'x1'}
    def flag_clobbers(self, clob): return set()
    # ---- operands
    def addr(self, m, s):
        s = s.strip()
        M = re.fullmatch(r'(-?\w*)\(\s*(.+?)\s*\)', s)
        if not M: raise Unsupported('address %r' % s.replace('\x01', '%'))
        a = self.rd(m, M.group(2))
        if M.group(1): a = binop('add', a, int(M.group(1), 0) & mask(self.bits), self.bits)
        return self.toptr(m, a, self.bits)
    def amoaddr(self, m, s):
        M = re.fullmatch(r'0?\(\s*(.+?)\s*\)', s.strip())
        if not M: raise Unsupported('address %r' % s.replace('\x01', '%'))
        return self.toptr(m, self.rd(m, M.group(1)), self.bits)
    def put(self, m, s, v, n): self.wr(m, s, sext(v, 8 * n, self.bits))
    # ---- moves
    def i_mv(self, m, i, o): self.wr(m, o[0], self.rd(m, o[1]))
    def i_li(self, m, i, o): self.wr(m, o[0], self.imm(o[1]) & mask(self.bits))
    def i_not(self, m, i, o): self.wr(m, o[0], binop('xor', self.rd(m, o[1]), mask(self.bits), self.bits))
    def i_neg(self, m, i, o): self.wr(m, o[0], binop('sub', 0, self.rd(m, o[1]), self.bits))
    def i_seqz(self, m, i, o): self.wr(m, o[0], ite(zb(eq(self.rd(m, o[1]), 0, self.bits)), 1, 0, self.bits))
    def i_snez(self, m, i, o): self.wr(m, o[0], ite(zb(eq(self.rd(m, o[1]), 0, self.bits)), 0, 1, self.bits))
    def i_sltu(self, m, i, o): self.wr(m, o[0], ite(zb(z3.ULT(bv(self.rd(m, o[1]), self.bits), bv(self.src(m, o[2]), self.bits))), 1, 0, self.bits))
    i_sltiu = i_sltu
    def i_slt(self, m, i, o): self.wr(m, o[0], ite(zb(bv(self.rd(m, o[1]), self.bits) < bv(self.src(m, o[2]), self.bits)), 1, 0, self.bits))
    i_slti = i_slt
    def alu(self, op, w):
        def f(m, i, o):
            b = self.src(m, o[2]); a = self.rd(m, o[1], w)
            b = ext(b, w - 1, 0, self.bits)
            if op in ('shl', 'lshr', 'ashr'): b = binop('and', b, w - 1, w)
            r = binop(op, a, b, w)
            self.wr(m, o[0], sext(r, w, self.bits))
        return f
    # ---- control
    def i_j(self, m, i, o): return [(m, o[0])]
    def i_beqz(self, m, i, o): return self.branch(m, eq(self.rd(m, o[0]), 0, self.bits), o[1])
    def i_bnez(self, m, i, o): return self.branch(m, NOT(eq(self.rd(m, o[0]), 0, self.bits)), o[1])
    def i_bltz(self, m, i, o): return self.branch(m, bv(self.rd(m, o[0]), self.bits) < 0, o[1])
    def i_bgez(self, m, i, o): return self.branch(m, bv(self.rd(m, o[0]), self.bits) >= 0, o[1])
    # ---- fences
    def i_fence(self, m, i, o):
        p, s = (o + ['iorw', 'iorw'])[:2] if not o or len(o) == 1 else o
        if not re.fullmatch(r'[iorw]+', p) or not re.fullmatch(r'[iorw]+', s): raise Unsupported(i.text)
        k = ''.join(sorted(a + b + ' ' for a in p for b in s if a in 'rw' and b in 'rw'))
        m.fence_event(ord=k)
    def i_fence_tso(self, m, i, o): m.fence_event(ord='rr rw ww ')
    def i_fence_i(self, m, i, o): m.fence = True
    # ---- memory
    def load(self, m, i, o, n, un, **x):
        if n * 8 > self.bits: raise Unsupported(i.text)
        r = m.access(self.addr(m, o[1]), n, 'R', **x)
        if not m.ended: self.wr(m, o[0], (zext if un else sext)(r, 8 * n, self.bits))
    def store(self, m, i, o, n, **x):
        v = self.rd(m, o[0], 8 * n); m.access(self.addr(m, o[1]), n, 'W', lambda _: v, **x)
    def lr(self, m, i, o, n, **x):
        r = m.ll(self.amoaddr(m, o[1]), n, **x)
        if not m.ended: self.put(m, o[0], r, n)
    def sc(self, m, i, o, n, **x):
        v = self.rd(m, o[1], 8 * n); out = []
        for m2, ok in m.sc(self.amoaddr(m, o[2]), n, v, **x):
            if not m2.ended:
                c = 0
                if not ok:
                    c = fresh('scfail', self.bits); m2.st.pc.append(c != 0)
                self.wr(m2, o[0], c)
            out.append((m2, None))
        return out
    def amo(self, m, i, o, n, fn, **x):
        v = self.rd(m, o[1], 8 * n)
        r = m.access(self.amoaddr(m, o[2]), n, 'RMW', lambda old: fn(old, v, 8 * n), **x)
        if not m.ended: self.put(m, o[0], r, n)
    def amocas(self, m, i, o, n, **x):
        if n * 8 > self.bits: raise Unsupported(i.text)
        c = self.rd(m, o[0], 8 * n); v = self.rd(m, o[1], 8 * n)
        r = m.access(self.amoaddr(m, o[2]), n, 'RMW', lambda old: ite(zb(eq(old, c, 8 * n)), v, old, 8 * n), cas=True, **x)
        if not m.ended: self.put(m, o[0], r, n)
    def lookup(self, i):
        mn = i.mn
        if mn in BR: return lambda m, i, o: self.branch(m, BR[mn](self, self.rd(m, o[0]), self.rd(m, o[1]), self.bits), o[2])
        M = re.fullmatch(r'(add|sub|and|or|xor|sll|srl|sra|mul)(i?)(w?)', mn)
        if M and (not M.group(3) or self.bits == 64): return self.alu(ALU[M.group(1)], 32 if M.group(3) else self.bits)
        if mn in ('sext.w', 'sext.h', 'sext.b', 'zext.b', 'zext.h', 'zext.w'):
            n = 8 * SZ[mn[-1]]; return lambda m, i, o: self.wr(m, o[0], (zext if mn[0] == 'z' else sext)(self.rd(m, o[1], n), n, self.bits))
        M = re.fullmatch(r'l([bhwd])(u?)', mn)
        if M: return lambda m, i, o: self.load(m, i, o, SZ[M.group(1)], M.group(2))
        M = re.fullmatch(r's([bhwd])', mn)
        if M: return lambda m, i, o: self.store(m, i, o, SZ[M.group(1)])
        an = dict(zip(('aq', 'rl'), (1, 1)))
        M = re.fullmatch(r'(lr|sc|amo[a-z]+)\.([bhwd])((?:\.(?:aq|rl|aqrl))?)', mn)
        if M:
            n = SZ[M.group(2)]; x = {k: 1 for k in an if k in M.group(3)}
            if n * 8 > self.bits: return None
            k = M.group(1)
            if k in ('lr', 'sc') and n < 4: return None
            if k == 'lr': return lambda m, i, o: self.lr(m, i, o, n, **x)
            if k == 'sc': return lambda m, i, o: self.sc(m, i, o, n, **x)
            if k == 'amocas': return lambda m, i, o: self.amocas(m, i, o, n, **x)
            if k[3:] in AMO: return lambda m, i, o: self.amo(m, i, o, n, AMO[k[3:]], **x)
        return None
    def insn_feature(self, i):
        M = re.fullmatch(r'(lr|sc|amo[a-z]+)\.([bhwd]).*', i.mn)
        if not M: return ''
        if M.group(1) in ('lr', 'sc'): return 'a|zalrsc'
        if M.group(1) == 'amocas': return 'zacas'
        return 'zabha' if M.group(2) in 'bh' else 'a|zaamo'

def make(cfg, L): return RV(cfg, L)
