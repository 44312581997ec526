"""Motorola 68000 family semantics for the inline assembly blocks."""
import re, z3
from .symex import *
from .isa_base import Base, OPERAND

SZ = {'b': 1, 'w': 2, 'l': 4}

class M68k(Base):
    comments = ('//',)
    names = dict([('%%%s%d' % (k, i), k + str(i)) for k in 'da' for i in range(8)] + [('%sp', 'a7'), ('%fp', 'a6')])
    names.update({k[1:]: v for k, v in list(names.items())})
    unallocatable = {'a6', 'a7'}
    flagnames = ('z', 'x')
    clobflags = {'ccr': ('z', 'x')}
    key = 'm68k'
    def regclass(self, code, t, L):
        if code == 'd': return {'d%d' % i for i in range(8)}
        if code == 'a': return {'a%d' % i for i in range(6)}
        if code == 'r': return {'d%d' % i for i in range(8)} | {'a%d' % i for i in range(6)}
        raise Unsupported('constraint %s' % code)
    def insn_feature(self, i): return 'isa-68020' if i.mn.startswith('cas') else ''
    def mem(self, s): return re.fullmatch(r'(-?\w*)\(\s*(.+?)\s*\)', s.strip())
    def addr(self, m, s):
        M = self.mem(s); a = self.rd(m, M.group(2))
        if M.group(1):
            k = int(M.group(1), 0)
            if not -32768 <= k < 32768: raise Unsupported('displacement')
            a = binop('add', a, k & mask(32), 32)
        return self.toptr(m, a, 32)
    def low(self, m, s, v, n):
        """write the low part of a data register, the rest unchanged; address registers are sign extended"""
        if n == 32: return self.wr(m, s, v)
        self.wr(m, s, cat([(ext(self.rd(m, s), 31, n, 32), 32 - n), (v, n)]))
    def get(self, m, s, n):
        if s.strip().startswith('#'): return self.imm(s) & mask(8 * n)
        return m.access(self.addr(m, s), n, 'R') if self.mem(s) else self.rd(m, s, 8 * n)
    def i_seq(self, m, i, o): self.low(m, o[0], ite(zb(m.flags['z']), 255, 0, 8), 8)
    def i_sne(self, m, i, o): self.low(m, o[0], ite(zb(m.flags['z']), 0, 255, 8), 8)
    def i_beq(self, m, i, o): return self.branch(m, m.flags['z'], o[0])
    def i_bne(self, m, i, o): return self.branch(m, NOT(m.flags['z']), o[0])
    def i_bra(self, m, i, o): return [(m, o[0])]
    def i_moveq(self, m, i, o):
        v = self.imm(o[0]); self.wr(m, o[1], v & mask(32)); m.flags['z'] = v == 0
    def lookup(self, i):
        M = re.fullmatch(r'(\w+)\.([bwl])', i.mn)
        if not M: return None
        n = SZ[M.group(2)]; op = M.group(1); w = 8 * n
        if op == 'move':
            def f(m, i, o):
                v = self.get(m, o[0], n)
                if m.ended: return
                if self.mem(o[1]): m.access(self.addr(m, o[1]), n, 'W', lambda _: v)
                else: self.low(m, o[1], v, w)
                if not m.ended: m.flags['z'] = eq(v, 0, w)
            return f
        if op == 'cas':
            def f(m, i, o):
                old, new = self.rd(m, o[0], w), self.rd(m, o[1], w)
                r = m.access(self.addr(m, o[2]), n, 'RMW', lambda x: ite(zb(eq(x, old, w)), new, x, w), full=1)
                if m.ended: return
                ok = eq(r, old, w); m.flags['z'] = ok
                self.low(m, o[0], r, w)       # equal to the old register on success
            return f
        if op in ('and', 'or', 'eor', 'add', 'sub', 'cmp', 'tst', 'not', 'neg', 'lsl', 'lsr'):
            def f(m, i, o):
                if any(self.mem(x) for x in o): raise Unsupported(i.text)
                a = self.rd(m, o[-1], w); b = self.get(m, o[0], n)
                if op in ('lsl', 'lsr'): r = binop('shl' if op == 'lsl' else 'lshr', a, binop('and', b, 63, w), w)
                elif op == 'not': r = binop('xor', a, mask(w), w)
                elif op == 'neg': r = binop('sub', 0, a, w)
                elif op == 'tst': r = a
                else: r = binop({'eor': 'xor', 'cmp': 'sub'}.get(op, op), a, b, w)
                m.flags['z'] = eq(r, 0, w)
                if op not in ('cmp', 'tst'): self.low(m, o[-1], r, w)
                if op in ('add', 'sub', 'neg', 'lsl', 'lsr'): m.flags['x'] = freshb('x')
            return f
        return None

def make(cfg, L): return M68k(cfg, L)
