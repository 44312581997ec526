"""AVR semantics for the inline assembly blocks.  Bit 7 of SREG (I) is the state of the run (`irq`)."""
import re, z3
from .symex import *
from .isa_base import Base, OPERAND
from . import asmx

BIN = {'eor': 'xor', 'and': 'and', 'or': 'or', 'add': 'add', 'sub': 'sub'}

class AVR(Base):
    comments = ('//',)
    sep = '$'
    bits = 8
    names = dict([('r%d' % i, 'r%d' % i) for i in range(32)] + [('x', 'X'), ('y', 'Y'), ('z', 'Z'), ('r31r30', 'Z'), ('r27r26', 'X'), ('r31:r30', 'Z')])
    unallocatable = {'r0', 'r1', 'r28', 'r29', 'X', 'Y', 'Z'}
    flagnames = ('z',)
    clobflags = {'sreg': ('z',)}
    pure_values = True
    key = 'avr'
    def width(self, key): return 16 if key in 'XYZ' else 8
    def cellwidth(self, con, L, t): return (self.width(self.reg(con.fixed)[0]) if con.fixed is not None else 8), False
    def regclass(self, code, t, L):
        if code not in 'rdl': raise Unsupported('constraint %s' % code)
        return {'r%d' % i for i in range(16 if code == 'd' else 2, 16 if code == 'l' else 28)}
    def ptr(self, m, s):
        s = s.strip()
        if not re.fullmatch('[XYZ]', s): raise Unsupported('address %s' % s)
        return self.rd(m, s)
    def i_cli(self, m, i, o): asmx.irq_off(m); m.flags['z'] = m.flags['z']
    def i_sei(self, m, i, o): asmx.irq_restore(m, 1)
    def i_in(self, m, i, o):
        if self.imm(o[1]) != 0x3f: raise Unsupported(i.text)
        self.wr(m, o[0], cat([(asmx.irq_bit(m), 1), (fresh('sreg', 7), 7)]))
    def i_out(self, m, i, o):
        if self.imm(o[0]) != 0x3f: raise Unsupported(i.text)
        asmx.irq_restore(m, ext(self.rd(m, o[1]), 7, 7, 8)); m.flags['z'] = freshb('sreg')
    def i_mov(self, m, i, o): self.wr(m, o[0], self.rd(m, o[1]))
    def i_ldi(self, m, i, o): self.wr(m, o[0], self.imm(o[1]) & 255)
    def i_ld(self, m, i, o):
        r = m.access(self.ptr(m, o[1]), 1, 'R')
        if not m.ended: self.wr(m, o[0], r)
    def i_st(self, m, i, o):
        v = self.rd(m, o[1]); m.access(self.ptr(m, o[0]), 1, 'W', lambda _: v)
    def off(self, m, s):
        M = re.fullmatch(r'([YZ])\s*\+\s*(\w+)', s.strip())
        if not M or not 0 <= int(M.group(2), 0) < 64: raise Unsupported('address %s' % s)
        return binop('add', self.rd(m, M.group(1)), int(M.group(2), 0), 16)
    def i_ldd(self, m, i, o):
        r = m.access(self.off(m, o[1]), 1, 'R')
        if not m.ended: self.wr(m, o[0], r)
    def i_std(self, m, i, o):
        v = self.rd(m, o[1]); m.access(self.off(m, o[0]), 1, 'W', lambda _: v)
    def lookup(self, i):
        if i.mn in BIN:
            def f(m, i, o):
                v = binop(BIN[i.mn], self.rd(m, o[0]), self.rd(m, o[1]), 8)
                self.wr(m, o[0], v); m.flags['z'] = eq(v, 0, 8)
            return f
        if i.mn in ('cp', 'tst'):
            def f(m, i, o): m.flags['z'] = eq(self.rd(m, o[0]), self.rd(m, o[1]) if i.mn == 'cp' else 0, 8)
            return f
        if i.mn in ('breq', 'brne'): return lambda m, i, o: self.branch(m, m.flags['z'] if i.mn == 'breq' else NOT(m.flags['z']), o[0])
        if i.mn == 'rjmp': return lambda m, i, o: [(m, o[0])]
        return None

def make(cfg, L): return AVR(cfg, L)
