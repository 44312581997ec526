"""MSP430 semantics for the inline assembly blocks.  Bit 3 of SR (GIE) is the state of the run (`irq`)."""
import re, z3
from .symex import *
from .isa_base import Base, OPERAND
from . import asmx

BIN = {'xor': 'xor', 'and': 'and', 'bis': 'or', 'add': 'add', 'sub': 'sub'}

class MSP430(Base):
    comments = (';', '//')
    sep = '{'
    bits = 16
    names = dict([('r%d' % i, 'r%d' % i) for i in range(16)] + [('pc', 'r0'), ('sp', 'r1'), ('sr', 'r2'), ('fp', 'r4')])
    unallocatable = {'r0', 'r1', 'r2', 'r3', 'r4'}
    flagnames = ('z',)
    clobflags = {'sr': ('z',)}
    pure_values = True
    key = 'msp430'
    def regclass(self, code, t, L):
        if code != 'r': raise Unsupported('constraint %s' % code)
        return {'r%d' % i for i in range(5, 16)}
    def exec(self, m, i):
        # DINT takes effect after the instruction that follows it
        pend = m.x.get('dint', False)
        r = super().exec(m, i)
        if pend: m.x['dint'] = False; asmx.irq_off(m)
        return r
    def i_dint(self, m, i, o): m.x['dint'] = True
    def i_eint(self, m, i, o): asmx.irq_restore(m, 1)
    def mem(self, s): return re.fullmatch(r'@\s*(.+?)|(-?\w+)\(\s*(.+?)\s*\)', s.strip())
    def addr(self, m, s):
        M = self.mem(s)
        if M.group(1):
            if M.group(1).endswith('+'): raise Unsupported('post-increment')
            return self.rd(m, M.group(1))
        return binop('add', self.rd(m, M.group(3)), int(M.group(2), 0) & 0xffff, 16)
    def get(self, m, s, n):
        if s.strip() in ('r2', 'sr'): return cat([(fresh('sr', 12), 12), (asmx.irq_bit(m), 1), (fresh('sr', 3), 3)])
        if s.strip().startswith('#'): return self.imm(s) & mask(8 * n)
        if self.mem(s): return m.access(self.addr(m, s), n, 'R')
        return self.rd(m, s, 8 * n)
    def lookup(self, i):
        M = re.fullmatch(r'(\w+?)(?:\.([bw]))?', i.mn); op = M.group(1); n = 1 if M.group(2) == 'b' else 2; w = 8 * n
        if op == 'mov':
            def f(m, i, o):
                v = self.get(m, o[0], n)
                if m.ended: return
                if o[1].strip() in ('r2', 'sr'):
                    if n != 2: raise Unsupported(i.text)
                    asmx.irq_restore(m, ext(v, 3, 3, 16)); m.flags['z'] = freshb('sr'); return
                if self.mem(o[1]):
                    if o[1].strip().startswith('@'): raise Unsupported(i.text)
                    m.access(self.addr(m, o[1]), n, 'W', lambda _: v); return
                self.wr(m, o[1], zext(v, w, 16))
            return f
        if op in BIN or op == 'cmp':
            def f(m, i, o):
                if self.mem(o[0]) or self.mem(o[1]): raise Unsupported(i.text)
                v = binop(BIN.get(op, 'sub'), self.rd(m, o[1], w), self.get(m, o[0], n), w)
                if op != 'cmp': self.wr(m, o[1], zext(v, w, 16))
                if op != 'bis': m.flags['z'] = eq(v, 0, w)
            return f
        if op in ('jeq', 'jz'): return lambda m, i, o: self.branch(m, m.flags['z'], o[0])
        if op in ('jne', 'jnz'): return lambda m, i, o: self.branch(m, NOT(m.flags['z']), o[0])
        if op == 'jmp': return lambda m, i, o: [(m, o[0])]
        return None

def make(cfg, L): return MSP430(cfg, L)
