"""What the load/store architectures have in common."""
import re, z3
from .symex import *

OPERAND = re.compile('\x01(\\d+):(\\w?)\x01')

class Insn:
    __slots__ = ('mn', 'ops', 'text')
    def __repr__(s): return s.text

class Base:
    sep = ';'
    comments = ('//',)
    bits = 32
    names = {}            # register name -> key
    zero = ()             # names reading as zero
    unallocatable = set()
    clobflags = {}        # clobber name -> flags it declares
    flagnames = ()
    flagw = {}
    prefix = 'i_'
    pure_values = False   # results of blocks without memory accesses are computed values, not transported contents
    def __init__(self, cfg, L):
        self.cfg = cfg; self.ptrw = L.ptr; self.be = L.be
    # ---- registers
    def reg(self, name):
        n = name.lower()
        if n in self.names: return (self.names[n], 0, self.width(self.names[n]))
        return None
    def width(self, key): return self.bits
    def is_vec(self, key): return False
    def cellwidth(self, con, L, t): return self.bits, False
    def regclass(self, code, t, L): raise Unsupported('constraint %s' % code)
    def widen(self, v, w, c, t):
        if w == c.w: return v
        if w > c.w: raise Unsupported('operand wider than register')
        return cat([(fresh('up', c.w - w), c.w - w), (v, w)])
    def narrow(self, v, c, w, t):
        if w > c.w: raise Unsupported('output wider than register')
        return ext(v, w - 1, 0, c.w)
    def special_init(self, m, key): return None
    def may_clobber(self, m, c): return False
    def flag_clobbers(self, clob):
        s = set()
        for c in clob: s |= set(self.clobflags.get(c, ()))
        return s
    def flagwidth(self, f): return self.flagw.get(f, 1)
    def begin(self, m, ins):
        for f in self.flagnames: m.flags[f] = freshb('fl_' + f) if f not in self.flagw else fresh('fl_' + f, self.flagw[f])
    def end(self, m, ins, short): pass
    # ---- text
    def strip_comment(self, l):
        for c in self.comments:
            i = l.find(c)
            if i >= 0: l = l[:i]
        return l
    def is_insn(self, s): return False
    def directive(self, m, s): raise Unsupported('directive %s' % s)
    def parse(self, s):
        i = Insn(); i.text = s.replace('\x01', '%')
        t = s.strip().split(None, 1)
        i.mn = t[0].lower(); i.ops = []
        if len(t) > 1:
            d = 0; cur = ''
            for ch in t[1]:
                if ch in '[({': d += 1
                if ch in '])}': d -= 1
                if ch == ',' and d == 0: i.ops.append(cur.strip()); cur = ''
                else: cur += ch
            i.ops.append(cur.strip())
        return i
    def insn_feature(self, i): return ''
    def on_shared_access(self, m, off, n, kind, x): pass
    # ---- operands
    def cell(self, m, s):
        """cell index of a register operand, None for the zero register"""
        s = s.strip()
        mm = OPERAND.fullmatch(s)
        if mm: return m.opcell[int(mm.group(1))]
        if s.lower() in self.zero: return None
        r = self.reg(s)
        if r is None: raise Unsupported('register %r' % s.replace('\x01', '%'))
        return m.cell_of_phys(r[0])
    def isreg(self, m, s):
        s = s.strip()
        return bool(OPERAND.fullmatch(s)) or s.lower() in self.zero or self.reg(s) is not None
    def rd(self, m, s, w=None):
        c = self.cell(m, s)
        if c is None: return 0
        v = m.read_cell(c)
        return v if w is None or w == m.cells[c].w else ext(v, w - 1, 0, m.cells[c].w)
    def wr(self, m, s, v):
        c = self.cell(m, s)
        if c is not None: m.write_cell(c, v)
    def imm(self, s):
        s = s.strip().lstrip('#')
        if re.fullmatch(r'-?(0x[0-9a-fA-F]+|\d+)', s): return int(s, 0)
        raise Unsupported('immediate %r' % s)
    def isimm(self, s): return bool(re.fullmatch(r'#?-?(0x[0-9a-fA-F]+|\d+)', s.strip()))
    def src(self, m, s):
        """register or immediate"""
        if self.isimm(s): return self.imm(s) & mask(self.bits)
        return self.rd(m, s)
    def toptr(self, m, a, W):
        """an address computed in a W-bit register as a pointer value"""
        if W == self.ptrw: return a
        if W < self.ptrw: return zext(a, W, self.ptrw)
        up = ext(a, W - 1, self.ptrw, W)
        if not (is_int(up) and up == 0):
            m.st.violate('mem', 'asm uses an address register whose upper half is unspecified', NOT(eq(up, 0, W - self.ptrw)))
        return ext(a, self.ptrw - 1, 0, W)
    def same(self, m, a, b):
        """may the two operands be the same register?  (distinct operands only share when the constraints allow it)"""
        x, y = self.cell(m, a), self.cell(m, b)
        return x is not None and x == y
    def sharing(self, m, a, b, text):
        x, y = self.cell(m, a), self.cell(m, b)
        if x is None or y is None: return
        for j, bb in m.alias.get(x, []):
            if j == y: m.st.violate('ub', 'register allocation may give both operands of "%s" the same register' % text, bb)
    # ---- execution
    def exec(self, m, i):
        f = getattr(self, self.prefix + i.mn.replace('.', '_'), None)
        if f is None:
            f = self.lookup(i)
            if f is None: raise Unsupported('instruction %r' % i.text)
        return f(m, i, i.ops)
    def lookup(self, i): return None
    def branch(self, m, c, lab): return [(a, lab if t else None) for a, t in m.split(c)]
    def i_nop(self, m, i, o): pass
