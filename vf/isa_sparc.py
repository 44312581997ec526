"""SPARC (V8, V8+, V9) semantics for the inline assembly blocks."""
import re, z3
from .symex import *
from .isa_base import Base, OPERAND

SZ = {'b': 1, 'h': 2, '': 4, 'w': 4, 'x': 8}
BIN = {'and': 'and', 'or': 'or', 'xor': 'xor', 'add': 'add', 'sub': 'sub'}
COND = {'a': None, '': None, 'e': True, 'z': True, 'ne': False, 'nz': False}

class SPARC(Base):
    comments = ('!', '//')
    delay = True          # branches execute the following instruction first
    names = dict([('%' + 'goli'[k] + str(i), 'r%d' % (8 * k + i)) for k in range(4) for i in range(8) if k or i] + [('%sp', 'r14'), ('%fp', 'r30')] + [('r%d' % i, 'r%d' % i) for i in range(1, 32)])
    names.update({k[1:]: v for k, v in list(names.items()) if k[0] == '%'})
    zero = ('%g0',)
    unallocatable = {'r1', 'r5', 'r6', 'r7', 'r14', 'r30', 'r31'}
    flagnames = ('icc', 'xcc')          # the Z bits
    clobflags = {'icc': ('icc', 'xcc')}
    def __init__(self, cfg, L):
        super().__init__(cfg, L)
        self.bits = 64 if cfg.target.startswith('sparc64') else 32
        self.v9 = self.bits == 64; self.feats = ()
        self.key = 'sparc%d' % self.bits
    def regclass(self, code, t, L):
        if code != 'r': raise Unsupported('constraint %s' % code)
        return {'r%d' % i for i in range(1, 32)} - self.unallocatable
    def insn_feature(self, i):
        mn = i.mn
        if mn in ('cas', 'casx', 'membar', 'ldx', 'stx', 'sllx', 'srlx') or re.fullmatch('mov(n?e|n?z)', mn) or (mn[0] == 'b' and len(i.ops) == 2): return 'v9'
        if mn == 'casa': return 'leoncasa|v9'
        return ''
    def addr(self, m, s):
        M = re.fullmatch(r'\[\s*(.+?)\s*(?:([-+])\s*(\w+))?\s*\]', s.strip())
        if not M: raise Unsupported('address %r' % s.replace('\x01', '%'))
        a = self.rd(m, M.group(1))
        if M.group(2):
            k = int(M.group(3), 0); k = -k if M.group(2) == '-' else k
            if not -4096 <= k < 4096: raise Unsupported('offset')
            a = binop('add', a, k & mask(self.bits), self.bits)
        return self.toptr(m, a, self.bits)
    def below_sp(self, m, s):
        """an access below the stack pointer: nothing lives there (no red zone), and no other thread looks at it"""
        M = re.fullmatch(r'\[\s*%sp\s*-\s*(\w+)\s*\]', s.strip())
        return bool(M) and self.bits == 32 and int(M.group(1), 0) >= 1
    def put(self, m, s, v, n): self.wr(m, s, zext(v, 8 * n, self.bits))
    def i_mov(self, m, i, o): self.wr(m, o[1], self.src(m, o[0]))
    def i_andn(self, m, i, o): self.wr(m, o[2], binop('and', self.rd(m, o[0]), binop('xor', self.src(m, o[1]), mask(self.bits), self.bits), self.bits))
    def i_not(self, m, i, o): self.wr(m, o[-1], binop('xor', self.rd(m, o[0]), mask(self.bits), self.bits))
    def i_clr(self, m, i, o): self.wr(m, o[0], 0)
    def i_sll(self, m, i, o): self.shift(m, o, 'shl', 64 if self.bits == 64 else 32, 31)
    def i_srl(self, m, i, o): self.shift(m, o, 'lshr', 32, 31)
    def i_sra(self, m, i, o): self.shift(m, o, 'ashr', 32, 31)
    def i_sllx(self, m, i, o): self.shift(m, o, 'shl', 64, 63)
    def i_srlx(self, m, i, o): self.shift(m, o, 'lshr', 64, 63)
    def shift(self, m, o, op, w, k):
        W = self.bits
        n = ext(binop('and', self.src(m, o[1]), k, W), w - 1, 0, W)
        v = binop(op, ext(self.rd(m, o[0]), w - 1, 0, W), n, w)
        self.wr(m, o[2], (sext if op == 'ashr' else zext)(v, w, W))
    def i_cmp(self, m, i, o):
        a, b, W = self.rd(m, o[0]), self.src(m, o[1]), self.bits
        m.flags['icc'] = eq(ext(a, 31, 0, W), ext(b, 31, 0, W), 32)
        m.flags['xcc'] = eq(a, b, W)
    def cc(self, m, s):
        if s in ('%icc', '%xcc'):
            if s == '%xcc' and self.bits == 32: raise Unsupported('xcc')
            return m.flags[s[1:]]
        raise Unsupported('condition codes %s' % s)
    def i_membar(self, m, i, o):
        k = 0
        for x in o[0].split('|'):
            x = x.strip(); k |= {'#LoadLoad': 1, '#StoreLoad': 2, '#LoadStore': 4, '#StoreStore': 8, '#Lookaside': 16, '#MemIssue': 32, '#Sync': 64}.get(x) or self.imm(x)
        m.fence_event(**({'full': 1} if k & (2 | 32 | 64) else {}))
    def i_stbar(self, m, i, o): m.fence_event()
    def i_ldstub(self, m, i, o):
        if self.below_sp(m, o[0]):
            m.fence_event(full=1); self.wr(m, o[1], fresh('ldstub', self.bits)); return
        r = m.access(self.addr(m, o[0]), 1, 'RMW', lambda old: 255, full=1)
        if not m.ended: self.put(m, o[1], r, 1)
    def i_swap(self, m, i, o):
        v = self.rd(m, o[1], 32)
        r = m.access(self.addr(m, o[0]), 4, 'RMW', lambda old: v, full=1)
        if not m.ended: self.put(m, o[1], r, 4)
    def cas(self, m, o, n):
        rs1, rs2, rd = o; w = 8 * n
        if w > self.bits: raise Unsupported('casx')
        old, new = self.rd(m, rs2, w), self.rd(m, rd, w)
        r = m.access(self.addr(m, rs1), n, 'RMW', lambda x: ite(zb(eq(x, old, w)), new, x, w), full=1)
        if not m.ended: self.put(m, rd, r, n)
    def i_cas(self, m, i, o): self.cas(m, o, 4)
    def i_casx(self, m, i, o): self.cas(m, o, 8)
    def i_casa(self, m, i, o):
        M = re.fullmatch(r'(\[.*?\])\s*(\w+)', o[0])
        if not M or int(M.group(2), 0) not in (10, 0x80): raise Unsupported(i.text)
        self.cas(m, [M.group(1)] + o[1:], 4)
    def lookup(self, i):
        mn = i.mn; W = self.bits
        if mn in BIN: return lambda m, i, o: self.wr(m, o[2], binop(BIN[mn], self.rd(m, o[0]), self.src(m, o[1]), W))
        M = re.fullmatch(r'ld(u?|s)(b|h|w|x|)', mn)
        if M and not (mn == 'ldx' and W == 32):
            n = SZ[M.group(2)]
            def f(m, i, o):
                r = m.access(self.addr(m, o[0]), n, 'R')
                if not m.ended: self.wr(m, o[1], (sext if M.group(1) == 's' else zext)(r, 8 * n, W))
            return f
        M = re.fullmatch(r'st(b|h|w|x|)', mn)
        if M and not (mn == 'stx' and W == 32):
            n = SZ[M.group(1)]
            def f(m, i, o):
                v = self.rd(m, o[0], 8 * n); m.access(self.addr(m, o[1]), n, 'W', lambda _: v)
            return f
        M = re.fullmatch(r'b(a|ne|nz|e|z|)', mn)
        if M:
            def f(m, i, o):
                if COND[M.group(1)] is None: return [(m, o[-1])]
                c = self.cc(m, o[0] if len(o) == 2 else '%icc')
                return self.branch(m, c if COND[M.group(1)] else NOT(c), o[-1])
            return f
        M = re.fullmatch(r'mov(ne|nz|e|z)', mn)
        if M:
            def f(m, i, o):
                c = self.cc(m, o[0])
                if not COND[M.group(1)]: c = NOT(c)
                self.wr(m, o[2], ite(zb(c), self.src(m, o[1]), self.rd(m, o[2]), W))
            return f
        return None
    def directive(self, m, s):
        if s.split()[0] in ('.p2align', '.align', '.balign'): return
        raise Unsupported('directive %s' % s)

def make(cfg, L): return SPARC(cfg, L)
