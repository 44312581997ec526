"""z/Architecture (s390x) semantics for the inline assembly blocks."""
import re, z3
from .symex import *
from .isa_base import Base, OPERAND

# condition mask: bit 8 = cc 0, 4 = cc 1, 2 = cc 2, 1 = cc 3
CC = {'j': 15, 'je': 8, 'jl': 4, 'jh': 2, 'jo': 1, 'jne': 7, 'jnl': 11, 'jnh': 13, 'jno': 14, 'jlh': 6, 'jhe': 10, 'jle': 12, 'jz': 8, 'jnz': 7}
FULL = dict(full=1, single=1)

class S390(Base):
    comments = ('#', '//')
    bits = 64
    names = dict([('%%r%d' % i, 'r%d' % i) for i in range(16)] + [('r%d' % i, 'r%d' % i) for i in range(16)])
    unallocatable = {'r11', 'r15'}
    flagnames = ('cc',)
    flagw = {'cc': 2}
    clobflags = {'cc': ('cc',)}
    key = 's390x'
    def regclass(self, code, t, L):
        if code not in ('r', 'a'): raise Unsupported('constraint %s' % code)
        return {'r%d' % i for i in range(0 if code == 'r' else 1, 15)} - self.unallocatable
    def low(self, m, s, v, n):
        """write the low n bits, the rest unchanged"""
        if n == 64: return self.wr(m, s, v)
        self.wr(m, s, cat([(ext(self.rd(m, s), 63, n, 64), 64 - n), (v, n)]))
    def base(self, m, b):
        c = m.cells[self.cell(m, b)]
        if c.fixed == 'r0' or (c.fixed is None and 'r0' in (c.cls or ())): raise Unsupported('base register may be r0')
        return self.rd(m, b)
    def dispbase(self, m, s):
        M = re.fullmatch(r'(-?\w*)\(\s*(.+?)\s*\)', s.strip())
        if M:
            if ',' in M.group(2): raise Unsupported('index register')
            return int(M.group(1) or '0', 0), self.base(m, M.group(2))
        return int(s, 0), 0
    def addr(self, m, s):
        k, a = self.dispbase(m, s)
        if not -524288 <= k < 524288: raise Unsupported('displacement')
        return binop('add', a, k & mask(64), 64) if k else a
    def pair(self, m, s):
        r = self.reg(s.strip())
        if r is None or int(r[0][1:]) % 2: raise Unsupported('register pair %s' % s)
        return s.strip(), '%%r%d' % (int(r[0][1:]) + 1)
    def rdp(self, m, s):
        h, l = self.pair(m, s); return cat([(self.rd(m, h), 64), (self.rd(m, l), 64)])
    def wrp(self, m, s, v):
        h, l = self.pair(m, s); self.wr(m, h, ext(v, 127, 64, 128)); self.wr(m, l, ext(v, 63, 0, 128))
    # ---- moves and arithmetic
    def i_lgr(self, m, i, o): self.wr(m, o[0], self.rd(m, o[1]))
    def i_lr(self, m, i, o): self.low(m, o[0], self.rd(m, o[1], 32), 32)
    def i_lhi(self, m, i, o): self.low(m, o[0], self.imm(o[1]) & mask(32), 32)
    def i_lghi(self, m, i, o): self.wr(m, o[0], self.imm(o[1]) & mask(64))
    def extend(self, n, sgn, w):
        def f(m, i, o): self.low(m, o[0], (sext if sgn else zext)(self.rd(m, o[1], n), n, w), w)
        return f
    def setcc(self, m, alts):
        """alts: [(condition, cc)], the last one unconditional"""
        r = alts[-1][1]
        for c, v in reversed(alts[:-1]): r = ite(zb(c), v, r, 2)
        m.flags['cc'] = r
    def logic(self, op, w):
        def f(m, i, o):
            a, b = (o[0], o[1]) if len(o) == 2 else (o[1], o[2])
            r = binop(op, self.rd(m, a, w), self.rd(m, b, w), w)
            self.setcc(m, [(eq(r, 0, w), 0), (True, 1)]); self.low(m, o[0], r, w)
        return f
    def cmp(self, w, signed):
        def f(m, i, o):
            a, b = self.rd(m, o[0], w), self.rd(m, o[1], w); A, B = bv(a, w), bv(b, w)
            self.setcc(m, [(eq(a, b, w), 0), (z3.simplify(A < B if signed else z3.ULT(A, B)), 1), (True, 2)])
        return f
    def i_rll(self, m, i, o):
        k, b = self.dispbase(m, o[2])
        n = binop('and', ext(binop('add', b, k & mask(64), 64), 31, 0, 64), 31, 32)
        v = self.rd(m, o[1], 32)
        r = binop('or', binop('shl', v, n, 32), binop('lshr', v, binop('and', binop('sub', 32, n, 32), 31, 32), 32), 32)
        self.low(m, o[0], r, 32)
    def i_risbg(self, m, i, o):
        a, b = self.imm(o[2]), self.imm(o[3]); n = self.imm(o[4]) & 63 if len(o) > 4 else 0
        zero = b & 128; b &= 63; a &= 63
        v = self.rd(m, o[1])
        if n: v = cat([(ext(v, 63 - n, 0, 64), 64 - n), (ext(v, 63, 64 - n, 64), n)])
        bits = range(a, b + 1) if a <= b else list(range(a, 64)) + list(range(0, b + 1))
        M = sum(1 << (63 - k) for k in bits)
        old = 0 if zero else binop('and', self.rd(m, o[0]), ~M & mask(64), 64)
        r = binop('or', old, binop('and', v, M, 64), 64)
        self.setcc(m, [(eq(r, 0, 64), 0), (bv(r, 64) < 0, 1), (True, 2)]); self.wr(m, o[0], r)
    def i_ipm(self, m, i, o):
        # bits 0-31 and 40-63 unchanged, 32-33 zero, 34-35 cc, 36-39 program mask
        old = self.rd(m, o[0])
        self.wr(m, o[0], cat([(ext(old, 63, 32, 64), 32), (0, 2), (m.flags['cc'], 2), (fresh('pm', 4), 4), (ext(old, 23, 0, 64), 24)]))
    # ---- control and serialisation
    def i_bcr(self, m, i, o):
        if self.imm(o[0]) not in (14, 15) or o[1].strip().lstrip('%r') != '0': raise Unsupported(i.text)
        m.fence_event(full=1)
    # ---- memory
    def load(self, n, w, sgn):
        def f(m, i, o):
            r = m.access(self.addr(m, o[1]), n, 'R')
            if not m.ended: self.low(m, o[0], (sext if sgn else zext)(r, 8 * n, w), w)
        return f
    def store(self, n):
        def f(m, i, o):
            v = self.rd(m, o[0], 8 * n); m.access(self.addr(m, o[1]), n, 'W', lambda _: v)
        return f
    def i_lpq(self, m, i, o):
        a = self.addr(m, o[1]); self.aligned(m, a, 16, i)
        r = m.access(a, 16, 'R')
        if not m.ended: self.wrp(m, o[0], r)
    def i_stpq(self, m, i, o):
        a = self.addr(m, o[1]); self.aligned(m, a, 16, i)
        v = self.rdp(m, o[0]); m.access(a, 16, 'W', lambda _: v)
    def aligned(self, m, a, n, i):
        bad = NOT(eq(binop('and', a, n - 1, 64), 0, 64))
        if bad is not False: m.st.violate('mem', '"%s" with a misaligned address' % i.text, bad)
    def cas(self, n):
        def f(m, i, o):
            w = 8 * n; a = self.addr(m, o[2])
            old = self.rdp(m, o[0]) if n == 16 else self.rd(m, o[0], w); new = self.rdp(m, o[1]) if n == 16 else self.rd(m, o[1], w)
            r = m.access(a, n, 'RMW', lambda v: ite(zb(eq(v, old, w)), new, v, w), cas=True, **FULL)
            if m.ended: return
            ok = eq(r, old, w)
            self.setcc(m, [(ok, 0), (True, 1)])
            if n == 16: self.wrp(m, o[0], r)
            else: self.low(m, o[0], r, w)
        return f
    def lookup(self, i):
        mn = i.mn
        if mn in CC:
            k = CC[mn]
            if k == 15: return lambda m, i, o: [(m, o[0])]
            return lambda m, i, o: self.branch(m, OR(*[eq(m.flags['cc'], c, 2) for c in range(4) if k >> (3 - c) & 1]), o[0])
        T = {'lb': (1, 32, 1), 'lh': (2, 32, 1), 'lhy': (2, 32, 1), 'l': (4, 32, 0), 'ly': (4, 32, 0), 'lg': (8, 64, 0), 'lgb': (1, 64, 1), 'lgh': (2, 64, 1), 'lgf': (4, 64, 1), 'llc': (1, 32, 0), 'llh': (2, 32, 0), 'llgc': (1, 64, 0), 'llgh': (2, 64, 0), 'llgf': (4, 64, 0)}
        if mn in T: return self.load(*T[mn])
        S = {'stc': 1, 'stcy': 1, 'sth': 2, 'sthy': 2, 'st': 4, 'sty': 4, 'stg': 8}
        if mn in S: return self.store(S[mn])
        C = {'cs': 4, 'csy': 4, 'csg': 8, 'cdsg': 16}
        if mn in C: return self.cas(C[mn])
        E = {'llcr': (8, 0, 32), 'llhr': (16, 0, 32), 'llgcr': (8, 0, 64), 'llghr': (16, 0, 64), 'llgfr': (32, 0, 64), 'lbr': (8, 1, 32), 'lhr': (16, 1, 32), 'lgbr': (8, 1, 64), 'lghr': (16, 1, 64), 'lgfr': (32, 1, 64)}
        if mn in E: return self.extend(*E[mn])
        if mn in ('cr', 'cgr', 'clr', 'clgr'): return self.cmp(64 if 'g' in mn else 32, 'l' not in mn)
        L = {'nr': ('and', 32), 'or': ('or', 32), 'xr': ('xor', 32), 'ngr': ('and', 64), 'ogr': ('or', 64), 'xgr': ('xor', 64)}
        if mn in L: return self.logic(*L[mn])
        return None
    def insn_feature(self, i): return 'fast-serialization' if i.mn == 'bcr' and i.ops[0].strip() == '14' else ''

def make(cfg, L): return S390(cfg, L)
