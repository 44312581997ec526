"""AArch64 (A64) semantics for the inline assembly blocks."""
import re, z3
from .symex import *
from .isa_base import Base, OPERAND

COND = {'eq': lambda f: f['z'], 'ne': lambda f: NOT(f['z']), 'cs': lambda f: f['c'], 'hs': lambda f: f['c'], 'cc': lambda f: NOT(f['c']), 'lo': lambda f: NOT(f['c']),
        'mi': lambda f: f['n'], 'pl': lambda f: NOT(f['n']), 'vs': lambda f: f['v'], 'vc': lambda f: NOT(f['v']),
        'hi': lambda f: AND(f['c'], NOT(f['z'])), 'ls': lambda f: OR(NOT(f['c']), f['z']),
        'ge': lambda f: NOT(z3.Xor(zb(f['n']), zb(f['v']))), 'lt': lambda f: z3.Xor(zb(f['n']), zb(f['v'])),
        'gt': lambda f: AND(NOT(f['z']), NOT(z3.Xor(zb(f['n']), zb(f['v'])))), 'le': lambda f: OR(f['z'], z3.Xor(zb(f['n']), zb(f['v']))), 'al': lambda f: True}

class A64(Base):
    bits = 64
    names = dict([('x%d' % i, 'x%d' % i) for i in range(31)] + [('w%d' % i, 'x%d' % i) for i in range(31)] + [('sp', 'sp'), ('lr', 'x30'), ('fp', 'x29')] + [('v%d' % i, 'v%d' % i) for i in range(32)] + [('d%d' % i, 'v%d' % i) for i in range(32)] + [('q%d' % i, 'v%d' % i) for i in range(32)])
    zero = ('xzr', 'wzr')
    unallocatable = {'sp', 'x29', 'x19', 'x18'}
    flagnames = ('n', 'z', 'c', 'v')
    clobflags = {'cc': 'nzcv', 'nzcv': 'nzcv', 'flags': 'nzcv'}
    def __init__(self, cfg, L):
        super().__init__(cfg, L); self.key = 'aarch64' + ('be' if self.be else '') + str(self.ptrw)
        self.feats = set(f[1:] for f in cfg.feats.split(',') if f.startswith('+'))
        self.lse2 = 'lse2' in self.feats
        self.key += '+lse2' if self.lse2 else ''
    def width(self, key): return 128 if key[0] == 'v' else 64
    def is_vec(self, key): return key[0] == 'v'
    def cellwidth(self, con, L, t):
        if con.fixed is not None:
            r = self.reg(con.fixed)
            if r is None: raise Unsupported('register ' + con.fixed)
            return self.width(r[0]), self.is_vec(r[0])
        if con.code == 'r': return 64, False
        if con.code in ('w', 'x'): return 128, True
        raise Unsupported('constraint %s' % con.code)
    def regclass(self, code, t, L):
        if code == 'r': return {'x%d' % i for i in range(31) if i not in (18, 19, 29)}
        return {'v%d' % i for i in range(32)}
    # ---- operands: (cell|None, width)
    def w_of(self, m, s):
        s = s.strip()
        mm = OPERAND.fullmatch(s)
        if mm:
            md = mm.group(2)
            if md == 'w': return 32
            if md in ('x', ''): return 64
            raise Unsupported('modifier ' + md)
        return 32 if s.lower()[0] == 'w' else 64
    def g(self, m, s):
        return self.rd(m, s, self.w_of(m, s))
    def p(self, m, s, v, w=None):
        w = w or self.w_of(m, s)
        self.wr(m, s, v if w == 64 else zext(v, w, 64))
    def addr(self, m, s):
        s = s.strip()
        mm = re.fullmatch(r'\[\s*([^,\]]+?)\s*(?:,\s*#?(-?(?:0x[0-9a-fA-F]+|\d+)))?\s*\]', s)
        if not mm: raise Unsupported('address %r' % s.replace('\x01', '%'))
        if self.w_of(m, mm.group(1)) != 64: raise Unsupported('32-bit address register')
        a = self.rd(m, mm.group(1))
        if mm.group(2): a = binop('add', a, int(mm.group(2), 0) & mask(64), 64)
        return self.toptr(m, a, 64)
    def op2(self, m, toks, w):
        """second operand with an optional extension or shift"""
        t = toks[0]
        if self.isimm(t): v = self.imm(t) & mask(w)
        else:
            v = self.rd(m, t, w)
        if len(toks) > 1:
            mod = toks[1].split()
            sh = self.imm(mod[1]) if len(mod) > 1 else 0
            k = mod[0].lower()
            if k in ('uxtb', 'uxth', 'uxtw', 'uxtx', 'sxtb', 'sxth', 'sxtw'):
                n = {'b': 8, 'h': 16, 'w': 32, 'x': 64}[k[3]]
                if n < w: v = (zext if k[0] == 'u' else sext)(ext(v, n - 1, 0, w), n, w)
                v = binop('shl', v, sh, w)
            elif k in ('lsl', 'lsr', 'asr'): v = binop({'lsl': 'shl', 'lsr': 'lshr', 'asr': 'ashr'}[k], v, sh, w)
            else: raise Unsupported('operand %s' % toks)
        return v
    def setflags(self, m, a, b, w, sub):
        A, B = bv(a, w), bv(b, w); X = lambda v: z3.ZeroExt(1, v)
        if sub: r = z3.simplify(A - B); c = z3.UGE(A, B); v = z3.Extract(w-1, w-1, (A ^ B) & (A ^ r)) == 1
        else: r = z3.simplify(A + B); c = z3.Extract(w, w, X(A) + X(B)) == 1; v = z3.Extract(w-1, w-1, ~(A ^ B) & (A ^ r)) == 1
        f = m.flags
        f['z'] = eq(r, 0, w); f['n'] = eq(ext(norm(r), w-1, w-1, w), 1, 1); f['c'] = z3.simplify(c); f['v'] = z3.simplify(v)
        return norm(r)
    def logflags(self, m, r, w):
        f = m.flags; f['z'] = eq(r, 0, w); f['n'] = eq(ext(r, w-1, w-1, w), 1, 1); f['c'] = False; f['v'] = False
    def cond(self, m, c): return COND[c.lower()](m.flags)
    # ---- moves and arithmetic
    def i_mov(self, m, i, o):
        w = self.w_of(m, o[0])
        self.p(m, o[0], self.imm(o[1]) & mask(w) if self.isimm(o[1]) else self.g(m, o[1]))
    def i_movz(self, m, i, o): self.p(m, o[0], self.op2(m, o[1:], self.w_of(m, o[0])))
    def i_mvn(self, m, i, o): w = self.w_of(m, o[0]); self.p(m, o[0], binop('xor', self.op2(m, o[1:], w), mask(w), w))
    def i_neg(self, m, i, o): w = self.w_of(m, o[0]); self.p(m, o[0], binop('sub', 0, self.op2(m, o[1:], w), w))
    def alu(self, op):
        def f(m, i, o): w = self.w_of(m, o[0]); self.p(m, o[0], binop(op, self.g(m, o[1]), self.op2(m, o[2:], w), w))
        return f
    def i_bic(self, m, i, o): w = self.w_of(m, o[0]); self.p(m, o[0], binop('and', self.g(m, o[1]), binop('xor', self.op2(m, o[2:], w), mask(w), w), w))
    def i_adds(self, m, i, o): w = self.w_of(m, o[0]); self.p(m, o[0], self.setflags(m, self.g(m, o[1]), self.op2(m, o[2:], w), w, False))
    def i_subs(self, m, i, o): w = self.w_of(m, o[0]); self.p(m, o[0], self.setflags(m, self.g(m, o[1]), self.op2(m, o[2:], w), w, True))
    def i_ands(self, m, i, o):
        w = self.w_of(m, o[0]); r = binop('and', self.g(m, o[1]), self.op2(m, o[2:], w), w); self.logflags(m, r, w); self.p(m, o[0], r)
    def i_cmp(self, m, i, o): w = self.w_of(m, o[0]); self.setflags(m, self.g(m, o[0]), self.op2(m, o[1:], w), w, True)
    def i_cmn(self, m, i, o): w = self.w_of(m, o[0]); self.setflags(m, self.g(m, o[0]), self.op2(m, o[1:], w), w, False)
    def i_tst(self, m, i, o): w = self.w_of(m, o[0]); self.logflags(m, binop('and', self.g(m, o[0]), self.op2(m, o[1:], w), w), w)
    def i_ccmp(self, m, i, o):
        w = self.w_of(m, o[0]); c = self.cond(m, o[3]); k = self.imm(o[2])
        self.setflags(m, self.g(m, o[0]), self.op2(m, [o[1]], w), w, True)
        for j, f in enumerate('vczn'): m.flags[f] = z3.simplify(z3.If(zb(c), zb(m.flags[f]), z3.BoolVal(bool(k >> j & 1))))
    def i_cset(self, m, i, o): w = self.w_of(m, o[0]); self.p(m, o[0], ite(zb(self.cond(m, o[1])), 1, 0, w))
    def i_csetm(self, m, i, o): w = self.w_of(m, o[0]); self.p(m, o[0], ite(zb(self.cond(m, o[1])), mask(w), 0, w))
    def i_cinc(self, m, i, o):
        w = self.w_of(m, o[0]); v = self.g(m, o[1]); self.p(m, o[0], ite(zb(self.cond(m, o[2])), binop('add', v, 1, w), v, w))
    def i_csel(self, m, i, o): w = self.w_of(m, o[0]); self.p(m, o[0], ite(zb(self.cond(m, o[3])), self.g(m, o[1]), self.g(m, o[2]), w))
    def i_csinc(self, m, i, o): w = self.w_of(m, o[0]); self.p(m, o[0], ite(zb(self.cond(m, o[3])), self.g(m, o[1]), binop('add', self.g(m, o[2]), 1, w), w))
    def xt(self, n, sx):
        def f(m, i, o):
            w = self.w_of(m, o[0]); self.p(m, o[0], (sext if sx else zext)(self.rd(m, o[1], n), n, w))
        return f
    # ---- control
    def i_b(self, m, i, o): return [(m, o[0])]
    def i_cbz(self, m, i, o): return self.branch(m, eq(self.g(m, o[0]), 0, self.w_of(m, o[0])), o[1])
    def i_cbnz(self, m, i, o): return self.branch(m, NOT(eq(self.g(m, o[0]), 0, self.w_of(m, o[0]))), o[1])
    def tb(self, m, o, want):
        k = self.imm(o[1]); return self.branch(m, eq(ext(self.rd(m, o[0]), k, k, 64), want, 1), o[2])
    def i_tbz(self, m, i, o): return self.tb(m, o, 0)
    def i_tbnz(self, m, i, o): return self.tb(m, o, 1)
    # ---- barriers
    def i_dmb(self, m, i, o):
        k = {'ish': 'full', 'sy': 'full', 'ishld': 'ld', 'ld': 'ld', 'ishst': 'st', 'st': 'st'}.get(o[0].lower())
        if k is None: m.st.violate('mem', 'barrier %s does not reach the other processors' % i.text); m.fence = True; return
        m.fence_event(dmb=k)
    i_dsb = i_dmb
    def i_isb(self, m, i, o): m.fence = True
    def i_clrex(self, m, i, o): m.st.excl = None
    def i_yield(self, m, i, o): pass
    # ---- memory
    SZ = {'b': 1, 'h': 2, '': 0}
    def ld(self, m, i, o, n, **x):
        w = self.w_of(m, o[0]); n = n or w // 8
        if n * 8 > w: raise Unsupported('register size')
        r = m.access(self.addr(m, o[1]), n, 'R', **x)
        if not m.ended: self.p(m, o[0], zext(r, 8*n, w))
    def st(self, m, i, o, n, **x):
        w = self.w_of(m, o[0]); n = n or w // 8
        v = self.rd(m, o[0], 8*n)
        m.access(self.addr(m, o[1]), n, 'W', lambda _: v, **x)
    def ldx(self, m, i, o, n, **x):
        w = self.w_of(m, o[0]); n = n or w // 8
        r = m.ll(self.addr(m, o[1]), n, **x)
        if not m.ended: self.p(m, o[0], zext(r, 8*n, w))
    def stx(self, m, i, o, n, **x):
        w = self.w_of(m, o[1]); n = n or w // 8
        if self.same(m, o[0], o[1]) or self.same(m, o[0], o[2].strip()[1:-1]): raise Unsupported('constrained unpredictable: %s' % i.text)
        v = self.rd(m, o[1], 8*n); out = []
        for m2, ok in m.sc(self.addr(m, o[2]), n, v, **x):
            if not m2.ended: self.p(m2, o[0], 0 if ok else 1, 32)
            out.append((m2, None))
        return out
    def ldxp(self, m, i, o, **x):
        w = self.w_of(m, o[0]); n = w // 8
        if n != 8: raise Unsupported('32-bit ldxp')
        if self.same(m, o[0], o[1]): raise Unsupported('constrained unpredictable: %s' % i.text)
        r = m.ll_pair(self.addr(m, o[2]), n, **x)
        if m.ended: return
        self.p(m, o[0], r[0]); self.p(m, o[1], r[1])
    def pair(self, lo, hi): return cat([(lo, 64), (hi, 64)]) if self.be else cat([(hi, 64), (lo, 64)])
    def halves(self, v): a, b = ext(v, 63, 0, 128), ext(v, 127, 64, 128); return (b, a) if self.be else (a, b)
    def stxp(self, m, i, o, **x):
        w = self.w_of(m, o[1])
        if w != 64: raise Unsupported('32-bit stxp')
        for k in (1, 2):
            if self.same(m, o[0], o[k]): raise Unsupported('constrained unpredictable: %s' % i.text)
            self.sharing(m, o[0], o[k], i.text)
        self.sharing(m, o[0], o[3].strip()[1:-1], i.text)
        v = self.pair(self.rd(m, o[1]), self.rd(m, o[2])); out = []
        for m2, ok in m.sc(self.addr(m, o[3]), 16, v, **x):
            if not m2.ended: self.p(m2, o[0], 0 if ok else 1, 32)
            out.append((m2, None))
        return out
    def ldp(self, m, i, o, single, **x):
        if self.w_of(m, o[0]) != 64: raise Unsupported('32-bit pair')
        a = self.addr(m, o[2])
        if single:
            r = m.access(a, 16, 'R', **x)
            if m.ended: return
            lo, hi = self.halves(r)
        else:
            lo = m.access(a, 8, 'R', **x)
            if m.ended: return
            hi = m.access(binop('add', a, 8, self.ptrw), 8, 'R', **x)
            if m.ended: return
        self.p(m, o[0], lo); self.p(m, o[1], hi)
    def stp(self, m, i, o, single, **x):
        if self.w_of(m, o[0]) != 64: raise Unsupported('32-bit pair')
        a = self.addr(m, o[2]); lo, hi = self.rd(m, o[0]), self.rd(m, o[1])
        if single: m.access(a, 16, 'W', lambda _: self.pair(lo, hi), **x)
        else:
            m.access(a, 8, 'W', lambda _: lo, **x)
            if not m.ended: m.access(binop('add', a, 8, self.ptrw), 8, 'W', lambda _: hi, **x)
    def swp(self, m, i, o, n, **x):
        w = self.w_of(m, o[0]); n = n or w // 8; v = self.rd(m, o[0], 8*n)
        r = m.access(self.addr(m, o[2]), n, 'RMW', lambda _: v, **x)
        if not m.ended: self.p(m, o[1], zext(r, 8*n, w))
    def amo(self, m, i, o, n, fn, **x):
        w = self.w_of(m, o[0]); n = n or w // 8; v = self.rd(m, o[0], 8*n)
        r = m.access(self.addr(m, o[2]), n, 'RMW', lambda old: fn(old, v, 8*n), **x)
        if not m.ended: self.p(m, o[1], zext(r, 8*n, w))
    def cas(self, m, i, o, n, **x):
        w = self.w_of(m, o[0]); n = n or w // 8; c = self.rd(m, o[0], 8*n); v = self.rd(m, o[1], 8*n)
        r = m.access(self.addr(m, o[2]), n, 'RMW', lambda old: ite(eq(old, c, 8*n), v, old, 8*n), cas=True, **x)
        if not m.ended: self.p(m, o[0], zext(r, 8*n, w))
    def casp(self, m, i, o, **x):
        for a, b in ((0, 1), (2, 3)):
            ka, kb = [m.cells[self.cell(m, o[j])].fixed for j in (a, b)]
            if ka is None or kb is None: raise Unsupported('casp needs fixed registers')
            na, nb = int(ka[1:]), int(kb[1:])
            if na % 2 or nb != na + 1: raise Unsupported('casp register pair (would not assemble)')
        c = self.pair(self.rd(m, o[0]), self.rd(m, o[1])); v = self.pair(self.rd(m, o[2]), self.rd(m, o[3]))
        r = m.access(self.addr(m, o[4]), 16, 'RMW', lambda old: ite(eq(old, c, 128), v, old, 128), cas=True, **x)
        if m.ended: return
        lo, hi = self.halves(r); self.p(m, o[0], lo); self.p(m, o[1], hi)
    def swpp(self, m, i, o, **x):
        v = self.pair(self.rd(m, o[0]), self.rd(m, o[1]))
        r = m.access(self.addr(m, o[2]), 16, 'RMW', lambda _: v, **x)
        if m.ended: return
        lo, hi = self.halves(r); self.p(m, o[0], lo); self.p(m, o[1], hi)
    ALU = {'add': 'add', 'sub': 'sub', 'and': 'and', 'orr': 'or', 'eor': 'xor', 'lsl': 'shl', 'lsr': 'lshr', 'asr': 'ashr', 'mul': 'mul'}
    AMO = {'add': lambda a, b, w: binop('add', a, b, w), 'clr': lambda a, b, w: binop('and', a, binop('xor', b, mask(w), w), w), 'set': lambda a, b, w: binop('or', a, b, w), 'eor': lambda a, b, w: binop('xor', a, b, w)}
    def lookup(self, i):
        mn = i.mn
        if mn in self.ALU: return self.alu(self.ALU[mn])
        if mn in ('uxtb', 'uxth', 'uxtw', 'sxtb', 'sxth', 'sxtw'): return self.xt({'b': 8, 'h': 16, 'w': 32}[mn[3]], mn[0] == 's')
        if mn.startswith('b.') and mn[2:] in COND:
            return lambda m, i, o: self.branch(m, self.cond(m, mn[2:]), o[0])
        if mn in ('beq', 'bne'): return lambda m, i, o: self.branch(m, self.cond(m, mn[1:]), o[0])
        M = re.fullmatch(r'ld(u?)r([bh]?)', mn)
        if M: return lambda m, i, o: self.ld(m, i, o, self.SZ[M.group(2)])
        M = re.fullmatch(r'st(u?)r([bh]?)', mn)
        if M: return lambda m, i, o: self.st(m, i, o, self.SZ[M.group(2)])
        M = re.fullmatch(r'lda(p?)r([bh]?)', mn)
        if M: return lambda m, i, o: self.ld(m, i, o, self.SZ[M.group(2)], **({'Q': 1} if M.group(1) else {'A': 1}))
        M = re.fullmatch(r'stlr([bh]?)', mn)
        if M: return lambda m, i, o: self.st(m, i, o, self.SZ[M.group(1)], L=1)
        M = re.fullmatch(r'ld(a?)xr([bh]?)', mn)
        if M: return lambda m, i, o: self.ldx(m, i, o, self.SZ[M.group(2)], A=bool(M.group(1)))
        M = re.fullmatch(r'st(l?)xr([bh]?)', mn)
        if M:
            def f(m, i, o):
                self.sharing(m, o[0], o[1], i.text); self.sharing(m, o[0], o[2].strip()[1:-1], i.text)
                return self.stx(m, i, o, self.SZ[M.group(2)], L=bool(M.group(1)))
            return f
        M = re.fullmatch(r'ld(a?)xp', mn)
        if M: return lambda m, i, o: self.ldxp(m, i, o, A=bool(M.group(1)))
        M = re.fullmatch(r'st(l?)xp', mn)
        if M: return lambda m, i, o: self.stxp(m, i, o, L=bool(M.group(1)))
        if mn in ('ldp', 'ldnp'): return lambda m, i, o: self.ldp(m, i, o, self.lse2)
        if mn in ('stp', 'stnp'): return lambda m, i, o: self.stp(m, i, o, self.lse2)
        if mn == 'ldiapp': return lambda m, i, o: self.ldp(m, i, o, self.lse2, Q=1)
        if mn == 'stilp': return lambda m, i, o: self.stp(m, i, o, self.lse2, L=1)
        M = re.fullmatch(r'swp(a?)(l?)([bh]?)', mn)
        if M: return lambda m, i, o: self.swp(m, i, o, self.SZ[M.group(3)], A=self.acq(m, o[1], M.group(1)), L=bool(M.group(2)))
        M = re.fullmatch(r'cas(a?)(l?)([bh]?)', mn)
        if M: return lambda m, i, o: self.cas(m, i, o, self.SZ[M.group(3)], A=bool(M.group(1)), L=bool(M.group(2)))
        M = re.fullmatch(r'casp(a?)(l?)', mn)
        if M: return lambda m, i, o: self.casp(m, i, o, A=bool(M.group(1)), L=bool(M.group(2)))
        M = re.fullmatch(r'swpp(a?)(l?)', mn)
        if M: return lambda m, i, o: self.swpp(m, i, o, A=bool(M.group(1)), L=bool(M.group(2)))
        M = re.fullmatch(r'ld(add|clr|set|eor)(a?)(l?)([bh]?)', mn)
        if M: return lambda m, i, o: self.amo(m, i, o, self.SZ[M.group(4)], self.AMO[M.group(1)], A=self.acq(m, o[1], M.group(2)), L=bool(M.group(3)))
        return None
    def acq(self, m, dst, a):
        """acquire semantics are lost when the destination is the zero register"""
        return bool(a) and dst.strip().lower() not in self.zero
    def insn_feature(self, i):
        mn = i.mn
        if re.fullmatch(r'casp?a?l?[bh]?|swpa?l?[bh]?|ld(add|clr|set|eor)a?l?[bh]?', mn): return 'lse'
        if re.fullmatch(r'ldapr[bh]?', mn): return 'rcpc'
        if mn in ('ldiapp', 'stilp'): return 'rcpc3'
        if mn.startswith('swpp'): return 'lse128'
        return ''

def make(cfg, L): return A64(cfg, L)
