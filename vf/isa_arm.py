"""Arm (A32, T32, Thumb-1 subset; Armv4T to Armv8) semantics for the inline assembly blocks, with the Linux kernel
user helpers that pre-v7 code calls."""
import re, z3
from .symex import *
from .isa_base import Base, OPERAND
from .isa_aarch64 import A64, COND

SZ = {'b': 1, 'h': 2, '': 4, 'd': 8}
HELPERS = {0xFFFF0FA0: 'barrier', 0xFFFF0FC0: 'cmpxchg', 0xFFFF0F60: 'cmpxchg64'}
ALU = {'add': 'add', 'sub': 'sub', 'rsb': 'rsb', 'and': 'and', 'orr': 'or', 'eor': 'xor', 'bic': 'bic', 'lsl': 'shl', 'lsr': 'lshr', 'asr': 'ashr'}

class Arm(Base):
    comments = ('@', '//')
    names = dict([('r%d' % i, 'r%d' % i) for i in range(16)] + [('sp', 'r13'), ('lr', 'r14'), ('pc', 'r15'), ('ip', 'r12'), ('fp', 'r11'), ('sl', 'r10'), ('sb', 'r9')])
    unallocatable = {'r13', 'r15'}
    flagnames = ('n', 'z', 'c', 'v')
    clobflags = {'cc': 'nzcv', 'cpsr': 'nzcv'}
    setflags = A64.setflags; logflags = A64.logflags; cond = A64.cond
    # __kuser_helper_version: at least 5 (Linux 3.1), what the 64-bit operations document as their requirement
    def __init__(self, cfg, L):
        super().__init__(cfg, L)
        self.thumb1 = 'thumbv6m' in cfg.target or 'v8m.base' in cfg.target
        self.key = 'arm%s%s%s' % ('be' if self.be else '', '-t1' if self.thumb1 else '', '-t' if cfg.target.startswith('thumb') else '')
        self.rom = {0xFFFF0FFC: 4}
    def rom_assume(self, st, a, v):
        st.assume(v >= 5)
    def regclass(self, code, t, L):
        if code not in 'rlh': raise Unsupported('constraint %s' % code)
        hi = 8 if self.thumb1 or code == 'l' else 13
        return {'r%d' % i for i in range(hi)} | ({'r14'} if hi == 13 else set())
    def exec(self, m, i):
        ret = m.x.pop('ret', None)
        if i.mn == 'bx':
            if not ret: raise Unsupported('bx without a return address')
            return self.call(m, i, i.ops)
        return super().exec(m, i)
    # ---- moves and arithmetic
    def op2(self, m, toks):
        t = toks[0]
        v = self.imm(t) & mask(32) if self.isimm(t) else self.rd(m, t)
        if len(toks) > 1:
            M = re.fullmatch(r'(lsl|lsr|asr)\s+(.+)', toks[1].strip().lower())
            if not M: raise Unsupported('operand %s' % toks)
            v = self.shift(ALU[M.group(1)], v, self.imm(M.group(2)) if self.isimm(M.group(2)) else self.rd(m, M.group(2)))
        return v
    def shift(self, op, v, n):
        """the low byte of the amount counts; 32 and more shift everything out"""
        n = ext(n, 7, 0, 32)
        if is_int(n): return binop(op, v, min(n, 31) if op == 'ashr' else n, 32) if n < 32 or op == 'ashr' else 0
        big = z3.simplify(z3.UGE(bv(n, 8), z3.BitVecVal(32, 8)))
        return ite(big, sext(ext(v, 31, 31, 32), 1, 32) if op == 'ashr' else 0, binop(op, v, zext(n, 8, 32), 32), 32)
    def i_mov(self, m, i, o):
        if o[1].strip().lower() == 'pc':
            if o[0].strip().lower() != 'lr': raise Unsupported(i.text)
            self.wr(m, o[0], fresh('retaddr', 32)); m.x['ret'] = True
            return
        self.wr(m, o[0], self.op2(m, o[1:]))
    def i_movs(self, m, i, o):
        v = self.op2(m, o[1:]); self.nz(m, v); self.wr(m, o[0], v)
    def nz(self, m, v):
        m.flags['z'] = eq(v, 0, 32); m.flags['n'] = eq(ext(v, 31, 31, 32), 1, 1)
    def i_mvn(self, m, i, o): self.wr(m, o[0], binop('xor', self.op2(m, o[1:]), mask(32), 32))
    def i_mvns(self, m, i, o): v = binop('xor', self.op2(m, o[1:]), mask(32), 32); self.nz(m, v); self.wr(m, o[0], v)
    def alu(self, op, s):
        def f(m, i, o):
            if len(o) == 2: o = [o[0]] + o
            a = self.rd(m, o[1]); b = self.op2(m, o[2:])
            if op in ('add', 'sub', 'rsb'):
                if op == 'rsb': a, b = b, a
                v = self.setflags(m, a, b, 32, op != 'add') if s else binop('add' if op == 'add' else 'sub', a, b, 32)
            else:
                if op in ('shl', 'lshr', 'ashr'):
                    v = self.shift(op, a, b)
                    if s: m.flags['c'] = freshb('shc')
                else:
                    v = binop('and', a, binop('xor', b, mask(32), 32), 32) if op == 'bic' else binop(op, a, b, 32)
                    if s and len(o) > 3: m.flags['c'] = freshb('shc')
                if s: self.nz(m, v)
            self.wr(m, o[0], v)
        return f
    def i_cmp(self, m, i, o): self.setflags(m, self.rd(m, o[0]), self.op2(m, o[1:]), 32, True)
    def i_cmn(self, m, i, o): self.setflags(m, self.rd(m, o[0]), self.op2(m, o[1:]), 32, False)
    def i_tst(self, m, i, o): self.nz(m, binop('and', self.rd(m, o[0]), self.op2(m, o[1:]), 32))
    def i_teq(self, m, i, o): self.nz(m, binop('xor', self.rd(m, o[0]), self.op2(m, o[1:]), 32))
    def i_b(self, m, i, o): return [(m, o[0])]
    def i_cbz(self, m, i, o): return self.branch(m, eq(self.rd(m, o[0]), 0, 32), o[1])
    def i_cbnz(self, m, i, o): return self.branch(m, NOT(eq(self.rd(m, o[0]), 0, 32)), o[1])
    # ---- barriers
    def i_dmb(self, m, i, o):
        k = (o[0].strip().lower() if o else 'sy')
        if k in ('ish', 'sy'): m.fence_event(full=1, dmb='full')
        elif k in ('ishst', 'st'): m.fence_event(dmb='st')
        elif k in ('ishld', 'ld'): m.fence_event(dmb='ld')
        else: m.st.violate('mem', 'barrier %s does not reach the other processors' % i.text); m.fence = True
    i_dsb = i_dmb
    def i_isb(self, m, i, o): m.fence = True
    def i_mcr(self, m, i, o):
        if [x.strip().lower().lstrip('#') for x in o[:2] + o[3:]] != ['p15', '0', 'c7', 'c10', '5']: raise Unsupported(i.text)
        z = eq(self.rd(m, o[2]), 0, 32)
        if z is not True: m.st.violate('ub', 'the register of the CP15 barrier is not zero', NOT(z))
        m.fence_event(full=1, dmb='full')
    def i_clrex(self, m, i, o): m.st.excl = None
    # ---- kernel user helpers
    def i_blx(self, m, i, o):
        m2 = self.call(m, i, o, True)
        return m2
    def call(self, m, i, o, link=False):
        t = self.rd(m, o[0]); out = []
        if link: self.wr(m, 'lr', fresh('retaddr', 32))
        if is_int(t): cand = [(t, m)]
        else:
            cand = []
            for a in HELPERS:
                m2 = m.fork(); c = eq(t, a, 32)
                if m2.st.feasible(zb(c)) is not None: m2.st.assume(c); cand.append((a, m2))
            m.st.violate('mem', 'the asm calls an address that is no kernel helper', AND(*[NOT(eq(t, a, 32)) for a in HELPERS]))
        for a, m2 in cand:
            h = HELPERS.get(a)
            if h is None:
                m2.st.violate('mem', 'the asm calls %s, which is no kernel helper' % (hex(a) if is_int(a) else a)); m2.ended = True; m2.st.status = 'ub'; m2.st.info = 'call'
                out.append((m2, None)); continue
            out += getattr(self, 'k_' + h)(m2)
        return out
    def junk(self, m, *regs):
        for r in regs: self.wr(m, r, fresh('kuser_' + r, 32))
        for f in 'nzcv': m.flags[f] = freshb('kuser_' + f)
    def k_barrier(self, m):
        m.fence_event(full=1, dmb='full'); return [(m, None)]
    def k_cmpxchg(self, m):
        old, new, p = self.rd(m, 'r0'), self.rd(m, 'r1'), self.rd(m, 'r2')
        return self.cas(m, p, 4, old, new, ('r3', 'ip'))
    def k_cmpxchg64(self, m):
        a, b, p = self.rd(m, 'r0'), self.rd(m, 'r1'), self.rd(m, 'r2')
        old = m.access(a, 8, 'R')
        if m.ended: return [(m, None)]
        new = m.access(b, 8, 'R')
        if m.ended: return [(m, None)]
        return self.cas(m, p, 8, old, new, ('r3',))
    def cas(self, m, p, n, old, new, clob):
        r = m.access(p, n, 'RMW', lambda c: ite(eq(c, old, 8 * n), new, c, 8 * n), cas=True, full=1, dmb='full')
        if m.ended: return [(m, None)]
        out = []
        for m2, ok in m.split(eq(r, old, 8 * n)):
            self.junk(m2, *clob, 'lr')
            m2.flags['c'] = bool(ok)
            if ok: self.wr(m2, 'r0', 0)
            else:
                x = fresh('kfail', 32); m2.st.assume(x != 0); self.wr(m2, 'r0', x)
            out.append((m2, None))
        return out
    # ---- memory
    def addr(self, m, s):
        M = re.fullmatch(r'\[\s*([^,\]]+?)\s*(?:,\s*#?(-?(?:0x[0-9a-fA-F]+|\d+)))?\s*\]', s.strip())
        if not M: raise Unsupported('address %r' % s.replace('\x01', '%'))
        a = self.rd(m, M.group(1))
        if M.group(2): a = binop('add', a, int(M.group(2), 0) & mask(32), 32)
        return a
    def pairregs(self, m, a, b, even=True):
        n = [self.reg(x.strip()) for x in (a, b)]
        if None in n: raise Unsupported('register pair %s %s' % (a, b))
        x, y = [int(k[0][1:]) for k in n]
        if even and not self.thumb_any and (x % 2 or y != x + 1 or x == 14): raise Unsupported('register pair %s, %s (would not assemble)' % (a, b))
        if x == y: raise Unsupported('register pair %s, %s' % (a, b))
    @property
    def thumb_any(self): return self.cfg.target.startswith('thumb')
    def join(self, a, b): return cat([(a, 32), (b, 32)]) if self.be else cat([(b, 32), (a, 32)])
    def halves(self, v):
        lo, hi = ext(v, 31, 0, 64), ext(v, 63, 32, 64); return (hi, lo) if self.be else (lo, hi)
    def ld(self, m, i, o, n, **x):
        r = m.access(self.addr(m, o[1]), n, 'R', **x)
        if not m.ended: self.wr(m, o[0], zext(r, 8 * n, 32))
    def st(self, m, i, o, n, **x):
        v = self.rd(m, o[0], 8 * n); m.access(self.addr(m, o[1]), n, 'W', lambda _: v, **x)
    def ldx(self, m, i, o, n, **x):
        r = m.ll(self.addr(m, o[1]), n, **x)
        if not m.ended: self.wr(m, o[0], zext(r, 8 * n, 32))
    def ldxd(self, m, i, o, **x):
        self.pairregs(m, o[0], o[1])
        r = m.ll(self.addr(m, o[2]), 8, **x)
        if m.ended: return
        a, b = self.halves(r); self.wr(m, o[0], a); self.wr(m, o[1], b)
    def stx(self, m, i, o, n, **x):
        base = o[-1].strip()[1:-1].split(',')[0]
        for q in o[1:-1] + [base]:
            if self.same(m, o[0], q): raise Unsupported('unpredictable: %s' % i.text)
            self.sharing(m, o[0], q, i.text)
        if n == 8: self.pairregs(m, o[1], o[2]); v = self.join(self.rd(m, o[1]), self.rd(m, o[2]))
        else: v = self.rd(m, o[1], 8 * n)
        out = []
        for m2, ok in m.sc(self.addr(m, o[-1]), n, v, **x):
            if not m2.ended: self.wr(m2, o[0], 0 if ok else 1)
            out.append((m2, None))
        return out
    def ldrd(self, m, i, o):
        self.pairregs(m, o[0], o[1]); a = self.addr(m, o[2])
        x = m.access(a, 4, 'R')
        if m.ended: return
        y = m.access(binop('add', a, 4, 32), 4, 'R')
        if not m.ended: self.wr(m, o[0], x); self.wr(m, o[1], y)
    def strd(self, m, i, o):
        self.pairregs(m, o[0], o[1]); a = self.addr(m, o[2]); x, y = self.rd(m, o[0]), self.rd(m, o[1])
        m.access(a, 4, 'W', lambda _: x)
        if not m.ended: m.access(binop('add', a, 4, 32), 4, 'W', lambda _: y)
    def lookup(self, i):
        mn = i.mn
        M = re.fullmatch(r'b(eq|ne|cs|hs|cc|lo|mi|pl|vs|vc|hi|ls|ge|lt|gt|le)(\.[nw])?', mn)
        if M: return lambda m, i, o: self.branch(m, self.cond(m, M.group(1)), o[0])
        M = re.fullmatch(r'(add|sub|rsb|and|orr|eor|bic|lsl|lsr|asr)(s?)', mn)
        if M: return self.alu(ALU[M.group(1)], bool(M.group(2)))
        if mn == 'ldrd': return self.ldrd
        if mn == 'strd': return self.strd
        M = re.fullmatch(r'ldr([bh]?)', mn)
        if M: return lambda m, i, o: self.ld(m, i, o, SZ[M.group(1)])
        M = re.fullmatch(r'str([bh]?)', mn)
        if M: return lambda m, i, o: self.st(m, i, o, SZ[M.group(1)])
        M = re.fullmatch(r'lda([bh]?)', mn)
        if M: return lambda m, i, o: self.ld(m, i, o, SZ[M.group(1)], A=1)
        M = re.fullmatch(r'stl([bh]?)', mn)
        if M: return lambda m, i, o: self.st(m, i, o, SZ[M.group(1)], L=1)
        M = re.fullmatch(r'ld(r|a)ex([bhd]?)', mn)
        if M:
            t = dict(A=M.group(1) == 'a')
            if M.group(2) == 'd': return lambda m, i, o: self.ldxd(m, i, o, **t)
            return lambda m, i, o: self.ldx(m, i, o, SZ[M.group(2)], **t)
        M = re.fullmatch(r'st(r|l)ex([bhd]?)', mn)
        if M: return lambda m, i, o: self.stx(m, i, o, SZ[M.group(2)], L=M.group(1) == 'l')
        M = re.fullmatch(r'(uxt|sxt)([bh])', mn)
        if M: return lambda m, i, o: self.wr(m, o[0], (zext if M.group(1) == 'uxt' else sext)(self.rd(m, o[1], 8 * SZ[M.group(2)]), 8 * SZ[M.group(2)], 32))
        return None
    def insn_feature(self, i):
        mn = i.mn
        if re.fullmatch(r'(ldr|str)ex[bhd]?', mn): return 'v6'
        if re.fullmatch(r'lda(ex)?[bhd]?|stl(ex)?[bhd]?', mn): return 'acquire-release'
        if mn == 'clrex': return 'v6k|v7|v8m'
        if mn in ('dmb', 'dsb', 'isb'): return 'v7|v6m|v8m|mclass'
        if mn in ('ldrd', 'strd', 'blx'): return 'v5te'
        return ''

def make(cfg, L): return Arm(cfg, L)
