"""x86 / x86_64 semantics (Intel syntax) for the inline assembly blocks."""
import re, z3
from .symex import *

GPR = ['ax', 'bx', 'cx', 'dx', 'si', 'di', 'bp', 'sp']
NUM = ['r%d' % i for i in range(8, 16)]
CC = {'e': 'z', 'z': 'z', 'ne': '!z', 'nz': '!z', 'c': 'c', 'b': 'c', 'nae': 'c', 'nc': '!c', 'ae': '!c', 'nb': '!c', 's': 's', 'ns': '!s', 'o': 'o', 'no': '!o', 'p': 'p', 'np': '!p', 'pe': 'p', 'po': '!p'}
SIZES = {'byte': 1, 'word': 2, 'dword': 4, 'qword': 8, 'xmmword': 16, 'mmword': 8, 'tbyte': 10, 'oword': 16}

class Reg:
    __slots__ = ('cell', 'lo', 'w', 'text')
    def __init__(s, cell, lo, w, text): s.cell, s.lo, s.w, s.text = cell, lo, w, text
class Imm:
    __slots__ = ('v',)
    def __init__(s, v): s.v = v
class Mem:
    __slots__ = ('parts', 'disp', 'size')
    def __init__(s): s.parts = []; s.disp = 0; s.size = None
class Sym:
    __slots__ = ('s',)
    def __init__(s, t): s.s = t
class Insn:
    __slots__ = ('mn', 'lock', 'ops', 'text')
    def __repr__(s): return s.text

class X86:
    pure_values = False
    key = 'x86'
    sep = ';'
    def __init__(self, bits, ptrw=None):
        self.bits = bits; self.key = 'x86-%d' % bits
        self.ptrw = ptrw or bits
        self.names = {}
        p = 'r' if bits == 64 else 'e'
        for g in GPR:
            self.names[g] = (g, 0, 16); self.names['e' + g] = (g, 0, 32)
            if bits == 64: self.names['r' + g] = (g, 0, 64)
        for g in 'abcd':
            self.names[g + 'l'] = (g + 'x', 0, 8); self.names[g + 'h'] = (g + 'x', 8, 8)
        if bits == 64:
            for g in ('si', 'di', 'bp', 'sp'): self.names[g + 'l'] = (g, 0, 8)
            for r in NUM:
                self.names[r] = (r, 0, 64); self.names[r + 'd'] = (r, 0, 32); self.names[r + 'w'] = (r, 0, 16); self.names[r + 'b'] = (r, 0, 8)
        for i in range(16 if bits == 64 else 8):
            self.names['xmm%d' % i] = ('xmm%d' % i, 0, 128)
        for i in range(8):
            self.names['st(%d)' % i] = ('st%d' % i, 0, 80); self.names['mm%d' % i] = ('mm%d' % i, 0, 64)
        self.names['st'] = ('st0', 0, 80)
        self.gprs = {g for g in GPR if g not in ('sp', 'bp')} | (set(NUM) if bits == 64 else set())
        self.unallocatable = {'sp', 'bp'} | {'st%d' % i for i in range(8)}
    # ---- register description
    def reg(self, name): return self.names.get(name.lower())
    def width(self, key):
        if key.startswith('xmm'): return 128
        if key.startswith('st'): return 80
        if key.startswith('mm'): return 64
        return self.bits
    def is_vec(self, key): return key.startswith('xmm')
    def cellwidth(self, con, L, t):
        if con.fixed is not None:
            r = self.reg(con.fixed)
            if r is None: raise Unsupported('register ' + con.fixed)
            return self.width(r[0]), self.is_vec(r[0])
        if con.code in ('x', 'v'): return 128, True
        if con.code in ('r', 'q', 'Q', 'R', 'l'): return self.bits, False
        raise Unsupported('constraint ' + str(con.code))
    def regclass(self, code, t, L):
        if code in ('x', 'v'): return {'xmm%d' % i for i in range(16 if self.bits == 64 else 8)}
        if code == 'Q' or (code == 'q' and self.bits == 32): return {'ax', 'bx', 'cx', 'dx'}
        return set(self.gprs)
    def widen(self, v, w, c, t):
        if w == c.w: return v
        if w > c.w: raise Unsupported('operand wider than register')
        return cat([(fresh('up', c.w - w), c.w - w), (v, w)])
    def narrow(self, v, c, w, t):
        if w > c.w: raise Unsupported('output wider than register')
        return ext(v, w - 1, 0, c.w)
    def special_init(self, m, key):
        if key == 'sp': return self.stack(m)
        return None
    def stack(self, m):
        st = m.st
        base = 0x60000000
        if 'STACK' not in st.mem:
            o = st.add_obj('STACK', -256, 64, base, 'stack')
            for off in range(-256, 64, 8): o.write(off, 8, fresh('stk%d' % off, 64), 0, False)
        m.x.setdefault('stack0', dict(st.mem['STACK'].chunks))
        return base
    def may_clobber(self, m, c): return False
    def flag_clobbers(self, clob):
        s = set()
        if 'flags' in clob or 'cc' in clob: s |= set('zcsopa')
        if 'fpsr' in clob or 'fpsw' in clob: s.add('fpsr')
        if 'dirflag' in clob: s.add('df')
        return s
    def flagwidth(self, f): return 1
    def begin(self, m, ins):
        for f in ('z', 'c', 's', 'o', 'p', 'a', 'df', 'fpsr'): m.flags[f] = freshb('fl_' + f)
        m.x['fpu'] = []      # pushed x87 values (top last)
        m.x['fpudepth'] = 0
        if 'inteldialect' not in ins.x['asm'][0]: m.x['att'] = True
    def end(self, m, ins, short):
        st = m.st
        if m.x['fpu']:
            st.violate('contract', 'asm block "%s" leaves %d values on the x87 stack' % (short, len(m.x['fpu'])))
        d = m.x['fpudepth']
        for i in range(d):
            k = 'st%d' % (7 - i)
            if k not in m.phys or not m.cells[m.phys[k]].out:
                st.violate('contract', 'asm block "%s" pushes on the x87 stack without declaring st(%d) clobbered' % (short, 7 - i))
        if 'sp' in m.phys:
            c = m.cells[m.phys['sp']]
            if eq(c.val, c.init, c.w) is not True: st.violate('contract', 'asm block "%s" changes the stack pointer' % short, NOT(eq(c.val, c.init, c.w)))
            o = st.mem['STACK']
            c0 = m.x['stack0']
            oo = type(o)('x', o.lo, o.hi, o.base, 'stack'); oo.chunks = dict(c0)
            low = 0 if not m.nostack else o.lo
            # with `nostack` everything incl. the red zone must be preserved; without it only [sp, ...)
            for off in range(low, o.hi):
                a, _ = o.read(off, 1, False); b, _ = oo.read(off, 1, False)
                if a is b: continue
                e = eq(a, b, 8)
                if e is not True:
                    st.violate('contract', 'asm block "%s" writes the stack (sp%+d)%s' % (short, off, ' although declared nostack' if off < 0 else ''), NOT(e)); break
    def strip_comment(self, l):
        for c in ('//', '#'):
            i = l.find(c)
            if i >= 0: l = l[:i]
        return l
    def is_insn(self, s): return False
    def directive(self, m, s):
        raise Unsupported('directive %s' % s)
    # ---- parsing
    def parse(self, s):
        i = Insn(); i.text = s.replace('\x01', '%'); i.lock = False
        toks = s.strip().split(None, 1)
        mn = toks[0].lower()
        while mn in ('lock', 'rep', 'repe', 'xacquire', 'xrelease', 'data16'):
            if mn == 'lock': i.lock = True
            else: raise Unsupported('prefix ' + mn)
            toks = toks[1].split(None, 1); mn = toks[0].lower()
        i.mn = mn; i.ops = []
        if len(toks) > 1:
            d = 0; cur = ''
            for ch in toks[1]:
                if ch in '[(': d += 1
                if ch in '])': d -= 1
                if ch == ',' and d == 0: i.ops.append(cur.strip()); cur = ''
                else: cur += ch
            i.ops.append(cur.strip())
        return i
    def opnd(self, m, s):
        s = s.strip()
        mm = re.match(r'^(byte|word|dword|qword|xmmword|mmword|tbyte|oword)\s+(?:ptr\s*)?(?=\[|[a-z]s:)', s, re.I)
        size = None
        if mm:
            size = SIZES[mm.group(1).lower()]; s = s[mm.end():].strip()
        if s.startswith('['):
            e = Mem(); e.size = size
            body = s[1:s.index(']')]
            for sign, term in re.findall(r'([+-]?)\s*([^+\-]+)', body):
                term = term.strip()
                if '*' in term:
                    a, b = [t.strip() for t in term.split('*')]
                    if re.fullmatch(r'\d+', a): a, b = b, a
                    e.parts.append((self.regop(m, a), int(b, 0)))
                elif re.fullmatch(r'0x[0-9a-fA-F]+|\d+|[0-9][0-9a-fA-F]*h', term):
                    v = int(term[:-1], 16) if term.endswith('h') else int(term, 0)
                    e.disp += -v if sign == '-' else v
                else: e.parts.append((self.regop(m, term), 1))
            rest = s[s.index(']')+1:].strip()
            if rest: raise Unsupported('operand ' + s)
            return e
        r = self.regop(m, s, False)
        if r is not None: return r
        if re.fullmatch(r'-?(0x[0-9a-fA-F]+|\d+)', s): return Imm(int(s, 0))
        if re.fullmatch(r'-?[0-9][0-9a-fA-F]*h', s): return Imm(int(s[:-1], 16))
        return Sym(s)
    def regop(self, m, s, must=True):
        s = s.strip()
        mm = re.fullmatch('\x01(\\d+):(\\w?)\x01', s)
        if mm:
            n = int(mm.group(1)); md = mm.group(2); cell = m.opcell[n]; c = m.cells[cell]
            w = m.st.ex.layout.bits(m.opw[n])
            if c.vec: return Reg(cell, 0, 128, s)
            if md == 'b': return Reg(cell, 0, 8, s)
            if md == 'h': return Reg(cell, 8, 8, s)
            if md == 'w': return Reg(cell, 0, 16, s)
            if md == 'k': return Reg(cell, 0, 32, s)
            if md == 'q': return Reg(cell, 0, self.bits, s)
            if md == '': return Reg(cell, 0, min(w, c.w) if w in (8, 16, 32, 64) else c.w, s)
            raise Unsupported('modifier ' + md)
        r = self.reg(s)
        if r is None:
            if must: raise Unsupported('register %r' % s)
            return None
        return Reg(m.cell_of_phys(r[0]), r[1], r[2], s)
    # ---- state access
    def rd(self, m, r):
        c = m.cells[r.cell]
        return ext(m.read_cell(r.cell), r.lo + r.w - 1, r.lo, c.w)
    def wr(self, m, r, v):
        c = m.cells[r.cell]
        if r.w == c.w: m.write_cell(r.cell, v); return
        if r.w == 32 and c.w == 64 and not c.vec: m.write_cell(r.cell, zext(v, 32, 64)); return
        old = m.read_cell(r.cell)
        parts = []
        if r.lo + r.w < c.w: parts.append((ext(old, c.w - 1, r.lo + r.w, c.w), c.w - r.lo - r.w))
        parts.append((v, r.w))
        if r.lo: parts.append((ext(old, r.lo - 1, 0, c.w), r.lo))
        m.write_cell(r.cell, cat(parts))
    def addr(self, m, e):
        W = None
        for r, k in e.parts: W = r.w
        W = W or self.bits
        a = e.disp & mask(W)
        for r, k in e.parts:
            v = self.rd(m, r)
            if r.w != W: raise Unsupported('mixed address size')
            if W == 16 or W == 8: raise Unsupported('address size')
            if k != 1: v = binop('mul', v, k, W)
            a = binop('add', a, v, W)
        P = self.ptrw
        if W > P:
            # 64-bit address formed from a register holding a 32-bit pointer: the upper half must be zero
            up = ext(a, W - 1, P, W)
            if not (is_int(up) and up == 0):
                m.st.violate('mem', 'asm uses a 64-bit address whose upper half is unspecified', NOT(eq(up, 0, W - P)))
            return ext(a, P - 1, 0, W)
        return a if W == P else zext(a, W, P)
    def load(self, m, e, n, **x):
        return m.access(self.addr(m, e), n, 'R', **x)
    def store(self, m, e, n, v, **x):
        m.access(self.addr(m, e), n, 'W', lambda o: v, **x)
    def on_shared_access(self, m, off, n, kind, x):
        pass
    def val(self, m, o, w):
        if isinstance(o, Imm): return o.v & mask(w)
        if isinstance(o, Reg):
            if o.w != w: raise Unsupported('operand size mismatch')
            return self.rd(m, o)
        if isinstance(o, Mem):
            return self.load(m, o, w // 8)
        raise Unsupported('operand')
    def size(self, *ops):
        for o in ops:
            if isinstance(o, Reg): return o.w
        for o in ops:
            if isinstance(o, Mem) and o.size: return o.size * 8
        raise Unsupported('operand size')
    def chk(self, m, mem, w):
        if mem.size and mem.size * 8 != w: raise Unsupported('size mismatch in asm operand (would not assemble)')
    def setzs(self, m, r, w):
        m.flags['z'] = eq(r, 0, w); m.flags['s'] = eq(ext(r, w-1, w-1, w), 1, 1); m.flags['p'] = freshb('pf'); m.flags['a'] = freshb('af')
    def cond(self, m, cc):
        if cc in CC:
            f = CC[cc]; v = m.flags[f[-1]]
            return NOT(v) if f[0] == '!' else v
        z, c, s, o = (m.flags[k] for k in 'zcso')
        if cc in ('be', 'na'): return OR(c, z)
        if cc in ('a', 'nbe'): return NOT(OR(c, z))
        if cc in ('l', 'nge'): return z3.Xor(zb(s), zb(o))
        if cc in ('ge', 'nl'): return z3.Not(z3.Xor(zb(s), zb(o)))
        if cc in ('le', 'ng'): return OR(z, z3.Xor(zb(s), zb(o)))
        if cc in ('g', 'nle'): return NOT(OR(z, z3.Xor(zb(s), zb(o))))
        raise Unsupported('condition ' + cc)
    ISETS = {'movq': 'sse2', 'movlps': 'sse', 'movhps': 'sse', 'movlpd': 'sse2', 'movsd': 'sse2', 'movss': 'sse', 'movd': 'sse2', 'movaps': 'sse', 'movups': 'sse', 'movdqa': 'sse2', 'movdqu': 'sse2', 'movapd': 'sse2', 'movupd': 'sse2',
             'xorps': 'sse', 'pxor': 'sse2', 'unpcklps': 'sse', 'punpckldq': 'sse2', 'shufps': 'sse', 'pshufd': 'sse2', 'movhlps': 'sse', 'movlhps': 'sse', 'psrlq': 'sse2', 'psrldq': 'sse2', 'fild': 'x87', 'fistp': 'x87', 'fist': 'x87', 'fisttp': 'sse3', 'fstp': 'x87', 'fld': 'x87', 'fistpll': 'x87', 'mfence': 'sse2', 'lfence': 'sse2', 'sfence': 'sse',
             'cmpxchg': 'cx', 'xadd': 'cx', 'bswap': 'cx', 'cmpxchg8b': 'cx8', 'cmpxchg16b': 'cx16', 'pause': '', 'movnti': 'sse2', 'movbe': 'movbe', 'pextrd': 'sse4.1', 'pinsrd': 'sse4.1', 'pextrq': 'sse4.1', 'pinsrq': 'sse4.1'}
    def insn_feature(self, i):
        mn = i.mn
        if mn.startswith('cmov'): return 'cmov'
        if mn.startswith('v') and mn not in ('verr', 'verw'): return 'avx'
        return self.ISETS.get(mn, '')
    # ---- execution
    def exec(self, m, i):
        if m.x.get('att'): raise Unsupported('AT&T syntax')
        mn = i.mn
        ops = [self.opnd(m, o) for o in i.ops] if not (mn[0] == 'j' or mn == 'jmp') else []
        f = getattr(self, 'i_' + mn, None)
        if mn.startswith('v') and f is None and len(i.ops) >= 1 and hasattr(self, 'i_' + mn[1:]):
            f = self.avx(m, i, ops, mn)
        if i.lock and mn not in ('add', 'or', 'and', 'xor', 'sub', 'xchg', 'cmpxchg', 'cmpxchg8b', 'cmpxchg16b', 'xadd', 'inc', 'dec', 'not', 'neg', 'bts', 'btr', 'btc', 'adc', 'sbb'):
            m.st.violate('ub', 'LOCK prefix on %s (#UD)' % mn)
        if i.lock and not any(isinstance(o, Mem) for o in ops):
            m.st.violate('ub', 'LOCK prefix without memory destination (#UD)')
        if mn == 'jmp': return [(m, i.ops[0])]
        if mn[0] == 'j':
            if mn in ('jecxz', 'jrcxz'):
                w = 32 if mn == 'jecxz' else 64
                return [(a, i.ops[0] if t else None) for a, t in m.split(eq(self.rd(m, self.R(m, 'cx', w)), 0, w))]
            if mn == 'jcxz': raise Unsupported(mn)
            c = self.cond(m, mn[1:])
            return [(a, i.ops[0] if t else None) for a, t in m.split(c)]
        if mn.startswith('set') and f is None:
            v = ite(zb(self.cond(m, mn[3:])), 1, 0, 8)
            if isinstance(ops[0], Reg):
                if ops[0].w != 8: raise Unsupported('setcc size')
                self.wr(m, ops[0], v)
            else: self.store(m, ops[0], 1, v)
            return
        if mn.startswith('cmov') and f is None:
            w = ops[0].w; b = self.val(m, ops[1], w)
            self.wr(m, ops[0], ite(zb(self.cond(m, mn[4:])), b, self.rd(m, ops[0]), w)); return
        if f is None: raise Unsupported('instruction %s' % mn)
        return f(m, i, ops)
    def i_nop(self, m, i, o): pass
    i_pause = i_endbr64 = i_nop
    def i_mov(self, m, i, o):
        d, s = o
        if isinstance(d, Reg) and isinstance(s, Mem):
            self.chk(m, s, d.w); self.wr(m, d, self.load(m, s, d.w // 8))
        elif isinstance(d, Mem) and isinstance(s, (Reg, Imm)):
            w = self.size(s, d); 
            if isinstance(s, Reg): self.chk(m, d, w)
            self.store(m, d, w // 8, self.val(m, s, w))
        elif isinstance(d, Reg) and isinstance(s, (Reg, Imm)):
            self.wr(m, d, self.val(m, s, d.w))
        else: raise Unsupported('mov')
    i_movabs = i_mov
    def i_movzx(self, m, i, o):
        d, s = o; w = self.size(s); v = self.load(m, s, w // 8) if isinstance(s, Mem) else self.rd(m, s)
        self.wr(m, d, zext(v, w, d.w))
    def i_movsx(self, m, i, o):
        d, s = o; w = self.size(s); v = self.load(m, s, w // 8) if isinstance(s, Mem) else self.rd(m, s)
        self.wr(m, d, sext(v, w, d.w))
    i_movsxd = i_movsx
    def i_lea(self, m, i, o):
        d, s = o
        W = s.parts[0][0].w if s.parts else d.w
        a = s.disp & mask(W)
        for r, k in s.parts: a = binop('add', a, binop('mul', self.rd(m, r), k, W), W)
        self.wr(m, d, ext(a, d.w - 1, 0, W) if d.w <= W else zext(a, W, d.w))
    def i_xchg(self, m, i, o):
        a, b = o
        if isinstance(a, Reg) and isinstance(b, Mem): a, b = b, a
        if isinstance(a, Mem):
            self.chk(m, a, b.w); v = self.rd(m, b)
            old = m.access(self.addr(m, a), b.w // 8, 'RMW', lambda r: v, lock=True, full=True)
            m.fence = True
            self.wr(m, b, old)
        else:
            x, y = self.rd(m, a), self.rd(m, b); self.wr(m, a, y); self.wr(m, b, x)
    def rmw(self, m, i, e, n, fn):
        """memory read-modify-write; atomic only with LOCK"""
        a = self.addr(m, e)
        if i.lock:
            m.fence = True
            return m.access(a, n, 'RMW', fn, lock=True, full=True)
        old = m.access(a, n, 'R')
        if m.ended: return old
        m.access(a, n, 'W', lambda _: fn(old))
        return old
    def i_cmpxchg(self, m, i, o):
        d, s = o; w = s.w
        acc = Reg(m.cell_of_phys('ax'), 0, w, '')
        exp = self.rd(m, acc); new = self.rd(m, s)
        if isinstance(d, Reg):
            old = self.rd(m, d); same = eq(old, exp, w)
            keep = m.read_cell(d.cell)
            self.wr(m, d, new); m.write_cell(d.cell, ite(zb(same), m.read_cell(d.cell), keep, self.bits))
        else:
            self.chk(m, d, w)
            old = self.rmw(m, i, d, w // 8, lambda r: ite(eq(r, exp, w), new, r, w))
            same = eq(old, exp, w)
        if m.ended: return
        self.subflags(m, exp, old, w)
        m.flags['z'] = same
        # on success the accumulator is unchanged (equal to old anyway, but a 32-bit write would zero the top)
        before = m.cells[acc.cell].val
        self.wr(m, acc, old)
        if w == 32 and self.bits == 64: self.keep_upper(m, acc, before, same)
    def keep_upper(self, m, acc, before, same):
        """a 32-bit accumulator is only written (and zero-extended) when the comparison fails; the low half equals old either way"""
        c = m.cells[acc.cell]; v = c.val
        m.write_cell(acc.cell, cat([(ite(zb(same), ext(before, 63, 32, 64), 0, 32), 32), (ext(v, 31, 0, 64), 32)]))
    def pairx(self, m, i, o, half):
        e = o[0]; w = 2 * half
        if e.size and e.size * 8 != w: raise Unsupported('size mismatch in asm operand (would not assemble)')
        R = lambda k: Reg(m.cell_of_phys(k), 0, half, '')
        a, d, b, c = R('ax'), R('dx'), R('bx'), R('cx')
        exp = cat([(self.rd(m, d), half), (self.rd(m, a), half)]); new = cat([(self.rd(m, c), half), (self.rd(m, b), half)])
        old = self.rmw(m, i, e, w // 8, lambda r: ite(eq(r, exp, w), new, r, w))
        if m.ended: return
        same = eq(old, exp, w)
        m.flags['z'] = same
        oa, od = ext(old, half-1, 0, w), ext(old, w-1, half, w)
        va, vd = m.cells[a.cell].val, m.cells[d.cell].val
        self.wr(m, a, oa); self.wr(m, d, od)
        if half < self.bits:
            self.keep_upper(m, a, va, same); self.keep_upper(m, d, vd, same)
    def i_cmpxchg8b(self, m, i, o): return self.pairx(m, i, o, 32)
    def i_cmpxchg16b(self, m, i, o): return self.pairx(m, i, o, 64)
    def i_xadd(self, m, i, o):
        d, s = o; w = s.w; v = self.rd(m, s)
        if isinstance(d, Mem): old = self.rmw(m, i, d, w // 8, lambda r: binop('add', r, v, w))
        else:
            old = self.rd(m, d); self.wr(m, d, binop('add', old, v, w))
        self.wr(m, s, old)
        for f in 'co': m.flags[f] = freshb('xa')
        self.setzs(m, binop('add', old, v, w), w)
    def alu(self, m, i, o, fn, op):
        d = o[0]; w = self.size(*o)
        s = self.val(m, o[1], w) if len(o) > 1 else None
        box = {}
        def f(r):
            box['old'] = r; box['res'] = fn(r, s, w); return box['res']
        if isinstance(d, Mem): self.rmw(m, i, d, w // 8, f)
        else: self.wr(m, d, f(self.rd(m, d)))
        if m.ended: return
        old, res = box['old'], box['res']
        self.setzs(m, res, w)
        if op in ('and', 'or', 'xor'): m.flags['c'] = False; m.flags['o'] = False
        elif op == 'add': m.flags['c'] = z3.ULT(bv(res, w), bv(old, w)); m.flags['o'] = freshb('of')
        elif op == 'sub': self.subflags(m, old, s, w)
        else:
            if op not in ('inc', 'dec'): m.flags['c'] = freshb('cf')
            m.flags['o'] = freshb('of')
    def subflags(self, m, a, b, w):
        r = binop('sub', a, b, w)
        m.flags['c'] = z3.simplify(z3.ULT(bv(a, w), bv(b, w)))
        m.flags['o'] = z3.simplify(z3.Extract(w-1, w-1, (bv(a, w) ^ bv(b, w)) & (bv(a, w) ^ bv(r, w))) == 1)
        self.setzs(m, r, w)
    def i_add(self, m, i, o): return self.alu(m, i, o, lambda a, b, w: binop('add', a, b, w), 'add')
    def i_sub(self, m, i, o): return self.alu(m, i, o, lambda a, b, w: binop('sub', a, b, w), 'sub')
    def i_and(self, m, i, o): return self.alu(m, i, o, lambda a, b, w: binop('and', a, b, w), 'and')
    def i_or(self, m, i, o): return self.alu(m, i, o, lambda a, b, w: binop('or', a, b, w), 'or')
    def i_xor(self, m, i, o):
        if isinstance(o[0], Reg) and isinstance(o[1], Reg) and (o[0].cell, o[0].lo, o[0].w) == (o[1].cell, o[1].lo, o[1].w):
            self.wr(m, o[0], 0); self.setzs(m, 0, o[0].w); m.flags['c'] = False; m.flags['o'] = False; return
        return self.alu(m, i, o, lambda a, b, w: binop('xor', a, b, w), 'xor')
    def i_inc(self, m, i, o): return self.alu(m, i, o, lambda a, b, w: binop('add', a, 1, w), 'inc')
    def i_dec(self, m, i, o): return self.alu(m, i, o, lambda a, b, w: binop('sub', a, 1, w), 'dec')
    def i_not(self, m, i, o):
        d = o[0]; w = self.size(d)
        if isinstance(d, Mem): self.rmw(m, i, d, w // 8, lambda r: binop('xor', r, mask(w), w))
        else: self.wr(m, d, binop('xor', self.rd(m, d), mask(w), w))
    def i_neg(self, m, i, o): return self.alu(m, i, o, lambda a, b, w: binop('sub', 0, a, w), 'neg')
    def i_shl(self, m, i, o): return self.sh(m, i, o, 'shl')
    def i_shr(self, m, i, o): return self.sh(m, i, o, 'lshr')
    def i_sar(self, m, i, o): return self.sh(m, i, o, 'ashr')
    def sh(self, m, i, o, op):
        d = o[0]; w = d.w
        if len(o) > 1 and isinstance(o[1], Reg): k = binop('and', zext(self.rd(m, o[1]), 8, w), 63 if w == 64 else 31, w)
        else: k = (o[1].v if len(o) > 1 else 1) & (63 if w == 64 else 31)
        self.wr(m, d, binop(op, self.rd(m, d), k, w))
        for f in 'zcsopa': m.flags[f] = freshb('sh')
    def i_cmp(self, m, i, o):
        w = self.size(*o); self.subflags(m, self.val(m, o[0], w), self.val(m, o[1], w), w)
    def i_test(self, m, i, o):
        w = self.size(*o); self.setzs(m, binop('and', self.val(m, o[0], w), self.val(m, o[1], w), w), w); m.flags['c'] = False; m.flags['o'] = False
    def i_push(self, m, i, o):
        w = self.bits; v = self.val(m, o[0], w) if not isinstance(o[0], Imm) else o[0].v & mask(w)
        sp = Reg(m.cell_of_phys('sp'), 0, w, ''); a = binop('sub', self.rd(m, sp), w // 8, w)
        self.wr(m, sp, a); m.access(ext(a, self.ptrw - 1, 0, w), w // 8, 'W', lambda _: v)
    def i_pop(self, m, i, o):
        w = self.bits; sp = Reg(m.cell_of_phys('sp'), 0, w, ''); a = self.rd(m, sp)
        v = m.access(ext(a, self.ptrw - 1, 0, w), w // 8, 'R'); self.wr(m, sp, binop('add', a, w // 8, w))
        if isinstance(o[0], Reg): self.wr(m, o[0], v)
        else: self.store(m, o[0], w // 8, v)
    def i_mfence(self, m, i, o): m.fence_event(full=True)
    def i_lfence(self, m, i, o): m.fence_event(ld=True)
    def i_sfence(self, m, i, o): m.fence_event(st=True)
    # ---- SSE moves
    def xmm_load(self, m, d, s, n, keep):
        v = self.load(m, s, n)
        old = m.read_cell(d.cell)
        up = ext(old, 127, 8*n, 128) if keep else 0
        m.write_cell(d.cell, cat([(up, 128 - 8*n), (v, 8*n)]) if n < 16 else v)
    def xmov(self, m, o, n, keep):
        d, s = o
        if isinstance(d, Reg) and isinstance(s, Mem):
            if s.size and s.size != n: raise Unsupported('size mismatch in asm operand (would not assemble)')
            return self.xmm_load(m, d, s, n, keep)
        if isinstance(d, Mem) and isinstance(s, Reg):
            if d.size and d.size != n: raise Unsupported('size mismatch in asm operand (would not assemble)')
            return self.store(m, d, n, ext(m.read_cell(s.cell), 8*n - 1, 0, 128))
        raise Unsupported('xmm move')
    def i_movq(self, m, i, o):
        d, s = o
        if isinstance(d, Reg) and isinstance(s, Reg):
            dv, sv = m.cells[d.cell].vec, m.cells[s.cell].vec
            if dv and sv: m.write_cell(d.cell, zext(ext(m.read_cell(s.cell), 63, 0, 128), 64, 128)); return
            if dv: m.write_cell(d.cell, zext(self.rd(m, s), 64, 128)); return
            self.wr(m, d, ext(m.read_cell(s.cell), 63, 0, 128)); return
        return self.xmov(m, o, 8, False)
    def i_movd(self, m, i, o):
        d, s = o
        if isinstance(d, Reg) and isinstance(s, Reg):
            if m.cells[d.cell].vec: m.write_cell(d.cell, zext(self.rd(m, s), 32, 128)); return
            self.wr(m, d, ext(m.read_cell(s.cell), 31, 0, 128)); return
        return self.xmov(m, o, 4, False)
    def i_movlps(self, m, i, o): return self.xmov(m, o, 8, True)
    i_movlpd = i_movlps
    def i_movsd(self, m, i, o):
        if all(isinstance(x, Reg) for x in o):
            m.write_cell(o[0].cell, cat([(self.v64(m, o[0])[1], 64), (self.v64(m, o[1])[0], 64)])); return
        return self.xmov(m, o, 8, False)
    def i_movss(self, m, i, o):
        if all(isinstance(x, Reg) for x in o):
            d, s = self.lanes(m, o[0]), self.lanes(m, o[1]); self.setlanes(m, o[0], [s[0]] + d[1:]); return
        return self.xmov(m, o, 4, False)
    def i_movhps(self, m, i, o):
        d, s = o
        if isinstance(d, Mem): return self.store(m, d, 8, ext(m.read_cell(s.cell), 127, 64, 128))
        v = self.load(m, s, 8); m.write_cell(d.cell, cat([(v, 64), (ext(m.read_cell(d.cell), 63, 0, 128), 64)]))
    def lanes(self, m, o): v = m.read_cell(o.cell); return [ext(v, 32*i+31, 32*i, 128) for i in range(4)]
    def setlanes(self, m, o, l): m.write_cell(o.cell, cat([(x, 32) for x in reversed(l)]))
    def i_pshufd(self, m, i, o):
        s = self.lanes(m, o[1]); k = o[2].v; self.setlanes(m, o[0], [s[k >> 2*j & 3] for j in range(4)])
    def i_shufps(self, m, i, o):
        d, s = self.lanes(m, o[0]), self.lanes(m, o[1]); k = o[2].v; self.setlanes(m, o[0], [d[k & 3], d[k >> 2 & 3], s[k >> 4 & 3], s[k >> 6 & 3]])
    def i_unpcklps(self, m, i, o):
        d, s = self.lanes(m, o[0]), self.lanes(m, o[1]); self.setlanes(m, o[0], [d[0], s[0], d[1], s[1]])
    i_punpckldq = i_unpcklps
    def i_movhlps(self, m, i, o):
        d, s = self.lanes(m, o[0]), self.lanes(m, o[1]); self.setlanes(m, o[0], [s[2], s[3], d[2], d[3]])
    def i_movlhps(self, m, i, o):
        d, s = self.lanes(m, o[0]), self.lanes(m, o[1]); self.setlanes(m, o[0], [d[0], d[1], s[0], s[1]])
    def i_psrlq(self, m, i, o):
        v = m.read_cell(o[0].cell); k = o[1].v
        m.write_cell(o[0].cell, cat([(binop('lshr', ext(v, 127, 64, 128), k, 64), 64), (binop('lshr', ext(v, 63, 0, 128), k, 64), 64)]))
    def i_psrldq(self, m, i, o): m.write_cell(o[0].cell, binop('lshr', m.read_cell(o[0].cell), 8 * o[1].v, 128))
    def i_xorps(self, m, i, o):
        if o[0].cell == o[1].cell: m.write_cell(o[0].cell, 0); return
        m.write_cell(o[0].cell, binop('xor', m.read_cell(o[0].cell), m.read_cell(o[1].cell), 128))
    i_pxor = i_xorps
    def i_movaps(self, m, i, o):
        d, s = o
        if isinstance(d, Reg) and isinstance(s, Reg): m.write_cell(d.cell, m.read_cell(s.cell)); return
        # 16-byte vector accesses are not guaranteed single-copy atomic without AVX: model as two 8-byte accesses
        if isinstance(d, Mem):
            v = m.read_cell(s.cell); a = self.addr(m, d)
            m.access(a, 8, 'W', lambda _: ext(v, 63, 0, 128)); m.access(binop('add', a, 8, self.ptrw), 8, 'W', lambda _: ext(v, 127, 64, 128)); return
        a = self.addr(m, s); lo = m.access(a, 8, 'R'); hi = m.access(binop('add', a, 8, self.ptrw), 8, 'R')
        m.write_cell(d.cell, cat([(hi, 64), (lo, 64)]))
    i_movups = i_movdqa = i_movdqu = i_movapd = i_movupd = i_movaps
    # ---- x87 moves (default control word: extended precision, round to nearest, exceptions masked)
    def i_fild(self, m, i, o):
        n = o[0].size
        if n not in (2, 4, 8): raise Unsupported('fild size')
        v = self.load(m, o[0], n)
        self.fpush(m, ('int', sext(v, 8*n, 64)))
    def fpush(self, m, x):
        m.x['fpu'].append(x); m.x['fpudepth'] = max(m.x['fpudepth'], len(m.x['fpu'])); m.flags['fpsr'] = freshb('fpsr')
    def ftop(self, m, pop):
        if not m.x['fpu']:
            m.st.violate('contract', 'x87 stack underflow'); m.ended = True; m.st.status = 'ub'; m.st.info = 'x87 stack'; return None
        m.flags['fpsr'] = freshb('fpsr')
        return m.x['fpu'].pop() if pop else m.x['fpu'][-1]
    def fint(self, m, o, pop):
        n = o[0].size
        if n not in (2, 4, 8): raise Unsupported('fistp size')
        x = self.ftop(m, pop)
        if x is None: return
        k, v = x; w = 8 * n
        if k == 'int':
            if n < 8:
                fits = eq(sext(ext(v, w-1, 0, 64), w, 64), v, 64)
                v = ite(zb(fits), ext(v, w-1, 0, 64), 1 << (w-1), w)
        else:
            S = z3.Float64() if k == 'dbl' else z3.Float32()
            f = z3.fpBVToFP(bv(v, 64 if k == 'dbl' else 32), S)
            r = z3.fpRoundToIntegral(z3.RNE(), f); lim = z3.FPVal(2.0 ** (w-1), S)
            ok = z3.And(z3.Not(z3.fpIsNaN(f)), z3.fpLT(r, lim), z3.fpGEQ(r, z3.fpNeg(lim)))
            v = ite(ok, z3.fpToSBV(z3.RNE(), f, z3.BitVecSort(w)), 1 << (w-1), w)
        self.store(m, o[0], n, v)
    def i_fistp(self, m, i, o): self.fint(m, o, True)
    def i_fist(self, m, i, o): self.fint(m, o, False)
    def i_fld(self, m, i, o):
        """a load of a single or double quiets signalling NaNs and is otherwise exact"""
        if not isinstance(o[0], Mem): raise Unsupported('fld of a register')
        n = o[0].size
        if n not in (4, 8): raise Unsupported('fld size')
        w = 8 * n; fb = 23 if n == 4 else 52
        v = bv(self.load(m, o[0], n), w)
        nan = z3.And(z3.Extract(w-2, fb, v) == mask(w-1-fb), z3.Extract(fb-1, 0, v) != 0)
        self.fpush(m, ('dbl' if n == 8 else 'flt', ite(nan, v | (1 << (fb-1)), v, w)))
    def fst(self, m, o, pop):
        n = o[0].size if isinstance(o[0], Mem) else 0
        if n not in (4, 8): raise Unsupported('fst size')
        x = self.ftop(m, pop)
        if x is None: return
        k, v = x
        if k == ('dbl' if n == 8 else 'flt'): r = v
        elif k == 'int': r = z3.fpToIEEEBV(z3.fpSignedToFP(z3.RNE(), bv(v, 64), z3.Float64() if n == 8 else z3.Float32()))
        else: raise Unsupported('x87 conversion')
        self.store(m, o[0], n, r)
    def i_fstp(self, m, i, o):
        if isinstance(o[0], Reg):
            if m.cells[o[0].cell].key != 'st0': raise Unsupported('fstp register')
            self.ftop(m, True); return
        self.fst(m, o, True)
    def i_fst(self, m, i, o): self.fst(m, o, False)
    def i_fnop(self, m, i, o): pass
    def i_cld(self, m, i, o): m.flags['df'] = False
    def i_std(self, m, i, o): m.flags['df'] = True

    # ---- further integer instructions
    def R(self, m, k, w): return Reg(m.cell_of_phys(k), 0, w, '')
    def i_cbw(self, m, i, o): self.wr(m, self.R(m, 'ax', 16), sext(self.rd(m, self.R(m, 'ax', 8)), 8, 16))
    def i_cwde(self, m, i, o): self.wr(m, self.R(m, 'ax', 32), sext(self.rd(m, self.R(m, 'ax', 16)), 16, 32))
    def i_cdqe(self, m, i, o): self.wr(m, self.R(m, 'ax', 64), sext(self.rd(m, self.R(m, 'ax', 32)), 32, 64))
    def signfill(self, m, w): self.wr(m, self.R(m, 'dx', w), ext(sext(self.rd(m, self.R(m, 'ax', w)), w, 2 * w), 2 * w - 1, w, 2 * w))
    def i_cwd(self, m, i, o): self.signfill(m, 16)
    def i_cdq(self, m, i, o): self.signfill(m, 32)
    def i_cqo(self, m, i, o): self.signfill(m, 64)
    def i_bswap(self, m, i, o):
        w = o[0].w; v = self.rd(m, o[0])
        if w < 32: raise Unsupported('bswap of a 16-bit register')
        self.wr(m, o[0], cat([(ext(v, 8 * k + 7, 8 * k, w), 8) for k in range(w // 8)]))
    def i_movbe(self, m, i, o):
        d, s = o
        r = d if isinstance(d, Reg) else s; w = r.w; n = w // 8
        sw = lambda v: cat([(ext(v, 8 * k + 7, 8 * k, w), 8) for k in range(n)])
        if isinstance(d, Reg): self.wr(m, d, sw(self.load(m, s, n)))
        else: self.store(m, d, n, sw(self.rd(m, s)))
    def i_movnti(self, m, i, o): raise Unsupported('non-temporal store')
    def carry(self, m, w): return ite(zb(m.flags['c']), 1, 0, w)
    def addc(self, m, i, o, sub):
        d = o[0]; w = self.size(*o); s = self.val(m, o[1], w); c = self.carry(m, w); box = {}
        def f(r):
            box['old'] = r
            box['res'] = binop('sub', binop('sub', r, s, w), c, w) if sub else binop('add', binop('add', r, s, w), c, w)
            return box['res']
        if isinstance(d, Mem): self.rmw(m, i, d, w // 8, f)
        else: self.wr(m, d, f(self.rd(m, d)))
        if m.ended: return
        a, b, r = bv(box['old'], w), bv(s, w), bv(box['res'], w)
        X = lambda v: z3.ZeroExt(1, v)
        if sub: m.flags['c'] = z3.simplify(z3.ULT(X(a), X(b) + X(bv(c, w)))); m.flags['o'] = z3.simplify(z3.Extract(w-1, w-1, (a ^ b) & (a ^ r)) == 1)
        else: m.flags['c'] = z3.simplify(z3.Extract(w, w, X(a) + X(b) + X(bv(c, w))) == 1); m.flags['o'] = z3.simplify(z3.Extract(w-1, w-1, ~(a ^ b) & (a ^ r)) == 1)
        self.setzs(m, box['res'], w)
    def i_adc(self, m, i, o): self.addc(m, i, o, False)
    def i_sbb(self, m, i, o): self.addc(m, i, o, True)
    def bit(self, m, i, o, fn):
        d, b = o; w = self.size(d, b)
        if isinstance(b, Imm): k = b.v & (w - 1)
        else:
            k = self.rd(m, b)
            if isinstance(d, Mem): raise Unsupported('bit string operand')
            k = binop('and', k, w - 1, w)
        one = binop('shl', 1, k, w); box = {}
        def f(r): box['old'] = r; return fn(r, one, w)
        if isinstance(d, Mem):
            if fn is None: box['old'] = self.load(m, d, w // 8)
            else: self.rmw(m, i, d, w // 8, f)
        else:
            if fn is None: box['old'] = self.rd(m, d)
            else: self.wr(m, d, f(self.rd(m, d)))
        if m.ended: return
        m.flags['c'] = NOT(eq(binop('and', box['old'], one, w), 0, w))
        for x in 'sopa': m.flags[x] = freshb('bt' + x)
    def i_bt(self, m, i, o): self.bit(m, i, o, None)
    def i_bts(self, m, i, o): self.bit(m, i, o, lambda r, k, w: binop('or', r, k, w))
    def i_btr(self, m, i, o): self.bit(m, i, o, lambda r, k, w: binop('and', r, binop('xor', k, mask(w), w), w))
    def i_btc(self, m, i, o): self.bit(m, i, o, lambda r, k, w: binop('xor', r, k, w))
    def rot(self, m, i, o, left):
        d = o[0]; w = d.w
        if len(o) > 1 and isinstance(o[1], Reg): k = binop('and', zext(self.rd(m, o[1]), 8, w), 63 if w == 64 else 31, w)
        else: k = (o[1].v if len(o) > 1 else 1) & (63 if w == 64 else 31)
        v = self.rd(m, d)
        k = k % w if is_int(k) else binop('urem', k, w, w)
        nk = (w - k) % w if is_int(k) else binop('urem', binop('sub', w, k, w), w, w)
        a, b = ('shl', 'lshr') if left else ('lshr', 'shl')
        self.wr(m, d, binop('or', binop(a, v, k, w), binop(b, v, nk, w), w))
        for f in 'co': m.flags[f] = freshb('ro')
    def i_rol(self, m, i, o): self.rot(m, i, o, True)
    def i_ror(self, m, i, o): self.rot(m, i, o, False)
    i_sal = i_shl
    def dsh(self, m, i, o, left):
        d, s, k = o; w = d.w
        if not isinstance(k, Imm): raise Unsupported('variable double shift')
        k = k.v & (63 if w == 64 else 31)
        a, b = self.rd(m, d), self.rd(m, s)
        if k:
            if k >= w: raise Unsupported('double shift count')
            r = binop('or', binop('shl', a, k, w), binop('lshr', b, w - k, w), w) if left else binop('or', binop('lshr', a, k, w), binop('shl', b, w - k, w), w)
            self.wr(m, d, r)
            for f in 'zcsopa': m.flags[f] = freshb('sh')
    def i_shld(self, m, i, o): self.dsh(m, i, o, True)
    def i_shrd(self, m, i, o): self.dsh(m, i, o, False)
    def i_imul(self, m, i, o):
        if len(o) < 2: raise Unsupported('one-operand imul')
        w = o[0].w; a = self.rd(m, o[0]) if len(o) == 2 else self.val(m, o[1], w)
        self.wr(m, o[0], binop('mul', a, self.val(m, o[-1], w), w))
        for f in 'zcsopa': m.flags[f] = freshb('im')
    def i_clc(self, m, i, o): m.flags['c'] = False
    def i_stc(self, m, i, o): m.flags['c'] = True
    def i_cmc(self, m, i, o): m.flags['c'] = NOT(m.flags['c'])
    def i_lahf(self, m, i, o):
        b = lambda f: (ite(zb(m.flags[f]), 1, 0, 1), 1)
        self.wr(m, Reg(m.cell_of_phys('ax'), 8, 8, ''), cat([b('s'), b('z'), (0, 1), b('a'), (0, 1), b('p'), (1, 1), b('c')]))
    def i_sahf(self, m, i, o):
        v = self.rd(m, Reg(m.cell_of_phys('ax'), 8, 8, ''))
        for f, k in (('s', 7), ('z', 6), ('a', 4), ('p', 2), ('c', 0)): m.flags[f] = eq(ext(v, k, k, 8), 1, 1)
    FL = [('c', 0), ('p', 2), ('a', 4), ('z', 6), ('s', 7), ('df', 10), ('o', 11)]
    def i_pushf(self, m, i, o):
        w = self.bits; bits = {k: ite(zb(m.flags[f]), 1, 0, 1) for f, k in self.FL}
        v = cat([((bits[k] if k in bits else 1 if k in (1, 9) else 0), 1) for k in reversed(range(w))])
        sp = self.R(m, 'sp', w); a = binop('sub', self.rd(m, sp), w // 8, w)
        self.wr(m, sp, a); m.access(ext(a, self.ptrw - 1, 0, w), w // 8, 'W', lambda _: v)
    i_pushfq = i_pushfd = i_pushf
    def i_popf(self, m, i, o):
        w = self.bits; sp = self.R(m, 'sp', w); a = self.rd(m, sp)
        v = m.access(ext(a, self.ptrw - 1, 0, w), w // 8, 'R'); self.wr(m, sp, binop('add', a, w // 8, w))
        for f, k in self.FL: m.flags[f] = eq(ext(v, k, k, w), 1, 1)
    i_popfq = i_popfd = i_popf
    def i_ud2(self, m, i, o):
        m.st.violate('ub', 'asm block reaches ud2'); m.st.status = 'ub'; m.st.info = 'ud2'; m.ended = True
    i_int3 = i_ud2
    # ---- further vector instructions
    def v64(self, m, o): v = m.read_cell(o.cell); return [ext(v, 63, 0, 128), ext(v, 127, 64, 128)]
    def vsrc(self, m, o):
        if isinstance(o, Reg): return m.read_cell(o.cell)
        a = self.addr(m, o); lo = m.access(a, 8, 'R'); hi = m.access(binop('add', a, 8, self.ptrw), 8, 'R')
        return cat([(hi, 64), (lo, 64)])
    def i_punpcklqdq(self, m, i, o):
        d, s = self.v64(m, o[0]), self.v64(m, o[1]); m.write_cell(o[0].cell, cat([(s[0], 64), (d[0], 64)]))
    i_unpcklpd = i_punpcklqdq
    def i_punpckhqdq(self, m, i, o):
        d, s = self.v64(m, o[0]), self.v64(m, o[1]); m.write_cell(o[0].cell, cat([(s[1], 64), (d[1], 64)]))
    i_unpckhpd = i_punpckhqdq
    def i_punpckhdq(self, m, i, o):
        d, s = self.lanes(m, o[0]), self.lanes(m, o[1]); self.setlanes(m, o[0], [d[2], s[2], d[3], s[3]])
    i_unpckhps = i_punpckhdq
    def i_pand(self, m, i, o): m.write_cell(o[0].cell, binop('and', m.read_cell(o[0].cell), self.vsrc(m, o[1]), 128))
    i_andps = i_andpd = i_pand
    def i_por(self, m, i, o): m.write_cell(o[0].cell, binop('or', m.read_cell(o[0].cell), self.vsrc(m, o[1]), 128))
    i_orps = i_orpd = i_por
    def vshift(self, m, o, op, lw):
        if not isinstance(o[1], Imm): raise Unsupported('vector shift by register')
        v = m.read_cell(o[0].cell); k = o[1].v
        m.write_cell(o[0].cell, cat([((binop(op, ext(v, lw*j + lw - 1, lw*j, 128), k, lw) if k < lw else 0), lw) for j in reversed(range(128 // lw))]))
    def i_psllq(self, m, i, o): self.vshift(m, o, 'shl', 64)
    def i_pslld(self, m, i, o): self.vshift(m, o, 'shl', 32)
    def i_psrld(self, m, i, o): self.vshift(m, o, 'lshr', 32)
    def i_pslldq(self, m, i, o): m.write_cell(o[0].cell, binop('shl', m.read_cell(o[0].cell), 8 * o[1].v, 128) if o[1].v < 16 else 0)
    def pick(self, m, o, w):
        d, s, k = o; k = k.v & (128 // w - 1); v = ext(m.read_cell(s.cell), w*k + w - 1, w*k, 128)
        if isinstance(d, Reg): self.wr(m, d, v if d.w == w else zext(v, w, d.w))
        else: self.store(m, d, w // 8, v)
    def i_pextrd(self, m, i, o): self.pick(m, o, 32)
    i_extractps = i_pextrd
    def i_pextrq(self, m, i, o): self.pick(m, o, 64)
    def i_pextrw(self, m, i, o): self.pick(m, o, 16)
    def put(self, m, o, w):
        d, s, k = o; k = k.v & (128 // w - 1)
        v = self.load(m, s, w // 8) if isinstance(s, Mem) else ext(self.rd(m, s), w - 1, 0, s.w)
        x = m.read_cell(d.cell)
        m.write_cell(d.cell, cat([((v if j == k else ext(x, w*j + w - 1, w*j, 128)), w) for j in reversed(range(128 // w))]))
    def i_pinsrd(self, m, i, o): self.put(m, o, 32)
    def i_pinsrq(self, m, i, o): self.put(m, o, 64)
    def i_pinsrw(self, m, i, o): self.put(m, o, 16)
    # ---- VEX forms of the moves (xmm): the same, but loads and register forms take the upper part from the first source
    def avx(self, m, i, ops, mn):
        b = mn[1:]
        if b in ('movd', 'movq', 'movaps', 'movups', 'movdqa', 'movdqu', 'movapd', 'movupd'):
            if b in ('movaps', 'movups', 'movdqa', 'movdqu', 'movapd', 'movupd'):
                return self.avx16
            return getattr(self, 'i_' + b)
        if b in ('movss', 'movsd', 'movlps', 'movlpd', 'movhps') and len(ops) == 2 and (isinstance(ops[0], Mem) or b in ('movss', 'movsd')): return getattr(self, 'i_' + b)
        if len(ops) == 3 and isinstance(ops[0], Reg) and isinstance(ops[1], Reg) and b in ('pxor', 'xorps', 'pand', 'andps', 'por', 'orps', 'punpckldq', 'unpcklps', 'punpcklqdq', 'unpcklpd', 'movlps', 'movhps', 'movlhps', 'movhlps'):
            def f(m, i, o):
                if o[1].cell == o[2].cell if isinstance(o[2], Reg) else False:
                    return getattr(self, 'i_' + b)(m, i, [o[0], o[0]]) if b in ('pxor', 'xorps') else self.avx3(m, i, o, b)
                return self.avx3(m, i, o, b)
            return f
        return None
    def avx3(self, m, i, o, b):
        d, x, y = o
        if isinstance(y, Reg) and y.cell == d.cell and d.cell != x.cell: raise Unsupported('destination is the second source')
        if d.cell != x.cell: m.write_cell(d.cell, m.read_cell(x.cell))
        return getattr(self, 'i_' + b)(m, i, [d, y])
    def avx16(self, m, i, o):
        """with AVX an aligned 16-byte vector access is one access"""
        d, s = o
        if isinstance(d, Reg) and isinstance(s, Reg): m.write_cell(d.cell, m.read_cell(s.cell)); return
        mem = d if isinstance(d, Mem) else s
        a = self.addr(m, mem)
        if isinstance(d, Mem): v = m.read_cell(s.cell); m.access(a, 16, 'W', lambda _: v)
        else: m.write_cell(d.cell, m.access(a, 16, 'R'))
