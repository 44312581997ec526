"""Hexagon semantics for the inline assembly blocks (packets of one instruction, or a compare with a branch on its new value)."""
import re, z3
from .symex import *
from .isa_base import Base, OPERAND, Insn

SZ = {'b': 1, 'h': 2, 'w': 4, 'd': 8}

class Hexagon(Base):
    comments = ('//',)
    names = dict([('r%d' % i, 'r%d' % i) for i in range(32)] + [('p%d' % i, 'p%d' % i) for i in range(4)] + [('sp', 'r29'), ('fp', 'r30'), ('lr', 'r31')])
    unallocatable = {'r19', 'r29', 'r30', 'r31'} | {'p%d' % i for i in range(4)}
    key = 'hexagon'
    def width(self, key): return 8 if key[0] == 'p' else 32
    def regclass(self, code, t, L):
        if code != 'r': raise Unsupported('constraint %s' % code)
        return {'r%d' % i for i in range(29)} - self.unallocatable
    def parse(self, s):
        i = Insn(); i.text = s.replace('\x01', '%'); t = s.strip()
        i.ops = [t.startswith('{'), t.endswith('}')]
        t = t.strip('{} ').strip(); i.mn = t
        return i
    def exec(self, m, i):
        # packets: everything reads the values before the packet, except for `.new`
        opens, closes = i.ops
        pk = m.x.get('packet')
        if opens:
            if pk is not None: raise Unsupported('nested packet')
            pk = dict(preds=set(), n=0)
        if pk is not None:
            pk = dict(pk, n=pk['n'] + 1)
            if pk['n'] > 1 and not re.match(r'if\s*\(!?p[0-3]\.new\)\s*jump', i.mn): raise Unsupported('packet %s' % i.text)
        m.x['packet'] = None if closes or pk is None else pk
        W = lambda x: re.sub(r'\s+', '', x)
        t = i.mn
        M = re.fullmatch(r'if\s*\((!?)(p[0-3])(\.new)?\)\s*jump(:n?t)?\s+(\w+)', t)
        if M:
            if M.group(3) and (pk is None or M.group(2) not in pk['preds']): raise Unsupported('.new outside of its packet')
            if not M.group(3) and pk is not None and M.group(2) in pk['preds']: raise Unsupported('old predicate within its packet')
            c = eq(ext(self.rd(m, M.group(2)), 0, 0, 8), 1, 1)
            if M.group(1): c = NOT(c)
            if pk is not None and not closes: raise Unsupported('instruction after the branch of a packet')
            return self.branch(m, c, M.group(5))
        M = re.fullmatch(r'jump\s+(\w+)', t)
        if M: return [(m, M.group(1))]
        if t == 'barrier': m.fence_event(full=1); return None
        if t == 'nop': return None
        if '=' not in t: raise Unsupported('instruction %r' % i.text)
        lhs, rhs = [x.strip() for x in t.split('=', 1)]
        # stores
        M = re.fullmatch(r'mem([bhwd])(_locked)?\((.+?)(?:,\s*(p[0-3]))?\)', lhs)
        if M:
            n = SZ[M.group(1)]; v = self.val(m, rhs, n); a = self.addr(m, M.group(3))
            if not M.group(2):
                if M.group(4): raise Unsupported(i.text)
                m.access(a, n, 'W', lambda _: v); return None
            if M.group(1) not in 'wd' or not M.group(4): raise Unsupported(i.text)
            out = []
            for m2, ok in m.sc(a, n, v):
                if not m2.ended: self.wr(m2, M.group(4), 255 if ok else 0)
                out.append((m2, None))
            return out
        M = re.fullmatch(r'mem(u?)([bhwd])(_locked)?\((.+?)\)', rhs)
        if M:
            n = SZ[M.group(2)]; a = self.addr(m, M.group(4))
            r = m.ll(a, n) if M.group(3) else m.access(a, n, 'R')
            if m.ended: return None
            self.set(m, lhs, (zext if M.group(1) else sext)(r, 8 * n, 32) if n < 4 else r, n)
            return None
        M = re.fullmatch(r'(!?)cmp\.(eq)\((.+?),\s*(.+?)\)', rhs)
        if M:
            if not re.fullmatch('p[0-3]', lhs): raise Unsupported(i.text)
            c = eq(self.rd(m, M.group(3)), self.src(m, M.group(4)), 32)
            if M.group(1): c = NOT(c)
            self.wr(m, lhs, ite(zb(c), 255, 0, 8))
            if m.x['packet'] is not None: m.x['packet'] = dict(m.x['packet'], preds=m.x['packet']['preds'] | {lhs})
            return None
        M = re.fullmatch(r'(and|or|xor|asl|asr|lsr|lsl|add|sub)\((.+?),\s*(~?)(.+?)\)', rhs)
        if M:
            op, a, neg, b = M.groups(); av = self.rd(m, a); bv_ = self.src(m, b)
            if neg:
                if op not in ('and', 'or'): raise Unsupported(i.text)
                bv_ = binop('xor', bv_, mask(32), 32)
            if op in ('and', 'or', 'xor', 'add', 'sub'): v = binop(op, av, bv_, 32)
            else:
                # the amount is the signed low 7 bits; negative amounts shift the other way
                k = sext(ext(bv_, 6, 0, 32), 7, 32)
                l, r = {'asl': ('shl', 'ashr'), 'lsl': ('shl', 'lshr'), 'asr': ('ashr', 'shl'), 'lsr': ('lshr', 'shl')}[op]
                neg_ = eq(ext(k, 31, 31, 32), 1, 1)
                v = ite(zb(neg_), binop(r, av, binop('sub', 0, k, 32), 32), binop(l, av, k, 32), 32)
            self.wr(m, lhs, v); return None
        if rhs.startswith('#'): self.wr(m, lhs, self.imm(rhs) & mask(32)); return None
        if self.isreg(m, rhs): self.wr(m, lhs, self.rd(m, rhs)); return None
        raise Unsupported('instruction %r' % i.text)
    def addr(self, m, s):
        M = re.fullmatch(r'(.+?)(?:\s*\+\s*#(-?\w+))?', s.strip())
        a = self.rd(m, M.group(1))
        if M.group(2): a = binop('add', a, int(M.group(2), 0) & mask(32), 32)
        return self.toptr(m, a, 32)
    def pair(self, s):
        M = re.fullmatch(r'r(\d+):(\d+)', s.strip())
        if not M or int(M.group(2)) % 2 or int(M.group(1)) != int(M.group(2)) + 1: raise Unsupported('register pair %s' % s)
        return 'r' + M.group(1), 'r' + M.group(2)
    def val(self, m, s, n):
        if n == 8:
            h, l = self.pair(s); return cat([(self.rd(m, h), 32), (self.rd(m, l), 32)])
        return self.imm(s) & mask(8 * n) if s.strip().startswith('#') else self.rd(m, s, 8 * n)
    def set(self, m, s, v, n):
        if n == 8:
            h, l = self.pair(s); self.wr(m, h, ext(v, 63, 32, 64)); self.wr(m, l, ext(v, 31, 0, 64))
        else: self.wr(m, s, v)

def make(cfg, L): return Hexagon(cfg, L)
