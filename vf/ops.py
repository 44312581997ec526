"""Sets up one symbolic run of a harness entry point and collects its final states."""
import hashlib, re, z3
from . import llir, symex, asmx
from .symex import *

OPS = ['load', 'rload', 'store', 'rstore', 'swap', 'rswap', 'cx', 'cxw', 'rcx', 'rcxw', 'fu']
TSIZE = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'i128': 16, 'u128': 16}
ORDS = ['Relaxed', 'Release', 'Acquire', 'AcqRel', 'SeqCst']
LOADF = ('load', 'rload'); STOREF = ('store', 'rstore'); SWAPF = ('swap', 'rswap'); CASF = ('cx', 'cxw', 'rcx', 'rcxw', 'fu')

def valid_orders(op, o, s, f):
    """z3 condition: the ordering arguments are accepted"""
    R, REL, ACQ, AR, SC = range(5)
    if op in LOADF: return z3.And(o != REL, o != AR)
    if op in STOREF: return z3.And(o != ACQ, o != AR)
    if op in SWAPF: return z3.BoolVal(True)
    return z3.And(f != REL, f != AR)

class Run:
    """everything a property check needs to know about a finished symbolic run"""

def tsize(t, ptrw):
    return TSIZE.get(t) or ptrw // 8

def setup(ex, op, t, d=0, word=None, undef=False):
    """returns (state, Run) ready to execute op_t"""
    L = ex.layout
    n = tsize(t, L.ptr)
    r = Run(); r.op, r.t, r.n, r.d = op, t, n, d
    W = 8 * n
    al = max(n, word or 1)
    r.al = al
    k = al.bit_length() - 1
    reset_fresh()
    h = z3.BitVec('addr', L.ptr - k) if k else z3.BitVec('addr', L.ptr)
    base = z3.Concat(h, z3.BitVecVal(0, k)) if k else h
    sub = (0x5A5 << (L.ptr - 12 - k)) & mask(L.ptr - k)      # any representative address
    ex.basesub = [(h, z3.BitVecVal(sub, L.ptr - k))]
    ex.locbase = base
    st = State(ex)
    # the location's word and its surroundings
    lo, hi = -16, al + 16
    # no wrap-around of the object
    st.assume(z3.UGT(base, z3.BitVecVal(64, L.ptr))); st.assume(z3.ULT(base, z3.BitVecVal(mask(L.ptr) - 128, L.ptr)))
    o = st.add_obj('LOC', lo, hi, base, 'loc')
    r.v0 = z3.BitVec('v0', W)
    r.u0 = z3.BitVec('u0', W) if undef else 0
    r.nb = {}
    i = lo
    while i < hi:
        if i == d:
            o.write(i, n, r.v0, r.u0, ex.be); i += n
        else:
            r.nb[i] = z3.BitVec('nb%d' % i, 8); o.write(i, 1, r.nb[i], 0, ex.be); i += 1
    ex.loc = 'LOC'
    for a, k in getattr(ex.isa, 'rom', {}).items():
        v = z3.BitVec('rom%x' % a, 8 * k); st.add_obj('rom%x' % a, 0, k, a, 'rom', True, k).write(0, k, v, 0, ex.be)
        ex.isa.rom_assume(st, a, v)
    ptr = (binop('add', base, d, L.ptr), 0)
    bufs = {}
    A0 = 0x20000 if L.ptr > 16 else 0x1000
    def buf(name, size, v, u):
        a = A0 + 0x100 * len(bufs)
        b = st.add_obj(name, 0, size, a, 'buf', False, 16)
        b.write(0, size, v, u, ex.be); bufs[name] = a
        return (a, 0)
    def operand(name):
        v = z3.BitVec(name, W); u = z3.BitVec('u' + name, W) if undef else 0
        setattr(r, name, v); setattr(r, 'u_' + name, u)
        return buf(name, n, v, u)
    def out(): return buf('out', n, z3.BitVec('outjunk', W), 0)
    def order(name):
        v = z3.BitVec(name, 8); st.assume(z3.ULT(v, z3.BitVecVal(5, 8))); setattr(r, name, v)
        return (v, 0)
    r.o = r.s = r.f = None
    if op in LOADF: args = [ptr, out(), order('o')]
    elif op in STOREF: args = [ptr, operand('val'), order('o')]
    elif op in SWAPF: args = [ptr, operand('val'), out(), order('o')]
    elif op == 'fu': args = [ptr, out(), order('s'), order('f')]
    elif op in CASF: args = [ptr, operand('exp'), operand('new'), out(), order('s'), order('f')]
    else: raise KeyError(op)
    r.valid = valid_orders(op, r.o, r.s, r.f)
    fn = ex.funcs['%s_%s' % (op, t)][0]
    if len(fn.params) != len(args): raise Unsupported('signature of %s_%s' % (op, t))
    r.fn = fn
    args = [(a[0], a[1]) if symex.is_int(a[0]) or not z3.is_bv(a[0]) or a[0].size() == L.bits(p[0]) else (zext(a[0], a[0].size(), L.bits(p[0])), 0) for a, p in zip(args, fn.params)]
    ex.call_function(st, '%s_%s' % (op, t), args)
    r.ex = ex; ex.locd = r.d
    return st, r

def cb_hook(t):
    """model of the user's closure passed to fetch_update: any function, different on every call"""
    def h(ex, st, fr, ins, args, setret):
        nm, off = st.resolve(args[0][0], tsize(t, ex.ptrw), 'cb'); nn, noff = st.resolve(args[1][0], tsize(t, ex.ptrw), 'cb')
        if nm is None or nn is None: raise Unsupported('closure argument')
        n = tsize(t, ex.ptrw)
        pv, pu = st.mem[nm].read(off, n, ex.be)
        nx = fresh('cbnext', 8 * n); b = fresh('cbsome', 1)
        nu = fresh('cbundef', 8 * n) if ex.undef else 0
        st.obj(nn).write(noff, n, nx, nu, ex.be)
        st.cbs.append((pv, pu, nx, nu, b, len(st.trace)))
        st.notes.append(('cbloc', st.mem['LOC'].read(ex.locd, n, ex.be)[0], None, None))      # the contents at this moment
        if len(st.cbs) > ex.max_cb:
            st.status = 'cut'; st.info = 'callback bound'; return [st]
        setret((b, 0))
    return h

def execute(ex, op, t, d=0, word=None, undef=False, interf=False, spurious=False, max_retry=2, max_cb=3, quiesce=False):
    ex.interf = interf; ex.spurious = spurious; ex.max_retry = max_retry; ex.max_cb = max_cb; ex.undef = undef; ex.quiesce = quiesce
    ex.externs = {'cb_' + t: cb_hook(t)}
    st, r = setup(ex, op, t, d, word, undef)
    r.fn = ex.funcs['%s_%s' % (op, t)][0]
    r.states = ex.run(st)
    return r

def message(m, g):
    """a string, or a source location"""
    i = g.get('init')
    if not i: return False
    if i[0] == 'bytes': return all(32 <= c < 127 or c in (0, 10) or c >= 0xc0 for c in i[2]) and len(i[2]) > 8
    if i[0] == 'agg' and len(i[2]) == 2 and i[2][0][1][0] == 'glob' and i[2][1][1][0] == 'bytes':
        f = m.globals.get(i[2][0][1][1], {}).get('init')
        return bool(f and f[0] == 'bytes' and f[2].rstrip(b'\0').endswith(b'.rs'))
    return False
LOCAL = re.compile(r'%("[^"]*"|[\w.$-]+)|^("[^"]*"|[\w.$-]+)(?=:)|"[^"]*"', re.M)
def canon(t, m):
    """local names and labels by order of appearance, without the sign-extension attributes of the calling convention"""
    names = {}
    def sub(q):
        n = q.group(1) or q.group(2)
        if n is None: return q.group(0)
        if n.strip('"') in m.types: return q.group(0)
        names.setdefault(n, len(names))
        return ('%%v%d' if q.group(1) else 'v%d') % names[n]
    return re.sub(r'\b(signext|zeroext)\b', '', LOCAL.sub(sub, t))
def closure_text(mod_list, name):
    """normalised text of a function and of everything it calls or reads (dedup key)"""
    seen = {}; order = []; ext_ = set()
    def visit(n):
        if n in seen: return
        for m in mod_list:
            if n in m.funcs:
                seen[n] = len(seen); order.append((n, m.funcs[n].text, m))
                for c in re.findall(r'@("[^"]*"|[\w.$]+)', m.funcs[n].text): visit(c.strip('"'))
                return
            if n in m.globals:
                g = m.globals[n]; seen[n] = len(seen)
                t = repr(sorted((k, v) for k, v in g.items() if k != 'init' or not message(m, g))) + str(m.layout.size(g['ty']))
                order.append((n, t, m))
                for c in re.findall(r"\('glob', '([^']+)'\)", t): visit(c)
                return
            if n in m.aliases:
                t = repr(m.aliases[n]); seen[n] = len(seen); order.append((n, t, m))
                for c in re.findall(r"\('glob', '([^']+)'\)", t): visit(c)
                return
        ext_.add(n)
    visit(name)
    h = hashlib.sha256()
    def ref(n):
        if n in seen: return '@#%d' % seen[n]
        if n.startswith('cb_'): return '@cb'
        d = next((m.decls[n] for m in mod_list if n in m.decls), None)
        return '@' + re.sub(r'(?<=_)Cs\w+?_(?=\d)', '', n) + (' noreturn' if d is not None and d.noreturn else '')
    for n, t, m in order:
        if n in m.funcs: t = canon(re.sub(r';.*', '', t), m)
        t = t if n in m.funcs else re.sub(r"\('glob', '([^']+)'\)", lambda q: ref(q.group(1)), t)
        t = re.sub(r'@("[^"]*"|[\w.$]+)', lambda q: ref(q.group(1).strip('"')), t)
        t = re.sub(r'![\w.]*guid !\d+', '', t)
        t = re.sub(r'!\d+', '!', t)
        t = re.sub(r' #\d+', '', t)
        h.update(('%d ' % seen[n] + t).encode())
    return h.hexdigest()

# ---- construction / conversion entry points (C09) and Debug (C08)
CONV = ['new', 'cnew', 'fromm', 'fromv', 'into', 'getmut', 'asptr', 'fromptr', 'layout', 'dbg']

def execute_conv(ex, op, t):
    ex.interf = False; ex.spurious = False; ex.max_retry = 2; ex.max_cb = 1; ex.quiesce = False; ex.undef = True; ex.taintmap = {}
    L = ex.layout; n = tsize(t, L.ptr); W = 8 * n
    r = Run(); r.op, r.t, r.n, r.d, r.ex = op, t, n, 0, ex
    r.valid = z3.BoolVal(True)
    reset_fresh()
    k = n.bit_length() - 1
    h = z3.BitVec('addr', L.ptr - k)
    base = z3.Concat(h, z3.BitVecVal(0, k)) if k else h
    ex.basesub = [(h, z3.BitVecVal((0x5A5 << (L.ptr - 12 - k)) & mask(L.ptr - k), L.ptr - k))]
    ex.locbase = base; ex.loc = 'LOC'
    st = State(ex)
    st.assume(z3.UGT(base, z3.BitVecVal(64, L.ptr))); st.assume(z3.ULT(base, z3.BitVecVal(mask(L.ptr) - 128, L.ptr)))
    o = st.add_obj('LOC', 0, n, base, 'loc')
    r.v0 = z3.BitVec('v0', W); r.u0 = z3.BitVec('u0', W)
    o.write(0, n, r.v0, r.u0, ex.be)
    A0 = 0x20000 if L.ptr > 16 else 0x1000
    r.val = z3.BitVec('val', W); r.u_val = z3.BitVec('uval', W) if op != 'fromv' else 0
    b = st.add_obj('val', 0, n, A0, 'buf', False, 16); b.write(0, n, r.val, r.u_val, ex.be)
    sz = max(n, 64)
    b = st.add_obj('out', 0, sz, A0 + 0x100, 'buf', False, 16)
    fmt = st.add_obj('fmt', 0, 128, A0 + 0x400, 'buf', False, 16)
    for i in range(0, 128, 4): fmt.write(i, 4, fresh('fmt', 32), 0, ex.be)
    if ex.cfg.own_core:
        # the nightly core inlines the writer call of Formatter: every word may be the pointer to its vtable
        p = L.ptr // 8; SINK = A0 + 0x700
        vt = st.add_obj('fmtvt', 0, 128, A0 + 0x600, 'buf', True, 16); ex.indirect = {SINK: 'the writer of the formatter'}
        for i in range(0, 128, p): fmt.write(i, p, A0 + 0x600, 0, ex.be); vt.write(i, p, SINK, 0, ex.be)
    loc = (base, 0); val = (A0, 0); out = (A0 + 0x100, 0); f = (A0 + 0x400, 0)
    args = {'new': [val, out], 'cnew': [val, out], 'fromm': [val, out], 'fromv': [val, out], 'into': [loc, out], 'getmut': [loc], 'asptr': [loc], 'fromptr': [loc], 'layout': [out], 'dbg': [loc, f]}[op]
    r.escapes = []
    depth = [0]
    def ext_hook(ex, st, fr, ins, name, args, setret):
        inloc = [a for a in args if a is not None and not isinstance(a, list) and st.resolve(a[0], 1, '')[0] == 'LOC']
        if inloc:
            # handed to code outside the crate: follow the functions of the vtables handed over with it
            tabs = []
            for a in args:
                if a is None or isinstance(a, list) or not is_int(a[0]): continue
                nm, off = st.resolve(a[0], 1, '')
                if nm and nm.startswith('@') and ('vtable' in nm):
                    for m in ex.mods:
                        g = m.globals.get(nm[1:])
                        if g: tabs += re.findall(r"\('glob', '([^']+)'\)", repr(g['init']))
            if not tabs or depth[0] > 3: st.violate('ub', 'formatting hands the value to %s' % demangle(name))
            for fn in tabs:
                if fn in ex.funcs and len(ex.funcs[fn][0].params) == 2:
                    s2 = st.fork(); s2.frames = []
                    ex.call_function(s2, fn, [inloc[0], f]); depth[0] += 1
                    for q in ex.run(s2): r.escapes.append(q)
                    depth[0] -= 1
                elif 'drop' not in fn: st.violate('ub', 'formatting hands the value to %s' % demangle(fn))
        rt = ins.ty
        if rt == ('void',): setret(None); return
        def fr_(t):
            if t[0] == 'struct': return [fr_(x) for x in t[1]]
            return (fresh('ext', ex.layout.bits(t)), 0)
        setret(fr_(rt))
    ex.externs = {'*': ext_hook}
    fn = ex.funcs['%s_%s' % (op, t)][0]; r.fn = fn
    ex.call_function(st, '%s_%s' % (op, t), args)
    r.states = ex.run(st)
    r.base = base
    return r
