"""Per-property verification conditions over the final states of a symbolic run."""
import z3
from .symex import *
from . import symex, asmx, ops
from .ops import LOADF, STOREF, SWAPF, CASF

class Viol:
    def __init__(self, prop, msg, state=None, model=None):
        self.prop, self.msg, self.state, self.model = prop, msg, state, model

class Ctx:
    """collects violations of one property for one run"""
    def __init__(self, prop, run):
        self.prop, self.run, self.out = prop, run, []
    def must(self, st, goal, msg, *assume):
        """goal must hold in every model of the path condition and the assumptions"""
        STATS.obligations += 1
        if goal is True: STATS.simplified += 1; return True
        if any(a is False for a in assume): return True
        assume = [zb(a) for a in assume if a is not True]
        g = z3.BoolVal(False) if goal is False else z3.simplify(goal)
        if z3.is_true(g): STATS.simplified += 1; return True
        m = st.sat(*assume, z3.Not(g))
        if m is not None:
            self.out.append(Viol(self.prop, msg, st, m)); return False
        return True

def sub(e_off, n, val, run, be):
    """the bits of an access [e_off, e_off+n) that belong to the location, or None if it does not cover it"""
    a = run.d - e_off
    if a < 0 or a + run.n > n: return None
    if be: lo = 8 * (n - a - run.n)
    else: lo = 8 * a
    return ext(val, lo + 8 * run.n - 1, lo, 8 * n)

def bits_unchanged(ev, run, be, only_nb=False):
    """condition: an RMW event stores what it read (optionally: only outside the location)"""
    n = ev.n
    if not only_nb: return eq(ev.r, ev.w, 8 * n)
    m = mask(8 * n)
    a = run.d - ev.off
    for i in range(n):
        if a <= i < a + run.n:
            k = (n - 1 - i) if be else i
            m &= ~(0xff << (8 * k))
    return eq(binop('and', ev.r, m, 8 * n), binop('and', ev.w, m, 8 * n), 8 * n)

def locval(st, run):
    return st.mem['LOC'].read(run.d, run.n, st.ex.be)
def outval(st, run):
    return st.mem['out'].read(0, run.n, st.ex.be)
def okflag(st, run):
    v = st.retval
    w = st.ex.layout.bits(run.fn.ret)
    return eq(v[0], 1, w), w

def writes(st): return [e for e in st.trace if e.k in ('W', 'RMW', 'plainW')]
def reads(st): return [e for e in st.trace if e.k in ('R', 'RMW')]
def shared(st): return [e for e in st.trace if e.k in ('W', 'RMW', 'R', 'plainW', 'plainR', 'SCFAIL')]

def bad_status(c, st, run, cut_ok):
    """states that did not return"""
    if st.status == 'ret': return False
    if st.status == 'cut':
        if not cut_ok: c.must(st, False, 'the operation does not terminate (%s)' % st.info, run.valid)
        return True
    if st.status == 'panic':
        c.must(st, False, 'panics although the ordering arguments are valid: %s %s' % (st.info[0], st.info[1][:2]), run.valid)
    elif not st.viol:
        c.must(st, False, 'undefined behaviour: %s' % st.info, run.valid)
    return True

def report_viols(c, st, kinds, run, extra=()):
    for k, msg, cond in st.viol:
        if k in kinds:
            m = st.sat(zb(run.valid), cond, *extra) if st.status != 'panic' else None
            if m is None and st.status != 'panic':
                # the recorded condition was feasible when it was raised; later assumptions exclude it
                continue
            if m is not None: c.out.append(Viol(c.prop, msg, st, m))

# ---------------------------------------------------------------- C01
def c01(run):
    c = Ctx('C01', run); V = run.valid; W = 8 * run.n
    for st in run.states:
        report_viols(c, st, ('ub', 'mem'), run)
        if bad_status(c, st, run, False): continue
        lv = locval(st, run)[0]
        op = run.op
        if op in LOADF:
            c.must(st, eq(outval(st, run)[0], run.v0, W), 'load does not return the contents', V)
            c.must(st, eq(lv, run.v0, W), 'load changes the contents', V)
        elif op in STOREF:
            c.must(st, eq(lv, run.val, W), 'store does not leave the stored value', V)
        elif op in SWAPF:
            c.must(st, eq(outval(st, run)[0], run.v0, W), 'swap does not return the previous value', V)
            c.must(st, eq(lv, run.val, W), 'swap does not store the new value', V)
        elif op == 'fu':
            ok, w = okflag(st, run)
            c.must(st, eq(outval(st, run)[0], run.v0, W), 'fetch_update does not return the previous value', V)
            if not st.cbs: c.must(st, False, 'fetch_update does not call the closure', V); continue
            pv, pu, nx, nu, b, _ = st.cbs[-1]
            c.must(st, z3.Implies(zb(ok), bv(lv, W) == bv(nx, W)), 'fetch_update does not store the value returned by the closure', V)
            c.must(st, z3.Implies(z3.Not(zb(ok)), bv(lv, W) == run.v0), 'failed fetch_update changes the contents', V)
            c.must(st, zb(ok) == (bv(b, 1) == 1), 'fetch_update outcome differs from the closure', V)
        else:
            ok, w = okflag(st, run)
            same = run.v0 == run.exp
            c.must(st, eq(outval(st, run)[0], run.v0, W), 'compare_exchange does not return the previous value', V)
            c.must(st, z3.Implies(zb(ok), same), 'compare_exchange succeeds although the contents differ from the expected value', V)
            if op in ('cx', 'rcx'):
                c.must(st, z3.Implies(same, zb(ok)), 'compare_exchange fails although the contents equal the expected value', V)
            c.must(st, z3.Implies(zb(ok), bv(lv, W) == run.new), 'successful compare_exchange does not store the new value', V)
            c.must(st, z3.Implies(z3.Not(zb(ok)), bv(lv, W) == run.v0), 'failed compare_exchange changes the contents', V)
    return c.out

# ---------------------------------------------------------------- C02
def lin_alternatives(st, run, want_r=None, want_w=None, ne=None, need='any'):
    """OR over events e of: e covers the location, read == want_r (and != ne), written == want_w, every other write rewrites what it read"""
    be = st.ex.be
    ws = writes(st)
    alts = []
    for e in shared(st):
        if e.k in ('plainR', 'plainW', 'SCFAIL'): continue
        conds = []
        if want_r is not None or ne is not None:
            if e.k == 'W': continue
            rv = sub(e.off, e.n, e.r, run, be)
            if rv is None: continue
            if want_r is not None: conds.append(eq(rv, want_r, 8 * run.n))
            if ne is not None: conds.append(NOT(eq(rv, ne, 8 * run.n)))
        if want_w is not None:
            if e.k == 'R': continue
            wv = sub(e.off, e.n, e.w, run, be)
            if wv is None: continue
            if (want_r is not None) and e.k != 'RMW': continue
            conds.append(eq(wv, want_w, 8 * run.n))
        for f in ws:
            if f is e and want_w is not None: continue
            if f.k != 'RMW': conds.append(False)
            else: conds.append(bits_unchanged(f, run, be))
        x = AND(*conds)
        if x is True: return True
        if x is not False: alts.append(zb(x))
    return OR(*alts) if alts else False

def c02(run):
    c = Ctx('C02', run); V = run.valid; W = 8 * run.n
    for st in run.states:
        report_viols(c, st, ('ub', 'mem'), run)
        if bad_status(c, st, run, True): continue
        for e in st.trace:
            if e.k in ('plainR', 'plainW'):
                c.must(st, False, 'non-atomic %s of the location in compiled code: %s' % ('read' if e.k == 'plainR' else 'write', e.x.get('line', '')), V)
        op = run.op
        if op in LOADF:
            c.must(st, lin_alternatives(st, run, want_r=outval(st, run)[0]), 'load returns a value the location did not hold at any single point (torn or stale), or modifies it', V)
        elif op in STOREF:
            c.must(st, lin_alternatives(st, run, want_w=run.val), 'store is not a single indivisible write of the value', V)
        elif op in SWAPF:
            c.must(st, lin_alternatives(st, run, want_r=outval(st, run)[0], want_w=run.val), 'swap is not a single indivisible exchange: an update can be lost or a wrong value returned', V)
        else:
            ok, w = okflag(st, run)
            out = outval(st, run)[0]
            if op == 'fu':
                if not st.cbs: c.must(st, False, 'closure not called', V); continue
                exp, new = st.cbs[-1][0], st.cbs[-1][2]
            else: exp, new = run.exp, run.new
            good = AND(lin_alternatives(st, run, want_r=out, want_w=new), eq(out, exp, W))
            c.must(st, z3.Implies(zb(ok), zb(good)), 'successful %s is not a single indivisible replacement of the expected value: an update can be lost' % op, V)
            if op in ('cx', 'rcx'):
                bad = lin_alternatives(st, run, want_r=out, ne=exp)
                c.must(st, z3.Implies(z3.Not(zb(ok)), zb(bad)), 'failed strong compare_exchange although the location never held a different value at a single point, or it returns another value, or has an effect', V)
            else:
                bad = lin_alternatives(st, run, want_r=out)
                c.must(st, z3.Implies(z3.Not(zb(ok)), zb(bad)), 'failed %s has an effect or returns a value the location did not hold' % op, V)
    return c.out

# ---------------------------------------------------------------- C03
def c03(run):
    c = Ctx('C03', run); V = run.valid; be = None
    for st in run.states:
        be = st.ex.be
        report_viols(c, st, ('mem',), run)
        if st.status not in ('ret', 'cut'): continue
        emu = st.ex.cfg.emu_word
        for e in shared(st):
            if e.k in ('plainR', 'plainW'): continue
            inside = run.d <= e.off and e.off + e.n <= run.d + run.n
            if e.n & (e.n - 1) or e.off % e.n:
                c.must(st, False, 'access of %d bytes at offset %+d from the location is misaligned' % (e.n, e.off - run.d), V)
            if not inside:
                word = max(4, run.n)
                if not emu or not (0 <= e.off and e.off + e.n <= word):
                    c.must(st, False, '%s of %d bytes at offset %+d reaches outside the %d-byte location' % (e.k, e.n, e.off - run.d, run.n), V)
                elif e.k == 'W':
                    c.must(st, False, 'plain store of %d bytes at offset %+d overwrites bytes next to the location' % (e.n, e.off - run.d), V)
                elif e.k == 'RMW':
                    c.must(st, bits_unchanged(e, run, be, True), 'the bytes next to the location are altered', V)
        if run.op in LOADF and run.n * 8 <= st.ex.ptrw:
            for e in st.trace:
                if e.k in ('W', 'RMW', 'SCFAIL', 'plainW'):
                    c.must(st, False, 'a load of pointer width or narrower writes to its location (%s)' % e.k, V)
        if st.status != 'ret': continue
        for nm, var in (('val', getattr(run, 'val', None)), ('exp', getattr(run, 'exp', None)), ('new', getattr(run, 'new', None))):
            if var is not None:
                c.must(st, eq(st.mem[nm].read(0, run.n, be)[0], var, 8 * run.n), 'the operand %s is overwritten' % nm, V)
        if not st.ex.interf:
            for i, v in run.nb.items():
                x, u = st.mem['LOC'].read(i, 1, be)
                if x is not v: c.must(st, eq(x, v, 8), 'the byte at offset %+d from the location is changed' % (i - run.d), V)
        for k, nm, off, n in st.notes:
            if k in ('W', 'RMW') and st.mem.get(nm) is not None and st.mem[nm].kind == 'global':
                c.must(st, False, 'writes to a global variable', V)
    return c.out

# ---------------------------------------------------------------- C04
def c04(run):
    c = Ctx('C04', run)
    raw = run.op.startswith('r')
    for st in run.states:
        if st.status == 'panic':
            c.must(st, False, 'panics although the orderings are valid: %s %s' % (st.info[0], st.info[1][:2]), run.valid)
            if not raw and (shared(st) or st.cbs):
                c.must(st, False, 'has an effect (%s) before panicking' % ('closure call' if st.cbs else 'access'), z3.Not(run.valid))
            if not raw and st.info[0].endswith('trap'):
                c.must(st, False, 'aborts instead of panicking', z3.Not(run.valid))
        elif st.status == 'ret':
            if not raw: c.must(st, run.valid, 'invalid ordering is accepted', True)
        elif st.status == 'ub':
            for k, msg, cond in st.viol:
                if k == 'ub': c.must(st, z3.Not(cond), msg, *([run.valid] if raw else []))
        elif st.status == 'cut' and not st.ex.interf:
            c.must(st, False, 'never completes (%s)' % st.info, run.valid)
        elif st.status == 'cut' and not raw:
            c.must(st, run.valid, 'invalid ordering is accepted', True)
    return c.out

# ---------------------------------------------------------------- C07
def c07(run):
    c = Ctx('C07', run)
    for st in run.states:
        report_viols(c, st, ('contract', 'opaque'), run)
        if st.irq == 'off' and st.status in ('ret', 'panic'): c.must(st, False, 'returns with interrupts disabled', True)
    return c.out

# ---------------------------------------------------------------- C08
def c08(run):
    c = Ctx('C08', run); V = run.valid; W = 8 * run.n
    for st in run.states:
        report_viols(c, st, ('ub',), run)
        if st.status != 'ret': continue
        be = st.ex.be
        lv, lu = locval(st, run)
        def same(v, u, ref, uref, msg):
            """every bit initialised in ref is initialised and equal in v"""
            bad = binop('and', binop('or', binop('xor', bv(v, W), ref, W), u, W), binop('xor', uref, mask(W), W), W)
            c.must(st, eq(bad, 0, W), msg, V)
        if run.op in LOADF:
            ov, ou = outval(st, run); same(ov, ou, run.v0, run.u0, 'initialised bits of the loaded value are lost'); same(lv, lu, run.v0, run.u0, 'load changes the contents')
        elif run.op in STOREF: same(lv, lu, run.val, run.u_val, 'initialised bits of the stored value are lost')
        elif run.op in SWAPF:
            ov, ou = outval(st, run); same(ov, ou, run.v0, run.u0, 'initialised bits of the previous value are lost'); same(lv, lu, run.val, run.u_val, 'initialised bits of the stored value are lost')
        else:
            ok, w = okflag(st, run)
            ru = st.retval[1]
            c.must(st, eq(ru, 0, w), 'the success flag is uninitialised', V)
            ov, ou = outval(st, run); same(ov, ou, run.v0, run.u0, 'initialised bits of the previous value are lost')
            new, unew = (st.cbs[-1][2], st.cbs[-1][3]) if run.op == 'fu' and st.cbs else (getattr(run, 'new', 0), getattr(run, 'u_new', 0))
            bad1 = binop('and', binop('or', binop('xor', bv(lv, W), bv(new, W), W), lu, W), binop('xor', unew, mask(W), W), W)
            c.must(st, z3.Implies(zb(ok), zb(eq(bad1, 0, W))), 'initialised bits of the stored value are lost', V)
            bad0 = binop('and', binop('or', binop('xor', bv(lv, W), run.v0, W), lu, W), binop('xor', run.u0, mask(W), W), W)
            c.must(st, z3.Implies(z3.Not(zb(ok)), zb(eq(bad0, 0, W))), 'a failed operation changes initialised bits', V)
    return c.out

# ---------------------------------------------------------------- C10
def c10(run):
    c = Ctx('C10', run); V = run.valid; W = 8 * run.n
    for st in run.states:
        if st.ex.interf is False: report_viols(c, st, ('ub', 'mem'), run)
        # every call sees a value the location really held
        be = st.ex.be
        rds = [x for x in ((sub(e.off, e.n, e.r, run, be)) for e in reads(st)) if x is not None]
        for i, (pv, pu, nx, nu, b, at) in enumerate(st.cbs):
            held = [x for x in (sub(e.off, e.n, e.r, run, be) for e in st.trace[:at] if e.k in ('R', 'RMW')) if x is not None]
            c.must(st, OR(*[eq(x, pv, W) for x in held]) if held else False, 'the closure is called with a value the location did not hold', V)
            if i + 1 < len(st.cbs):
                c.must(st, eq(b, 1, 1), 'the closure is called again after it returned None', V)
        if bad_status(c, st, run, st.ex.interf): continue
        if not st.cbs: c.must(st, False, 'returns without calling the closure', V); continue
        ok, w = okflag(st, run); out = outval(st, run)[0]
        pv, pu, nx, nu, b, at = st.cbs[-1]
        c.must(st, zb(ok) == (bv(b, 1) == 1), 'Ok/Err does not correspond to the last result of the closure', V)
        c.must(st, eq(out, pv, W), 'returns a value different from the one last passed to the closure', V)
        after = State.__new__(State); after.trace = st.trace[at:]; after.ex = st.ex
        good = lin_alternatives(st, run, want_r=out, want_w=nx)
        c.must(st, z3.Implies(zb(ok), zb(good)), 'Ok(previous) without one indivisible replacement of previous by the value returned for it', V)
        none = AND(*[bits_unchanged(e, run, be) if e.k == 'RMW' else False for e in writes(st)])
        c.must(st, z3.Implies(z3.Not(zb(ok)), zb(none)), 'Err(previous) although something was stored', V)
        if not st.ex.interf:
            c.must(st, len(st.cbs) == 1, 'the closure is called more than once without interference', V)
    return c.out

# ---------------------------------------------------------------- C11
def c11(run, quiesce=False):
    c = Ctx('C11', run); V = run.valid
    for st in run.states:
        if st.status == 'panic' or st.status == 'ub': continue
        limit = 1 if quiesce else 0
        if st.status == 'cut':
            c.must(st, False, 'the operation keeps retrying %s (%s)' % ('after interference has stopped' if quiesce else 'without any interference', st.info), V); continue
        if st.counts.get('retry', 0) > limit:
            c.must(st, False, 'the operation retries %s' % ('after interference has stopped' if quiesce else 'although nothing interferes'), V)
        if run.op == 'fu':
            # interference stops at the second call of the closure; a call that was given the current contents must be the last
            loc = [x[1] for x in st.notes if x[0] == 'cbloc']
            for k in range(limit, len(st.cbs) - 1):
                c.must(st, NOT(eq(st.cbs[k][0], loc[k], 8 * run.n)), 'fetch_update retries %s' % ('after interference has stopped' if quiesce else 'although nothing interferes'), V)
        if not quiesce and run.op in ('cx', 'cxw', 'rcx', 'rcxw'):
            ok, w = okflag(st, run)
            c.must(st, z3.Implies(run.v0 == run.exp, zb(ok)), '%s with a matching expected value fails although nothing interferes' % run.op, V)
        if st.counts.get('sc_without_ll'):
            c.must(st, False, 'store-conditional without a matching reservation', V)
    return c.out

# ---------------------------------------------------------------- C09 / Debug
def c09(run):
    c = Ctx('C09', run); W = 8 * run.n; P = run.ex.ptrw
    def same(st, v, u, ref, uref, msg):
        bad = binop('and', binop('or', binop('xor', bv(v, W), bv(ref, W), W), u, W), binop('xor', uref, mask(W), W), W)
        c.must(st, eq(bad, 0, W), msg)
    for st in run.states:
        report_viols(c, st, ('ub', 'mem'), run)
        if bad_status(c, st, run, False): continue
        be = st.ex.be; op = run.op
        lv, lu = st.mem['LOC'].read(0, run.n, be); ov, ou = st.mem['out'].read(0, run.n, be)
        same(st, lv, lu, run.v0, run.u0, '%s changes the contents' % op)
        for e in st.trace:
            if op != 'into' and e.k != 'F': c.must(st, False, '%s accesses the contents' % op)
            elif e.k in ('W', 'RMW', 'plainW'): c.must(st, False, '%s writes the contents' % op)
        if op in ('new', 'cnew', 'fromm', 'fromv'): same(st, ov, ou, run.val, run.u_val, '%s does not store the given value' % op)
        elif op == 'into': same(st, ov, ou, run.v0, run.u0, 'into_inner does not return the contents')
        elif op in ('getmut', 'asptr', 'fromptr'):
            c.must(st, eq(st.retval[0], run.base, P), '%s does not refer to the same location' % op)
        elif op == 'layout':
            p = P // 8; o = st.mem['out']
            a, b, d = [o.read(p * i, p, be)[0] for i in range(3)]
            c.must(st, AND(eq(a, d, P), eq(a, run.n, P)), 'size of the atomic type differs from its integer type')
            c.must(st, eq(b, run.n, P), 'the atomic type is not aligned to its size')
    return c.out

def dbg(run):
    c = Ctx('C08', run)
    for st in run.states + run.escapes:
        for e in st.trace: c.must(st, False, 'formatting for debugging accesses the value (%s)' % e.k)
        report_viols(c, st, ('ub', 'mem'), run)
        if st.status == 'panic': c.must(st, False, 'formatting for debugging panics')
    return c.out
