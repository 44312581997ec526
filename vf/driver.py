"""Runs one property's check over all configurations, in parallel, and writes evidence and replay files."""
import os, re, sys, time, json, random, traceback, multiprocessing as mp, hashlib, signal
from . import build, configs, llir, symex, ops, props, native
from .symex import Unsupported, STATS, TIMEOUT_MS
from .llir import IRError

ISAS = {}
def isa_for(cfg, L):
    from . import isa_x86
    if cfg.arch == 'x86':
        bits = 64 if cfg.target.startswith('x86_64') else 32
        return isa_x86.X86(bits, L.ptr)
    import importlib
    return importlib.import_module('vf.isa_' + cfg.arch).make(cfg, L)

# ---- recorded findings
def known_findings(pid):
    p = os.path.join(build.VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']
def known_matches(k, v):
    return all(re.fullmatch(k[f], str(v.get(f, ''))) for f in ('config', 'function', 'message') if f in k)

# ---- phase 1: build
def build_one(a):
    ws, cfg = a
    t = time.time()
    try:
        b = build.build(ws, cfg)
        mods = load(b)
        fns = []
        for t_ in build.TYPES:
            for op in ops.OPS:
                n = '%s_%s' % (op, t_)
                if n in mods[0].funcs: fns.append((op, t_, ops.closure_text(mods, n)))
        conv = []
        for t_ in build.TYPES:
            for op in ops.CONV:
                n = '%s_%s' % (op, t_)
                if n in mods[0].funcs: conv.append((op, t_, ops.closure_text(mods, n) + str(ops.tsize(t_, mods[0].layout.ptr))))
        L = mods[0].layout
        return dict(b=b, fns=fns, conv=conv, layout=(L.ptr, L.be, tuple(sorted(L.ialign.items()))), isa=isa_for(cfg, L).key, wall=time.time() - t)
    except (build.BuildError, IRError, Unsupported) as e:
        return dict(err='%s: %s' % (cfg.id, e))
    except Exception:
        return dict(err='%s: %s' % (cfg.id, traceback.format_exc()[-1500:]))

_mods = {}
def load(b):
    k = b['dir']
    if k not in _mods:
        _mods[k] = [llir.parse(open(b['harness_ll']).read()), llir.parse(open(b['crate_ll']).read())]


    return _mods[k]

def feature_ok(b, f):
    """is the feature guaranteed by the enabled target features and the crate's documented cfg assumptions?"""
    cfg = b['cfg']; feats = b['features']
    neg = {'cx': 'atomic_maybe_uninit_no_cmpxchg', 'cx8': 'atomic_maybe_uninit_no_cmpxchg8b'}
    if f in neg: return cfg.target.startswith('x86_64') or neg[f] not in b['cfgs']
    if f == 'cx16': f = 'cmpxchg16b'
    if f == 'cmov': return cfg.target.startswith('x86_64') or f in feats
    return f in feats

def native_replay(b, run, v):
    try:
        exe = native.build_runner(b)
        kw = native.replay_inputs(run, v.state, v.model)
        pr = native.predicted(run, v.state, v.model)
        got = native.call(exe, **kw)
        diff = sorted(k for k in pr if got.get(k) != pr[k])
        return dict(inputs=kw, predicted=pr, observed=got, reproduced=not diff, differs_in=diff)
    except Exception as e:
        return dict(error=str(e)[-500:])

def conform(b, run, out, limit, rng):
    """run some of the explored paths natively and compare with what the encoding predicts"""
    exe = native.build_runner(b)
    sts = [s for s in run.states if s.status == 'ret' and not s.viol and s.trace]
    rng.shuffle(sts)
    for st in sts[:limit]:
        m = symex.check(st.pc)
        if m is None: continue
        kw = native.replay_inputs(run, st, m); pr = native.predicted(run, st, m); got = native.call(exe, **kw)
        if got.get('status') == 'timeout': continue
        diff = sorted(k for k in pr if got.get(k) != pr[k])
        out['traces'] += 1
        if diff: out['mismatch'].append(dict(config=b['cfg'].id, function=kw['fn'], inputs=kw, predicted=pr, observed=got))

def run_task(task):
    """task: (property, built, items, tier, seed) -> results"""
    t0 = time.time()
    pid, b, items, tier, seed, nconf = task
    from . import checks
    out = dict(viol=[], err=[], n=0, traces=0, mismatch=[], samples=[], fns=[], data={})
    STATS.__init__()
    cfg = b['cfg']
    rng = random.Random('%s %s %s' % (seed, cfg.id, items[:1]))
    chk = checks.CHECKS[pid]
    try:
        mods = load(b) if b.get('harness_ll') else None
        for i, item in enumerate(items):
            try:
                vs, r = chk.run_item(b, mods, item, tier)
                out['n'] += 1
                out['viol'] += vs
                if chk.data is not None: out['data'][cfg.id, item] = chk.data
                if r is not None and i < nconf and not vs and native.can_run(cfg): conform(b, r, out, 2, rng)
                if r is not None and i == 0 and r.states:
                    s = r.states[rng.randrange(len(r.states))]
                    out['samples'].append(dict(config=cfg.id, function='%s_%s' % item[:2], mode=item[3], paths=len(r.states), path_status=s.status,
                                               events=[repr(e)[:160] for e in s.trace][:6], path_condition=[str(c)[:120] for c in s.pc[:6]]))
                    if not out['fns']:
                        out['fns'] = sorted(set(symex.demangle(n) for n in r.ex.used))
            except (Unsupported, IRError) as e:
                out['err'].append('%s %s: %s' % (cfg.id, item, e))
            except Exception:
                out['err'].append('%s %s: %s' % (cfg.id, item, traceback.format_exc()[-1200:]))
    except Exception:
        out['err'].append('%s: %s' % (cfg.id, traceback.format_exc()[-1200:]))
    out['stats'] = dict(vars(STATS)); out['wall'] = time.time() - t0; out['cfg'] = cfg.id
    return out

def run_second(task):
    """a follow-up query over what the first phase collected"""
    pid, arg = task
    from . import checks
    t0 = time.time(); STATS.__init__()
    out = dict(viol=[], err=[], n=0, traces=0, mismatch=[], samples=[], fns=[], data={}, cfg=str(arg[0]))
    try: checks.CHECKS[pid].run_second(arg, out)
    except (Unsupported, IRError) as e: out['err'].append('%s: %s' % (arg[:2], e))
    except Exception: out['err'].append('%s: %s' % (arg[:2], traceback.format_exc()[-1200:]))
    out['stats'] = dict(vars(STATS)); out['wall'] = time.time() - t0
    return out

def render(v, extra):
    """violation -> JSON-able dict"""
    st, m = v.state, v.model
    d = dict(property=v.prop, message=v.msg)
    d.update(extra)
    if m is not None:
        vals = {}
        for x in m.decls():
            try: vals[x.name()] = str(m[x])
            except Exception: pass
        d['inputs'] = {k: vals[k] for k in sorted(vals)}
    if st is not None:
        ev = []
        import z3
        def e_(x):
            if x is None: return None
            if isinstance(x, int): return hex(x)
            if isinstance(x, bool): return x
            if m is None: return str(x)
            try: return hex(m.eval(x, model_completion=True).as_long())
            except Exception: return str(m.eval(x, model_completion=True))
        for e in st.trace:
            ev.append(dict(kind=e.k, offset=e.off, bytes=e.n, read=e_(e.r), written=e_(e.w), **{k: (v2 if isinstance(v2, (bool, int, str)) else str(v2)) for k, v2 in e.x.items() if k[0] != '_'}))
        d['events'] = ev
        d['status'] = st.status; d['info'] = str(st.info)
        d['asm'] = [dict(template=a[2].split('\n'), constraints=a[3], options=list(a[1])) for a in st.asmlog]
    return d
