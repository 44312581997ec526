"""One class per property: which configurations and runs decide it."""
import os
from . import build, configs, symex, ops, props, driver, llir, native, mm
from .symex import Executor, Unsupported

BOUNDS = {'quick': dict(asm_retries='<= 2 back edges per operation under interference (fetch_update: 1), 6 without', closure_calls='<= 2 under interference', threads='one operation against arbitrary atomic interference before each of its machine accesses', values='all bit patterns, all orderings, all addresses of the natural alignment'),
          'thorough': dict(asm_retries='<= 4 back edges per operation under interference (C05, C06: as in quick), 6 without', closure_calls='<= 3 under interference', threads='one operation against arbitrary atomic interference before each of its machine accesses', values='all bit patterns, all orderings, all addresses of the natural alignment')}

class Check:
    level = 'model_checking'
    chunk = 12
    conform = True
    data = None          # what the last run_item collected for second()
    def second(self, built, tier, seen, data, errs): return []
    extra_coverage = {}
    assumptions = ['rustc/LLVM compile the emitted IR faithfully', 'the instruction semantics in vf/isa_*.py (validated natively for x86)', 'z3 is sound']
    def extra_tasks(self, built, tier): return []
    def finish(self, built, tier, errs, viols, stats, ws=None): pass
    def bounds(self, tier): return BOUNDS[tier]
    def configs(self, tier): return configs.all_configs(tier)
    def items(self, built, tier):
        """[(dedup key, item)]"""
        cfg = built['b']['cfg']
        ptrw = built['ptrw']
        r = []
        for op, t, h in built['fns']:
            if not self.want(op, t): continue
            n = ops.tsize(t, ptrw)
            for d in self.offsets(cfg, n):
                for mode in self.modes(op, tier):
                    r.append(((h, built['isakey'], cfg.emu_word, d, mode, self.key(cfg)), (op, t, d, mode)))
        return r
    def key(self, cfg): return ''
    def want(self, op, t): return True
    def offsets(self, cfg, n):
        if cfg.emu_word and n < 4: return list(range(0, 4, n))
        return [0]
    def modes(self, op, tier): return ['seq']
    def execute(self, b, mods, item, tier):
        op, t, d, mode = item
        cfg = b['cfg']
        isa = driver.isa_for(cfg, mods[0].layout)
        ex = Executor(mods, isa, cfg)
        n = ops.tsize(t, ex.ptrw)
        word = 4 if cfg.emu_word and n < 4 else None
        K = 2 if tier == 'quick' else 4
        if op == 'fu' and (tier == 'quick' or isinstance(self, Order)): K = 1      # the blocks are those of load and compare_exchange_weak
        kw = dict(d=d, word=word)
        if mode == 'seq': kw.update(max_retry=6, max_cb=3)
        elif mode == 'undef': kw.update(undef=True, max_retry=6, max_cb=2 if tier == 'quick' else 3)
        elif mode == 'interf': kw.update(interf=True, max_retry=K, max_cb=2 if tier == 'quick' else 3)
        elif mode == 'quiesce': kw.update(interf=True, quiesce=True, max_retry=2, max_cb=3)
        self.prepare(ex, item)
        return ops.execute(ex, op, t, **kw)
    def prepare(self, ex, item): pass
    def run_item(self, b, mods, item, tier):
        r = self.execute(b, mods, item, tier)
        vs = list(self.judge(r, item))
        cfg = b['cfg']
        out = []
        for v in vs[:3]:
            d = driver.render(v, dict(config=cfg.id, function='%s_%s' % item[:2], offset=item[2], mode=item[3]))
            if native.can_run(cfg) and v.state is not None and v.model is not None: d['native_replay'] = driver.native_replay(b, r, v)
            out.append(d)
        return out, r

class C01(Check):
    def judge(self, r, item): return props.c01(r)
class C02(Check):
    def modes(self, op, tier): return ['interf']
    def judge(self, r, item): return props.c02(r)
class C03(Check):
    def modes(self, op, tier): return ['seq', 'interf']
    def judge(self, r, item): return props.c03(r)
class C04(Check):
    def modes(self, op, tier): return ['seq', 'interf']
    def judge(self, r, item): return props.c04(r)
class Order(Check):
    """C05 and C06: classes of every operation, then litmus composition"""
    conform = False
    level = 'model_checking'
    def modes(self, op, tier): return ['interf']
    def key(self, cfg): return cfg.model
    def run_item(self, b, mods, item, tier):
        cfg = b['cfg']; self.data = None
        r = self.execute(b, mods, item, 'quick')
        cl, lost = mm.extract(r)
        if lost: raise symex.Unsupported('%d returning paths have no linearisation event (see C02)' % lost)
        self.data = sorted({(ck, mode, mm.attrs(cfg.model, ck, mode, lay), who) for ck, mode, lay, who in cl}, key=str)
        out = []
        if self.which == 'c05':
            for v in self.direct(r)[:2]: out.append(driver.render(v, dict(config=cfg.id, function='%s_%s' % item[:2], offset=item[2], mode=item[3])))
        return out, r
    def direct(self, r):
        c = props.Ctx('C05', r)
        for st in r.states: props.report_viols(c, st, ('opaque',), r)
        return c.out
    def second(self, built, tier, seen, data, errs):
        sets = {}
        for x in built:
            if 'err' in x: continue
            cfg = x['b']['cfg']
            cl = {}
            for key, it in self.items(x, tier):
                d = data.get(seen.get(key))
                if d is None: continue
                for ck, mode, a, who in d:
                    g, w = cl.setdefault(a, (set(), who)); g.add(it[1])
            if not cl: continue
            pr = mm.prune(cl)
            # types with the same classes need not be told apart
            sig = {}
            for t in sorted({t for _, g, _ in pr for t in g}): sig.setdefault(tuple(t in g for _, g, _ in pr), t)
            keep = set(sig.values())
            pr = [(a, frozenset(g & keep), w) for a, g, w in pr]
            pr.sort(key=lambda c: (sorted(c[0]), sorted(c[1])))
            k = (cfg.model, tuple((a, g) for a, g, _ in pr))
            if k in sets: sets[k][1].append(cfg.id)
            else: sets[k] = (pr, [cfg.id])
        self.nsets = len(sets)
        self.extra_coverage = dict(hardware_models=sorted({k[0] for k in sets}), class_sets=[dict(model=k[0], configurations=ids, classes=[dict(attributes=sorted(a), types=sorted(g), example=w) for a, g, w in pr]) for k, (pr, ids) in sets.items()], litmus_shapes=[list(s) for s in mm.shapes(tier)])
        # one query for all the sets of a hardware model together, any class on any location: if that admits no
        # violation, no configuration does; otherwise each set is asked on its own
        fam = {}
        for k, (pr, ids) in sets.items(): fam.setdefault(k[0], []).append((pr, ids))
        out = []
        for sh in reversed(mm.shapes(tier)):
            for model, ss in fam.items():
                cl = {}
                for pr, ids in ss:
                    for a, g, w in pr: cl.setdefault(a, ({'any'}, w))
                u = sorted([(a, frozenset(g), w) for a, g, w in mm.prune(cl)], key=lambda c: sorted(c[0]))
                out.append((self.which.upper(), ((model, sh), model, u, ss)))
        return out
    def run_second(self, arg, out):
        (cid, shape), model, union, ss = arg
        def ask(pr):
            q = mm.Query(model, shape, pr, 3 if sum(shape) > 3 else 2)
            if not q.nonvacuous(): raise Unsupported('the encoding admits no execution')
            out['n'] += 1
            return q.solve(self.which)
        if ask(union) is None: return
        for pr, ids in ss:
            x = ask(pr)
            if x is None: continue
            kind = 'an outcome happens-before forbids' if self.which == 'c05' else 'sequentially consistent operations without a single total order'
            prog = '; '.join('T%d: %s on %s%s' % (o['thread'], o['what'], o['location'], ' reading from ' + o['reads_from'] if o['reads_from'] and 'read' in o['kind'] else '') for o in x['program'])
            out['viol'].append(dict(property=self.which.upper(), config=ids[0], configurations=ids, function=x['program'][0]['what'].split()[0], mode='litmus %s' % (shape,), message='the hardware (%s model) allows %s: %s' % (model, kind, prog), execution=x))
    def bounds(self, tier):
        return dict(BOUNDS[tier], litmus='thread shapes (operations per thread): %s; <= 3 locations; every class, location, reads-from and coherence order symbolic' % mm.shapes(tier))
class C05(Order): which = 'c05'
class C06(Order): which = 'c06'
class C07(Check):
    def modes(self, op, tier): return ['seq', 'interf']
    def judge(self, r, item): return props.c07(r)
class C08(Check):
    conform = False      # the encoding leaves uninitialised bits arbitrary
    def modes(self, op, tier): return ['undef']
    def judge(self, r, item): return props.dbg(r) if item[3] == 'conv' else props.c08(r)
    def items(self, built, tier):
        return super().items(built, tier) + conv_items(self, built, ('dbg',))
    def execute(self, b, mods, item, tier):
        return conv_run(b, mods, item) if item[3] == 'conv' else super().execute(b, mods, item, tier)
def conv_items(chk, built, which):
    return [((h, built['isakey'], 'conv'), (op, t, 0, 'conv')) for op, t, h in built['conv'] if op in which]
def conv_run(b, mods, item):
    ex = Executor(mods, driver.isa_for(b['cfg'], mods[0].layout), b['cfg'])
    return ops.execute_conv(ex, item[0], item[1])
class C09(Check):
    conform = False
    def items(self, built, tier): return conv_items(self, built, [o for o in ops.CONV if o != 'dbg'])
    def execute(self, b, mods, item, tier): return conv_run(b, mods, item)
    def judge(self, r, item): return props.c09(r)
class C13(Check):
    conform = False
    def configs(self, tier): return configs.all_configs(tier)
    def modes(self, op, tier): return ['interf']
    def key(self, cfg): return (cfg.name, cfg.legacy)
    def prepare(self, ex, item):
        ex.seen_insns = {}
        def rec(i, m):
            f = ex.isa.insn_feature(i)
            if f: ex.seen_insns.setdefault((f, i.text), m.st)
        ex.record_asm = rec
    def run_item(self, b, mods, item, tier):
        self.b = b
        return super().run_item(b, mods, item, tier)
    def judge(self, r, item):
        out = []
        feats = self.b['features']
        for (f, text), st in r.ex.seen_insns.items():
            alts = f.split('|')
            if any(driver.feature_ok(self.b, a) for a in alts): continue
            m = st.sat(r.valid)
            if m is not None: out.append(props.Viol('C13', 'instruction "%s" needs %s, which this configuration does not guarantee' % (text, f), st, m))
        for st in r.states:
            for k, msg, cond in st.viol:
                if '#UD' in msg: out.append(props.Viol('C13', msg, st, None))
        return out
class C12(Check):
    """availability: formulas over cfg atoms, valid for every assignment; no configuration is enumerated"""
    conform = False
    def items(self, built, tier): return []
    assumptions = ['the expander in vf/cfgx.py (compared with rustc on every configuration built, and on each counterexample)', 'the target tuples printed by the installed nightly and the feature implications in vf/cfgx.py describe every real configuration', 'z3 is sound']
    def bounds(self, tier): return dict(none='all assignments of the cfg atoms the crate mentions that satisfy the target facts; no bound')
    def finish(self, built, tier, errs, viols, stats, ws=None):
        import time
        from . import c12
        try: f = c12.Facts(build.REPO)
        except Unsupported as e: errs.append('expansion: %s' % e); return
        ncmp = 0
        for x in built:
            if 'err' in x: continue
            b = x['b']; cfg = b['cfg']
            want = c12.answers(f, c12.assignment(ws, cfg, b['cfgs'])); got = c12.observed(ws, cfg, b['dir'])
            ncmp += 1
            diff = [str(k) for k in want if want[k] != got[k]]
            if diff: errs.append('%s: the expansion disagrees with rustc on %s' % (cfg.id, diff[:6]))
        obs = c12.obligations(f); nv = 0
        t = time.time()
        sat = symex.z3.Solver(); sat.add(*f.env)
        if sat.check() != symex.z3.sat: errs.append('no configuration satisfies the target facts'); return
        kf = driver.known_findings('C12')
        for subj, msg, goal in obs:
            stats['obligations'] += 1; excl = []
            while True:
                stats['queries'] += 1
                try: ce = c12.counterexample(f, goal, excl)
                except Unsupported as e: errs.append('%s: %s' % (msg, e)); break
                if ce is None: break
                v = dict(property='C12', config=ce[0], function=subj, mode='cfg', message=msg, inputs=ce[1])
                k = next((k for k in kf if driver.known_matches(k, v) and all((a.lstrip('!') in ce[1]) != a.startswith('!') for a in k['region'])), None)
                if nv < 3 or k:
                    try:
                        v['probe'], a = c12.confirm(ws, f, *ce)
                        if not v['probe']['predicted_equals_rustc']: errs.append('counterexample to "%s" not confirmed by rustc: %s' % (msg, v['probe']['differs'])); break
                    except (build.BuildError, Unsupported) as e: v['probe'] = dict(error=str(e)[-300:])
                viols.append(v)
                if k is None: nv += 1; break
                excl.append(k['region'])      # a recorded finding: look for another violation outside its region
        stats['solver_s'] += time.time() - t
        self.extra_coverage = dict(modules=[m for m, _ in f.x.modules], macro_invocations=f.x.invocations, implementations=sum(map(len, f.x.impls.values())), cfg_atoms=sorted(f.x.at.v), target_tuples=len(f.uni), compared_with_rustc=ncmp)
class C10(Check):
    def want(self, op, t): return op == 'fu'
    def modes(self, op, tier): return ['seq', 'interf']
    def judge(self, r, item): return props.c10(r)
class C11(Check):
    def modes(self, op, tier): return ['seq', 'quiesce']
    def judge(self, r, item): return props.c11(r, item[3] == 'quiesce')

CHECKS = {c.__name__: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13)}
