#!/usr/bin/env python3
"""Decides one property on /repo's working tree.  usage: run.py PROPERTY [--tier quick|thorough]"""
import sys, os, time, json, multiprocessing as mp, argparse, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import build, driver, checks

HERE = os.path.dirname(os.path.abspath(__file__))

def chain(*fs):
    for f in fs: yield from f()

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=''); ap.add_argument('-v', action='store_true'); ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--no-conform', action='store_true')
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    chk = checks.CHECKS[pid]
    cfgs = [c for c in chk.configs(a.tier) if a.only in c.id]
    ws = build.Workspace()
    errs = []; viols = []; stats = dict(queries=0, solver_s=0.0, instrs=0, asm_instrs=0, paths=0, obligations=0, simplified=0); nrun = 0
    traces = 0; mism = []; samples = []; fns = set(); total = 0; seen = {}; per = {}; data = {}
    try:
        with mp.Pool(a.j, maxtasksperchild=40) as pool:
            ws.build_script()
            built = pool.map(driver.build_one, [(ws, c) for c in cfgs], chunksize=1)
            tasks = []
            for x in built:
                if 'err' in x: errs.append(x['err']); continue
                b = x['b']; x['ptrw'] = x['layout'][0]; x['isakey'] = (b['cfg'].arch, x['isa'], x['layout'])
                its = []
                for key, it in chk.items(x, a.tier):
                    total += 1
                    if key in seen: continue
                    seen[key] = (b['cfg'].id, it); its.append(it)
                n = chk.chunk
                nc = 0 if a.no_conform or not chk.conform else 1 if a.tier == 'quick' else n
                for i in range(0, len(its), n): tasks.append((pid, b, its[i:i + n], a.tier, seed, nc))
            for t in chk.extra_tasks(built, a.tier): tasks.append((pid, t[0], t[1], a.tier, seed, 0)); total += len(t[1])
            tb = time.time()
            for r in chain(lambda: pool.imap_unordered(driver.run_task, tasks, chunksize=1), lambda: pool.imap_unordered(driver.run_second, chk.second(built, a.tier, seen, data, errs), chunksize=1)):
                data.update(r['data'])
                nrun += r['n']; errs += r['err']; viols += r['viol']; traces += r['traces']; mism += r['mismatch']
                if len(samples) < 6: samples += r['samples']
                fns.update(r['fns']); per[r['cfg']] = per.get(r['cfg'], 0) + r['n']
                for k in stats: stats[k] += r['stats'].get(k, 0)
                if a.v: print(r['cfg'], r['n'], round(r['wall'], 1), len(r['viol']), len(r['err']), flush=True)
            chk.finish(built, a.tier, errs, viols, stats, ws)
    finally:
        ws.close()
    wall = time.time() - t0
    kf = driver.known_findings(pid); new = []; hit = {}
    for v in viols:
        for k in kf:
            if driver.known_matches(k, v) and ('region' not in k or all((x.lstrip('!') in v['inputs']) != x.startswith('!') for x in k['region'])): hit[k['id']] = k; break
        else: new.append(v)
    for k in hit.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if mism and not new:
        for m in mism[:3]: errs.append('native execution differs from the encoding: %s' % json.dumps(m)[:1500])
    print('%s (%s): %d configurations, %d entry points x modes (%d distinct), %d symbolic runs, %d paths, %d queries, %.1f s solver time, %d paths executed natively (%d mismatches), build %.1f s, wall %.1f s' % (
        pid, a.tier, len(cfgs), total, len(seen), nrun, stats['paths'], stats['queries'], stats['solver_s'], traces, len(mism), tb - t0, wall))
    for e in errs[:10]: print('INCONCLUSIVE', e)
    ev = dict(property=pid, tier=a.tier, seed=seed, level=chk.level, wall_s=round(wall, 2), violations=len(new),
              coverage=dict(states=stats['paths'], transitions=stats['instrs'] + stats['asm_instrs'], traces_validated_against_impl=traces, samples=samples[:6],
                            configurations=[c.id for c in cfgs], symbolic_runs=nrun, runs_per_configuration=per, entry_points_considered=total, distinct_after_dedup=len(seen),
                            queries_discharged=stats['queries'], obligations=stats['obligations'], obligations_closed_by_simplifier=stats['simplified'], solver_seconds=round(stats['solver_s'], 2), ir_instructions_executed=stats['instrs'], asm_instructions_executed=stats['asm_instrs'],
                            functions_encoded=sorted(fns)[:200], bounds=chk.bounds(a.tier), inconclusive=errs[:20], native_mismatches=len(mism), known_findings=sorted(hit)),
              assumptions=chk.assumptions)
    ev['coverage'].update(chk.extra_coverage)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    if new:
        rd = os.path.join(HERE, 'build', 'replay'); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + '.json')
        new.sort(key=lambda v: (not (v.get('native_replay') or {}).get('reproduced'), len((v.get('execution') or {}).get('program', ()))))
        with open(path, 'w') as f: json.dump(dict(property=pid, count=len(new), violations=new[:20]), f, indent=1)
        for v in new[:8]:
            nr = v.get('native_replay') or {}
            print('  %s %s [%s]: %s%s' % (v.get('config'), v.get('function'), v.get('mode'), v['message'], ' (reproduced natively)' if nr.get('reproduced') and pid != 'C07' else ''))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    sys.exit(2 if errs else 0)
if __name__ == '__main__': main()
