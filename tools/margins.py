#!/opt/venv/bin/python
"""Developer tool: run a check in-process over seeds and print the smallest margins."""
import os, sys, collections, json
sys.path.insert(0, '/verif/harness'); sys.dont_write_bytecode = True
os.environ.setdefault('OMP_NUM_THREADS', '1')
import core, importlib, cProfile, pstats, time
prop = sys.argv[1]; seeds = [int(s) for s in (sys.argv[2] if len(sys.argv) > 2 else '1').split(',')]
tier = sys.argv[3] if len(sys.argv) > 3 else 'quick'
keys = (sys.argv[4] if len(sys.argv) > 4 else 'src,region').split(',')
mod = importlib.import_module('p_' + prop.lower())
for s in seeds:
    ctx = core.Ctx(prop, tier, s)
    pr = cProfile.Profile(); pr.enable()
    v = mod.run(ctx)
    pr.disable()
    kn = [b for b in v['bad'] if b['clause'].startswith('known')]; v['bad'] = [b for b in v['bad'] if not b['clause'].startswith('known')]
    kset = {b['i'] for b in kn}
    print('known', len(kn), 'seed', s, 'bad', len(v['bad']), 'missing', len(v['missing']), 'events', len(ctx.events), 'time %.1f' % (time.time() - ctx.t0))
    for b in v['bad'][:int(os.environ.get('NB', 6))]:
        print(b, json.dumps(ctx.events[b['i'] - 1]), json.dumps(ctx.details.get(b['i']), default=str)[:900])
    for mm in v['missing'][:5]: print('MISSING', mm)
    W = os.environ.get('WORST')
    if W:
        ee = [e for e in ctx.events if all(x in (json.dumps(e)) for x in W.split(','))]
        ee.sort(key=lambda e: e['d'] - min(80, 126 - e.get('c', 0)))
        for e in ee[:3]: print('W', json.dumps(e), json.dumps(ctx.details[e['i']], default=str)[:1500])
    g = collections.defaultdict(lambda: [9999, 0, 9999, 0])
    for e in ctx.events:
        if 'd' not in e or e['i'] in kset: continue
        k = tuple(str(e.get('cfg', {}).get(x, e.get(x, ''))) for x in keys) + (e.get('qty'),)
        m = e['d'] - min(80, 156 - e.get('c',0) - 30)
        if m < g[k][0]: g[k] = [m, e['d'], e.get('c'), g[k][3]]
        g[k][3] += e.get('und', 0)
    for k, x in sorted(g.items(), key=lambda t: t[1][0])[:int(os.environ.get('NM', 14))]:
        print('   margin %4d d=%s c=%s und=%d' % tuple(x), k)
    if os.environ.get('PROF'):
        pstats.Stats(pr).sort_stats('cumtime').print_stats(18)
    import shutil; shutil.rmtree(ctx.scratch)
