"""Replay behaviours of ObjectRuns on the library and record what is observed (C17, C18, C19)."""
import copy, json, os, pickle, struct, warnings
import multiprocessing as mpc
import numpy as np
import core, catalog


def rng_of(*key):
    import hashlib
    return np.random.default_rng(int.from_bytes(hashlib.sha256('|'.join(map(str, key)).encode()).digest()[:8], 'big'))


def pool(entry, attr, seed, run):
    """value id -> Val; 0 is the default"""
    p = {j + 1: catalog.value(entry, attr, rng_of(seed, 'val', entry['name'], run, attr, j), j) for j in range(6)}
    if run >= 3000 or rng_of(seed, 'close', entry['name'], run, attr).random() < .5:
        r = relatives(entry, attr, p)
        p.update({k: w for k, w in r.items() if k > 3 or run >= 3000})
    d = catalog.defaults(entry)
    if attr in d:
        p[0] = d[attr]
    return p


def ones(v, f, n=3):
    """v with one of its first n components changed: one value for each"""
    V, v = catalog.Val, np.array(v, float)
    out = {}
    for k in range(n):
        w = v.copy()
        w[k] *= f
        out[4 - k] = V(w.copy(), w)
    return out


def relatives(entry, attr, p):
    """values that a careless test for "unchanged" would not tell from value 1: nearly equal, reversed, permuted"""
    c, kind = catalog, entry['attrs'][attr][0]
    V, v = c.Val, p[1].read
    if kind in (c.k_num, c.k_pos, c.k_range):
        w = float(v) * (1 + 1e-6)
        out = {5: V(w, w)}
        if kind == c.k_num:
            out[6] = V(-float(v), -float(v))
        if entry['attrs'][attr][1].get('z0'):
            out[4] = V(0.0, 0.0)
        return out
    if kind in (c.k_orient, c.k_horiz):
        w = v + np.array([1e-6, -1e-6, 0]) if kind == c.k_orient else v + np.array([1e-6, 1e-6, 0]) * v[[1, 0, 2]]
        return {**ones(v, -1.0, 3 if kind == c.k_orient else 2), 5: V((3 * w).tolist(), w / np.linalg.norm(w)), 6: V(-v, -v)}
    if kind in (c.k_vec, c.k_loc):
        return {**ones(v, -1.5), 5: V(v[[1, 2, 0]].copy(), v[[1, 2, 0]]), 6: V((v * (1 + 1e-6)).tolist(), v * (1 + 1e-6))}
    if kind in (c.k_depth, c.k_lo, c.k_hi, c.k_surf, c.k_air):
        w = v[[1, 0, 2]] if kind not in (c.k_lo, c.k_hi) else v[[1, 2, 0]]
        return {**ones(v, 1.5), 5: V(w.copy(), w), 6: V((v * (1 + 1e-6)).tolist(), v * (1 + 1e-6))}
    if kind == c.k_nodes:
        w = v.copy()
        w[-1] *= 1 + 1e-6
        o = v.copy()
        o[len(v) // 2, 2] *= -1.5
        return {4: V(o.copy(), o), 5: V(w.tolist(), w), 6: V(v[::-1].copy(), v[::-1].copy())}
    if kind in (c.k_samples, c.k_freqs):
        w = np.asarray(p[3].read if kind == c.k_samples else p[2].read)
        w2 = w.copy()
        w2[0] *= 1 + 1e-6
        return {5: V(w2.tolist(), w2), 6: V(w[::-1].copy(), w[::-1].copy())}
    if kind in (c.k_layers, c.k_mus, c.k_eps):
        return {5: V(v.copy(), v), 6: V(v[::-1].real.copy(), v[::-1].copy())}
    return {}


def point_sets(entry, seed, run):
    rng = rng_of(seed, 'pts', entry['name'], run)
    return [catalog.points(entry, rng, n) for n in (3, 1, 5, 2, 4, 7, 3, 1, 5, 2, 4, 7)]     # two contents of the same shapes


def split(entry, label):
    for n, t, kw in catalog.queries(entry):
        if catalog.qlabel(n, kw) == label:
            return n, kw
    return label, {}


def make(entry, ids, pools):
    return entry['cls'](**{a: pools[a][i].arg() for a, i in ids.items() if i != 0})


# ---- answers of fresh objects in processes that have done nothing else ------
def _one(req, seed):
    cls, run, ids, label, k = req
    entry = catalog.catalogue()[cls]
    pools = {a: pool(entry, a, seed, run) for a in entry['attrs']}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                o = make(entry, ids, pools)
                n, kw = split(entry, label)
                return np.asarray(catalog.ask(o, n, kw, point_sets(entry, seed, run)[k]))
    except Exception as ex:
        return type(ex).__name__


def _isolated(req, seed):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(_one(req, seed)))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else 'died'


class Pristine:
    """Workers forked before the library was used; each answer comes from a process of its own."""

    def __init__(self, seed, n=8):
        self.seed, self.ws = seed, []
        catalog.catalogue()
        for _ in range(n):
            a, b = mpc.Pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    a.close()
                    while True:
                        reqs = b.recv()
                        if reqs is None:
                            break
                        b.send([_isolated(q, seed) for q in reqs])
                finally:
                    os._exit(0)
            b.close()
            self.ws.append((pid, a))

    def answers(self, reqs):
        n = len(self.ws)
        parts = [reqs[i::n] for i in range(n)]
        import threading
        out = [None] * n

        def go(i):
            self.ws[i][1].send(parts[i])
            out[i] = self.ws[i][1].recv()
        th = [threading.Thread(target=go, args=(i,)) for i in range(n)]
        [t.start() for t in th]
        [t.join() for t in th]
        res = [None] * len(reqs)
        for i in range(n):
            res[i::n] = out[i]
        return res

    def close(self):
        for pid, c in self.ws:
            try:
                c.send(None)
            except OSError:
                pass
            c.close()
            os.waitpid(pid, 0)


# ---- replay ----------------------------------------------------------------
def scribble(x):
    """overwrite, in place, what a caller owns"""
    try:
        if isinstance(x, np.ndarray):
            if x.size and x.flags.writeable:
                x[...] = x * -3 + 7 if x.dtype.kind in 'fciu' else x
                return True
        elif isinstance(x, list) and x:
            if isinstance(x[0], list):
                return scribble(x[0])
            x[0] = x[0] * -3 + 7
            return True
    except Exception:
        pass
    return False


def same(a, b):
    try:
        if isinstance(a, np.ndarray):
            return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
        if isinstance(a, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        return bool(a == b) or a is b
    except Exception:
        return False


class Held:
    """an argument a caller holds on to"""

    def __init__(self, x):
        self.x, self.was = x, copy.deepcopy(x)

    def intact(self):
        return same(self.x, self.was)


def replay(ctx, r, seed, reqs, results):
    entry = catalog.catalogue()[r['cls']]
    run = r['run']
    pools = {a: pool(entry, a, seed, run) for a in entry['attrs']}
    pts0 = point_sets(entry, seed, run)
    objs, ids, held, res = [None, None], [{}, {}], {}, [None, None]
    hp, turn = [Held(p.copy()) for p in pts0[:6]], 0
    for n, s in enumerate(r['log']):
        k, o, a, v = s['k'], s['o'] - 1, s['a'], s['v']
        e = dict(cls=r['cls'], run=run, step=n + 1, k=k, o=o + 1, a=a, v=v, q=s['q'], out='ok', intact=True, d=999)
        det = None
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    if k == 'new':
                        vals = s['vals']
                        e['vals'] = vals
                        args = {b: pools[b][i].arg() for b, i in vals.items() if i != 0}
                        for b, x in args.items():
                            held[o, b] = Held(x)
                        ids[o] = dict(vals)
                        objs[o] = entry['cls'](**args)
                    elif k in ('set', 'via'):
                        x = pools[a][v].arg()
                        ids[o][a] = v
                        if k == 'via':
                            setattr(objs[o], entry['attrs'][a][1]['via'], catalog.via_value(entry, a, x, objs[o]))
                        else:
                            held[o, a] = Held(x)
                            setattr(objs[o], a, x)
                    elif k == 'bad':
                        x = copy.deepcopy(catalog.bads(entry, a)[s['q']])
                        h = held['bad'] = Held(x)
                        setattr(objs[o], a, x)
                    elif k == 'newbad':
                        args = {b: pools[b][i].arg() for b, i in ids[o].items() if i != 0}
                        args[a] = catalog.ctor_bad(entry, a, s['q'], {b: pools[b][i] for b, i in ids[o].items()})
                        held['bad'] = Held(args[a])
                        entry['cls'](**args)
                    elif k == 'query':
                        q, kw = split(entry, s['q'])
                        i = (v - 1) % len(hp)
                        e['ids'] = dict(ids[o])
                        before, x, y = rng_of(seed, run, n, 'before').random() < .3, hp[i].x, pts0[i + 6 * (1 - turn)].copy()
                        if before:                       # something else was asked just before, with arrays that are gone by now
                            res[o] = catalog.ask(objs[o], q, kw, y)
                        res[o] = catalog.ask(objs[o], q, kw, x)
                        reqs.append((r['cls'], run, dict(ids[o]), s['q'], i + 6 * turn))
                        results.append((len(ctx.events), np.array(res[o])))
                    elif k == 'badq':
                        q, kw = split(entry, s['q'])
                        if q[0] in '@~':
                            q, kw = split(entry, catalog.qlabel(entry['queries'][0][0], (entry['queries'][0][2] if len(entry['queries'][0]) > 2 else [{}])[0]))
                        x = catalog.badpts(entry, a, rng_of(seed, run, n))
                        held['badq'] = Held(x)
                        catalog.ask(objs[o], q, kw, x)
                    elif k == 'write':                   # the caller overwrites an array passed in before
                        h = held.get((o, a)) or next((held[y] for y in held if y[0] == o), None)
                        if h is not None:
                            scribble(h.x)
                            h.was = copy.deepcopy(h.x)
                    elif k == 'writepts':
                        turn = 1 - turn                  # the caller reuses its arrays for other points
                        for i, h in enumerate(hp):
                            h.x[...] = pts0[i + 6 * turn]
                            h.was = h.x.copy()
                    elif k == 'scribble' and res[o] is not None and not isinstance(res[o], (float, complex)):
                        scribble(res[o])
                        res[o] = None
        except Exception as ex:
            e['out'] = type(ex).__name__
            det = str(ex)[:300]
        e['intact'] = all(h.intact() for h in held.values()) and all(h.intact() for h in hp)
        if not e['intact']:                              # report once
            for h in held.values():
                h.was = copy.deepcopy(h.x)
            for i, h in enumerate(hp):
                h.x = pts0[i + 6 * turn].copy()
                h.was = h.x.copy()
        e['now'] = [{b: [i for i, w in pools[b].items() if catalog.reads(objs[j], b, w)] for b in entry['attrs']} if objs[j] is not None
                    else {} for j in (0, 1)]
        if k == 'new' and objs[1 - o] is None:
            e['now'][1 - o] = {}
        for f in ('vals', 'ids'):
            e.setdefault(f, {})
        ctx.evals += 1
        ctx.event(dict(error=det, assigned=str(pools[a][v].assign)[:200] if k in ('set', 'via') else None), **e)


def one_call(ctx, cls, a, form, fun, args):
    """a call, its arguments afterwards, and the same call again after the result was overwritten"""
    import functions
    e = dict(cls=cls, run=0, step=1, k='call', o=1, a=a, v=0, q=form, out='ok', intact=True, d=999, now=[{}, {}], vals={}, ids={})
    det = None
    try:
        xs = [functions.shaped(x, form) for x in args]
        hs = [Held(x) for x in xs]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                r = fun(*xs)
                e['intact'] = all(h.intact() for h in hs)
                parts = list(r) if isinstance(r, (tuple, list)) else [r]
                keep = [np.array(x) for x in parts]
                for x in parts:
                    scribble(x)
                r2 = fun(*[functions.shaped(x, form) for x in args])
        parts2 = list(r2) if isinstance(r2, (tuple, list)) else [r2]
        e['d'] = min([core.agree(x, np.asarray(y), scale=np.max(np.abs(np.nan_to_num(x)), initial=1e-300)) for x, y in zip(keep, parts2)] + [999]) if len(keep) == len(parts2) else -999
    except Exception as ex:
        e['out'] = type(ex).__name__
        det = str(ex)[:300]
    ctx.evals += 1
    ctx.event(dict(error=det), **e)


def calls(ctx):
    import functions
    for name, (fun, specs) in functions.table().items():
        for form in functions.FORMS:
            r = ctx.rng('call', name, form)
            one_call(ctx, 'functions', name, form, fun, [x(r) for x in specs])
    for cls, entry in catalog.catalogue().items():
        qs = [(catalog.qlabel(n, kw), n, kw) for n, t, kw in catalog.queries(entry)] + [(q, q, {}) for q, _ in entry['extra']]
        for lab, n, kw in qs:
            for k, form in enumerate(functions.FORMS + ['point', 'grid']):
                r = ctx.rng('call', cls, lab, form)
                obj = catalog.construct(entry, catalog.values(entry, r, k))
                pts = catalog.points(entry, r, 4)
                if form == 'grid' and not entry.get('rows'):
                    pts = pts.reshape(2, 2, 3)
                    pts[0, 0, 0], pts[0, 1, 1] = -0.0, 1e-305
                one_call(ctx, cls, lab, form, lambda p: catalog.ask(obj, n, kw, p), [pts if form != 'point' else pts[:1] if cls == 'HarmonicDipoleLayered' else pts[0]])


def run(ctx, mix, runs, depth):
    seed = ctx.seed
    srv = Pristine(seed)
    try:
        out = os.path.join(ctx.scratch, 'gen.json')
        env = dict(SPEC_OUT=out, RUNS=str(runs), DEPTH=str(depth), VSEED=str(seed), MIX=mix)
        os.environ['MIX'] = mix
        ctx.model('MC_Objects')
        rc, txt, st, di = core.tlc(core.SPEC / 'GEN_Objects.tla', core.SPEC / 'GEN_Objects.cfg', env, ctx.scratch, timeout=800)
        if rc != 0 or not os.path.exists(out):
            raise core.MachineryError('GEN_Objects failed (%d):\n%s' % (rc, txt[-3000:]))
        ctx.states += di
        ctx.trans += st
        rs = json.load(open(out))['runs']
        ctx.notes['behaviours'] = len(rs)
        reqs, results = [], []
        if mix == 'C19':
            calls(ctx)
        for r in rs:
            replay(ctx, r, seed, reqs, results)
        key = lambda q: (q[0], q[1], tuple(sorted(q[2].items())), q[3], q[4])
        uniq = {}
        for q in reqs:
            uniq.setdefault(key(q), q)
        ans = dict(zip(uniq, srv.answers(list(uniq.values()))))
        for q, (i, got) in zip(reqs, results):
            want = ans[key(q)]
            e = ctx.events[i]
            if isinstance(want, str):
                e['d'] = -999
                ctx.details[i + 1] = dict(fresh='raised ' + want)
                continue
            if got.size and got.dtype.kind in 'fciu':
                e['d'] = core.agree(got, want, scale=np.max(np.abs(np.where(np.isfinite(want), want, 0))) if want.size else 1) if got.shape == want.shape else -999
            if e['d'] < 90:
                ctx.details[i + 1] = dict(got=str(got)[:400], fresh=str(want)[:400])
        ctx.notes['fresh_objects'] = len(uniq)
    finally:
        srv.close()
    return ctx.validate('TR_Objects')
