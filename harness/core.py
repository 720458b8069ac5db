"""Machinery shared by all checks: rebuild, TLC runs, events, verdicts, evidence."""
import hashlib, json, os, pathlib, shutil, subprocess, sys, tempfile, time, traceback
import numpy as np
import mpmath as mp

VERIF = pathlib.Path(__file__).resolve().parent.parent
SPEC = VERIF / 'spec'
REPO = pathlib.Path('/repo')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
EPS = 2.0 ** -52
TINY = 1e-295                   # below this, results are lost to underflow


class MachineryError(Exception):
    pass


def rebuild():
    """Build the extensions from /repo's working tree when they differ from the last build."""
    state = pathlib.Path('/opt/geoana-build.sha256.json')
    try:
        old = json.loads(state.read_text())
    except (OSError, ValueError):
        old = {}
    new = {}
    for top, dirs, files in os.walk(REPO / 'geoana'):
        for f in files:
            if f.endswith(('.pyx', '.pxd', '.pxi', '.c', '.cpp', '.h', '.hpp')) or f == 'meson.build':
                p = os.path.join(top, f)
                new[os.path.relpath(p, REPO)] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    for p in ('meson.build', 'meson.options'):
        if (REPO / p).exists():
            new[p] = hashlib.sha256((REPO / p).read_bytes()).hexdigest()
    if new == old and pathlib.Path('/opt/geoana-build').exists():
        return False
    r = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError('build failed:\n' + r.stdout[-2000:] + r.stderr[-2000:])
    return True


def tlc(module, cfg, env, scratch, extra=(), timeout=600, workers='1', heap='4g'):
    """Run TLC; returns (exit code, output, states, distinct)."""
    meta = tempfile.mkdtemp(prefix='tlc', dir=scratch)
    cmd = ['java', '-Djava.io.tmpdir=' + str(scratch), '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=4', '-Xss64m', '-Xmx' + heap,
           '-DTLA-Library=' + str(SPEC), '-cp', JAR, 'tlc2.TLC', '-workers', workers, '-noGenerateSpecTE',
           '-metadir', meta, '-config', str(cfg), *extra, str(module)]
    e = dict(os.environ)
    e.update(env)
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, env=e, cwd=str(SPEC), timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError('TLC timed out on %s' % module)
    out = r.stdout + r.stderr
    st = di = 0
    for line in out.splitlines():
        if 'states generated' in line and 'distinct states found' in line and line[:1].isdigit():
            w = line.replace(',', '').split()
            st, di = int(w[0]), int(w[3])
    return r.returncode, out, st, di


def clip(x):
    return int(max(-999, min(999, round(10 * float(x))))) if np.isfinite(x) else -999


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        self.events, self.samples, self.details = [], [], {}
        self.states = self.trans = self.evals = 0
        self.nontrivial = set()
        self.notes = {}
        self.plan = None

    def rng(self, *key):
        h = hashlib.sha256(('%d|%s' % (self.seed, '|'.join(map(str, key)))).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], 'big'))

    # ---- model ---------------------------------------------------------
    def model(self, module, timeout=800):
        out = os.path.join(self.scratch, module + '.json')
        cfg = SPEC / (module + '.cfg')
        if self.tier == 'thorough':          # more sample points per identity
            txt = cfg.read_text().replace('NSamples = 120', 'NSamples = 600').replace('Enough = 3', 'Enough = 25')
            cfg = pathlib.Path(self.scratch) / (module + '.cfg')
            cfg.write_text(txt)
        rc, txt, st, di = tlc(SPEC / (module + '.tla'), cfg, {'SPEC_OUT': out}, self.scratch,
                              timeout=timeout)
        if rc != 0 or not os.path.exists(out):
            raise MachineryError('TLC model %s failed (%d):\n%s' % (module, rc, txt[-3000:]))
        d = json.load(open(out))
        for i in d.get('identities', []):
            if i['points'] < 1:
                raise MachineryError('vacuous %s: %s' % (i['kind'], i['name']))
        cfgs = {}
        for p in d.get('plan', []):
            key = json.dumps(p['cfg'], sort_keys=True)
            cfgs.setdefault(key, (p['cfg'], {}))[1][p['qty']] = p['rule']
        d['cases'] = [cfgs[k] for k in sorted(cfgs)]
        self.states += di
        self.trans += st
        self.notes['model_' + module] = dict(states=di, identities=len(d.get('identities', [])),
                                             identity_points=sum(i['points'] for i in d.get('identities', [])))
        return d

    # ---- events --------------------------------------------------------
    def event(self, detail=None, **e):
        e['i'] = len(self.events) + 1
        self.events.append(e)
        if detail is not None:
            self.details[e['i']] = detail
        return e

    # ---- trace validation ----------------------------------------------
    def validate(self, module, timeout=600):
        tr = os.path.join(self.scratch, 'trace.ndjson')
        out = os.path.join(self.scratch, 'verdict.json')
        with open(tr, 'w') as f:
            for e in self.events:
                f.write(json.dumps(e) + '\n')
        rc, txt, st, di = tlc(SPEC / (module + '.tla'), SPEC / (module + '.cfg'),
                              {'TRACE': tr, 'SPEC_OUT': out}, self.scratch, timeout=timeout)
        if rc != 0 or not os.path.exists(out):
            raise MachineryError('trace validation %s failed (%d):\n%s' % (module, rc, txt[-3000:]))
        v = json.load(open(out))
        if v['consumed'] != len(self.events):
            raise MachineryError('trace not consumed')
        self.states += di
        self.trans += st
        return v

    # ---- comparison ------------------------------------------------------
    def compare(self, got, law, env, req, slack, pts=('x', 'y', 'z'), dps=60, scale=None, maxmp=60, afloor=None,
                mode='formula'):
        """Worst agreement of code output `got` (n,)+law.shape with the law.

        Returns dict(d, c, n, undecided, worst).  d: tenths of decimal digits of
        agreement; c: tenths of digits the (double precision) evaluation of the
        formula loses to cancellation, both at the worst component.
        """
        with np.errstate(all='ignore'):
            return self._compare(got, law, env, req, slack, pts, dps, scale, maxmp, afloor, mode)

    def _compare(self, got, law, env, req, slack, pts, dps, scale, maxmp, afloor, mode):
        ref, bnd = law.np(env)
        if mode == 'input':
            bnd = np.zeros_like(bnd)
        ref, bnd = np.broadcast_arrays(ref, bnd)
        got = np.asarray(got)
        if not law.vars:
            ref, bnd = np.broadcast_to(ref, got.shape), np.broadcast_to(bnd, got.shape)
        if got.shape != ref.shape:
            return dict(d=-999, c=0, n=int(np.size(got)), und=0, worst='shape %s, expected %s' % (got.shape, ref.shape))
        nc = int(np.prod(law.shape)) if law.shape else 1
        npt = ref.size // nc
        ref, bnd, g = (np.array(a).reshape(npt, nc) for a in (ref, bnd, got))
        af = np.zeros(npt) if afloor is None else np.broadcast_to(afloor, (npt,))
        bnd = bnd + (af[:, None] + TINY)
        d, c = self._dc(g, ref, bnd)
        m = d - np.minimum(req, 156 - c - slack)
        bad = np.where(~np.isfinite(ref).all(1) | ~np.isfinite(bnd).all(1) | (m.min(1) < 0))[0]
        und = 0
        if len(bad):
            order = bad[np.argsort(m[bad].min(1))]
            envf = {k: np.broadcast_to(np.asarray(v), got.shape[:got.ndim - len(law.shape)]).reshape(-1)
                    for k, v in env.items() if k in law.vars}
            for cnt, p in enumerate(order):
                if cnt >= maxmp:
                    d[p], c[p] = 999, 0
                    und += 1
                    continue
                one = {k: v[p].item() if hasattr(v[p], 'item') else v[p] for k, v in envf.items()}
                b = bnd[p]
                try:
                    r = law.mp(one, dps)
                except ZeroDivisionError:
                    r = None
                if r is None or not all(mp.isfinite(x) for x in r) or not np.isfinite(b).all():
                    s = scale if scale is not None else max([abs(one[k]) for k in pts if k in one] + [1.0])
                    near = dict(one)
                    for j, k in enumerate(pts):
                        if k in near:
                            near[k] = near[k] + s * 1e-7 * (1 + 0.37 * j)
                    if mode != 'input':
                        b = law.np({k: np.asarray(v) for k, v in near.items()})[1].reshape(-1)
                        b = np.where(np.isfinite(b), b, 0.0) + af[p]
                    with mp.workdps(dps + 40):
                        for j, k in enumerate(pts):
                            if k in one:
                                near[k] = mp.mpf(one[k]) + mp.mpf(s) * mp.mpf(10) ** (-(dps // 2)) * (1 + mp.mpf(37 * j) / 100)
                        r = law.mp(near, dps + 40)
                ref_p = np.array([complex(x) for x in r])
                # subtract in high precision
                gp = g[p]
                df = np.array([abs(complex(mp.mpc(complex(a)) - x)) if np.isfinite(a) else np.inf for a, x in zip(gp, r)])
                bnd[p] = b
                ref[p] = ref_p if np.iscomplexobj(ref) else ref_p.real
                d[p], c[p] = self._dc1(df[None], ref_p[None], b[None])
        m = d - np.minimum(req, 156 - c - slack)
        self.evals += npt
        if npt == 0:
            return dict(d=999, c=0, n=0, und=0, worst='')
        k = np.unravel_index(np.argmin(m), m.shape)
        where = {v: np.broadcast_to(np.asarray(env[v]), got.shape[:got.ndim - len(law.shape)]).reshape(-1)[k[0]]
                 for v in law.vars}
        return dict(d=clip(d[k] / 10), c=clip(c[k] / 10), n=npt, und=und,
                    worst=dict(at={a: str(b) for a, b in where.items()}, component=int(k[1]),
                               code=str(g[k]), law=str(ref[k])))

    @staticmethod
    def _dc(g, ref, bnd):
        return Ctx._dc1(np.abs(g - ref), ref, bnd)

    @staticmethod
    def _dc1(df, ref, bnd):
        df = np.where(np.isfinite(df), df, np.inf)
        ar = np.abs(ref)
        floor = bnd + EPS * np.max(ar, axis=1, keepdims=True)
        sc = np.maximum(ar, floor)
        with np.errstate(all='ignore'):
            d = np.where(df == 0, 999, -10 * np.log10(df / sc))
            c = np.where(sc == 0, 0, 10 * np.log10(floor / (EPS * sc)))
        d = np.clip(np.nan_to_num(d, nan=-999, neginf=-999, posinf=999), -999, 999)
        c = np.clip(np.nan_to_num(c, nan=0, neginf=0, posinf=999), 0, 999)
        return d, c


def agree(a, b, scale=None, bound=None):
    """Worst-entry tenths of digits of agreement of two arrays (relative to scale)."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return -999
    if a.size == 0:
        return 999
    fa, fb = np.isfinite(a), np.isfinite(b)
    if (fa != fb).any():
        return -999
    with np.errstate(all='ignore'):
        ref = np.maximum(np.abs(a), np.abs(b)) if scale is None else np.broadcast_to(np.abs(scale), a.shape)
        df = np.abs(a - b)
        r = np.where(fa, np.where(df == 0, 0, df / ref), 0)
    w = np.max(np.nan_to_num(r, nan=np.inf))
    return 999 if w == 0 else clip(-np.log10(w))


def findings():
    out = []
    p = VERIF / 'known-findings.txt'
    if p.exists():
        for line in p.read_text().splitlines():
            line = line.strip()
            if line.startswith('finding:'):
                w = line.split(None, 3)
                out.append(dict(property=w[1].split('=')[1], key=w[2].split('=')[1], what=w[3] if len(w) > 3 else ''))
    return out


def finish(ctx, verdict, level, rule, assumptions=()):
    """Print verdict lines, write evidence, return the exit code."""
    wall = time.time() - ctx.t0
    rdir = VERIF / 'work' / 'replay'
    rdir.mkdir(parents=True, exist_ok=True)
    known = [f for f in findings() if f['property'] == ctx.prop]
    bad, kn = [], {}
    for b in verdict['bad']:
        e = ctx.events[b['i'] - 1] if b['i'] > 0 else {}
        if b['clause'].startswith('known:'):
            key = b['clause'][6:]
            if any(f['key'] == key for f in known):
                kn.setdefault(key, []).append(b)
                continue
        bad.append(dict(clause=b['clause'], event=e, detail=ctx.details.get(b['i'])))
    for f in known:
        if f['key'] in kn:
            print('KNOWN-FINDING: property=%s %s' % (ctx.prop, f['what']))
    for m in verdict.get('missing', []):
        bad.append(dict(clause='missing', event=m, detail='a planned case produced no event'))
    rc = 0
    if bad:
        rc = 1
        path = rdir / ('%s-%s-%d.json' % (ctx.prop, ctx.tier, ctx.seed))
        path.write_text(json.dumps(dict(property=ctx.prop, seed=ctx.seed, tier=ctx.tier, violations=bad[:200],
                                        total=len(bad)), indent=1, default=str))
        print('VIOLATION property=%s replay=%s' % (ctx.prop, path))
        for b in bad[:8]:
            print('  clause=%s event=%s' % (b['clause'], json.dumps(b['event'], default=str)[:600]))
            if b['detail'] is not None:
                print('    detail: %s' % json.dumps(b['detail'], default=str)[:1200])
        if len(bad) > 8:
            print('  ... %d more' % (len(bad) - 8))
    ev = VERIF / 'evidence'
    ev.mkdir(exist_ok=True)
    cov = dict(states=ctx.states, transitions=ctx.trans, traces_validated_against_impl=1,
               events_validated=len(ctx.events), evaluations=int(ctx.evals), rule=rule,
               planned_cases=verdict.get('planned', 0), exercised_cases=verdict.get('exercised', 0),
               samples=[json.loads(json.dumps(e, default=str)) for e in
                        ([ctx.events[k] for k in sorted(ctx.rng('samples').choice(len(ctx.events),
                          min(6, len(ctx.events)), replace=False))] if ctx.events else [])],
               **ctx.notes)
    (ev / (ctx.prop + '.json')).write_text(json.dumps(dict(
        property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
        assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(bad)), indent=1))
    print('%s %s: %d events, %d evaluations, %d states, %.1f s' % (
        ctx.prop, 'VIOLATED' if rc else 'ok', len(ctx.events), ctx.evals, ctx.states, wall))
    shutil.rmtree(ctx.scratch, ignore_errors=True)
    return rc
