"""Evaluation of the specification's terms (spec/Term.tla, exported as JSON).

Terms are hash-consed into a DAG; derivative and substitution nodes are
carried out on the DAG.  Two evaluators: numpy double precision with a running
error bound (bulk), and mpmath at high precision (decides disputed points).
"""
import numpy as np
import mpmath as mp
import scipy.special as ss

EPS = 2.0 ** -52


class Dag:
    def __init__(self):
        self.ids, self.nodes = {}, []
        self._diff, self._sub = {}, {}

    def mk(self, node):
        i = self.ids.get(node)
        if i is None:
            i = self.ids[node] = len(self.nodes)
            self.nodes.append(node)
        return i

    def q(self, n, d=1):
        return self.mk(('q', n, d))

    def add(self, xs):
        xs = [x for x in xs if self.nodes[x] != ('q', 0, 1)]
        if not xs:
            return self.q(0)
        return xs[0] if len(xs) == 1 else self.mk(('+',) + tuple(xs))

    def mul(self, xs):
        xs = [x for x in xs if self.nodes[x] != ('q', 1, 1)]
        if any(self.nodes[x] == ('q', 0, 1) for x in xs):
            return self.q(0)
        if not xs:
            return self.q(1)
        return xs[0] if len(xs) == 1 else self.mk(('*',) + tuple(xs))

    def pow(self, x, n, d=1):
        if n == 0:
            return self.q(1)
        if n == d:
            return x
        return self.mk(('^', x, n, d))

    def fn(self, f, x):
        return self.mk(('f', f, x))

    def neg(self, x):
        return self.mul([self.q(-1), x])

    def load(self, t):
        k = t[0]
        if k == 'q':
            if t[1] == 0:
                return self.q(0)
            return self.q(t[1], t[2])
        if k == 'v':
            return self.mk(('v', t[1]))
        if k in ('i', 'pi'):
            return self.mk((k,))
        if k == '+':
            return self.add([self.load(u) for u in t[1]])
        if k == '*':
            return self.mul([self.load(u) for u in t[1]])
        if k == '^':
            return self.pow(self.load(t[1]), t[2], t[3])
        if k == 'f':
            return self.fn(t[1], self.load(t[2]))
        if k == 'd':
            return self.diff(self.load(t[1]), t[2])
        if k == 's':
            m = {x: self.load(u) for x, u in t[2].items()}
            return self.subst(self.load(t[1]), tuple(sorted(m.items())))
        raise ValueError(t)

    def diff(self, i, x):
        key = (i, x)
        if key in self._diff:
            return self._diff[key]
        n = self.nodes[i]
        k = n[0]
        if k in ('q', 'i', 'pi'):
            r = self.q(0)
        elif k == 'v':
            r = self.q(1 if n[1] == x else 0)
        elif k == '+':
            r = self.add([self.diff(j, x) for j in n[1:]])
        elif k == '*':
            r = self.add([self.mul([self.diff(j, x) if a == b else j for a, j in enumerate(n[1:])])
                          for b in range(len(n) - 1)])
        elif k == '^':
            r = self.mul([self.q(n[2], n[3]), self.pow(n[1], n[2] - n[3], n[3]), self.diff(n[1], x)])
        elif k == 'f':
            da = self.diff(n[2], x)
            r = self.q(0) if self.nodes[da] == ('q', 0, 1) else self.mul([da, self.dfn(n[1], n[2], i)])
        self._diff[key] = r
        return r

    def dfn(self, f, a, v):
        one, inv = self.q(1), lambda y: self.pow(y, -1)
        if f == 'exp':
            return v
        if f == 'log':
            return inv(a)
        if f == 'atan':
            return inv(self.add([one, self.pow(a, 2)]))
        if f == 'tanh':
            return self.add([one, self.neg(self.pow(v, 2))])
        if f == 'sin':
            return self.fn('cos', a)
        if f == 'cos':
            return self.neg(self.fn('sin', a))
        if f == 'erf':
            return self.mul([self.q(2), self.pow(self.mk(('pi',)), -1, 2), self.fn('exp', self.neg(self.pow(a, 2)))])
        if f == 'ellipk':
            c = self.add([one, self.neg(a)])
            return self.mul([self.add([self.fn('ellipe', a), self.neg(self.mul([c, v]))]),
                             inv(self.mul([self.q(2), a, c]))])
        if f == 'ellipe':
            return self.mul([self.add([v, self.neg(self.fn('ellipk', a))]), inv(self.mul([self.q(2), a]))])
        if f == 'ive0':
            return self.add([self.fn('ive1', a), self.neg(v)])
        if f == 'ive1':
            return self.add([self.fn('ive0', a), self.neg(self.mul([self.add([one, inv(a)]), v]))])
        if f == 'j0':
            return self.neg(self.fn('j1', a))
        if f == 'j1':
            return self.add([self.fn('j0', a), self.neg(self.mul([inv(a), v]))])
        raise ValueError('no derivation rule for ' + f)

    def subst(self, i, m):
        key = (i, m)
        if key in self._sub:
            return self._sub[key]
        n = self.nodes[i]
        k = n[0]
        if k == 'v':
            r = dict(m).get(n[1], i)
        elif k in ('q', 'i', 'pi'):
            r = i
        elif k == '+':
            r = self.add([self.subst(j, m) for j in n[1:]])
        elif k == '*':
            r = self.mul([self.subst(j, m) for j in n[1:]])
        elif k == '^':
            r = self.pow(self.subst(n[1], m), n[2], n[3])
        elif k == 'f':
            r = self.fn(n[1], self.subst(n[2], m))
        self._sub[key] = r
        return r

    def order(self, roots):
        seen, out = set(), []
        stack = [(r, False) for r in roots]
        while stack:
            i, done = stack.pop()
            if done:
                out.append(i)
                continue
            if i in seen:
                continue
            seen.add(i)
            stack.append((i, True))
            n = self.nodes[i]
            kids = n[1:] if n[0] in '+*' else (n[1],) if n[0] == '^' else (n[2],) if n[0] == 'f' else ()
            stack.extend((j, False) for j in kids if j not in seen)
        return out

    def variables(self, roots):
        return sorted({self.nodes[i][1] for i in self.order(roots) if self.nodes[i][0] == 'v'})


def _ellipk(m):
    return ss.ellipk(m)


def _sc(n):
    return lambda a: ss.ive(n, a)


def _ik(n):
    """I_n(a) K_n(a)"""
    return lambda a: ss.ive(n, a) * ss.kve(n, a) * np.exp(np.abs(np.real(a)) - a)


def _dik(n, a):
    e = np.exp(np.abs(np.real(a)) - a)
    i0, i1, k0, k1 = ss.ive(n - 1, a), ss.ive(n, a), ss.kve(n - 1, a), ss.kve(n, a)
    return e * (i0 * k1 - i1 * k0 - 2 * n / a * i1 * k1)


NPF = {
    'exp': (np.exp, lambda a, v: v),
    'log': (np.log, lambda a, v: 1 / a),
    'atan': (np.arctan, lambda a, v: 1 / (1 + a * a)),
    'sin': (np.sin, lambda a, v: np.cos(a)),
    'cos': (np.cos, lambda a, v: np.sin(a)),
    'tanh': (np.tanh, lambda a, v: 1 - v * v),
    'erf': (ss.erf, lambda a, v: 2 / np.sqrt(np.pi) * np.exp(-a * a)),
    'ellipk': (ss.ellipk, lambda a, v: (ss.ellipe(a) - (1 - a) * v) / (2 * a * (1 - a))),
    'ellipe': (ss.ellipe, lambda a, v: (v - ss.ellipk(a)) / (2 * a)),
    'ive0': (_sc(0), lambda a, v: ss.ive(1, a) - v),
    'ive1': (_sc(1), lambda a, v: ss.ive(0, a) - (1 + 1 / a) * v),
    'j0': (ss.j0, lambda a, v: ss.j1(a)),
    'j1': (ss.j1, lambda a, v: ss.jvp(1, a)),
    'ik1': (_ik(1), lambda a, v: _dik(1, a)),
    'ik2': (_ik(2), lambda a, v: _dik(2, a)),
    'ive2': (_sc(2), lambda a, v: ss.ive(1, a) - (1 + 2 / a) * v),
}
MPF = {
    'exp': mp.exp, 'log': mp.log, 'atan': mp.atan, 'sin': mp.sin, 'cos': mp.cos, 'erf': mp.erf,
    'tanh': mp.tanh, 'ellipk': mp.ellipk, 'ellipe': mp.ellipe,
    'j0': lambda a: mp.besselj(0, a), 'j1': lambda a: mp.besselj(1, a),
    'ik1': lambda a: mp.besseli(1, a) * mp.besselk(1, a), 'ik2': lambda a: mp.besseli(2, a) * mp.besselk(2, a),
    'ive0': lambda a: mp.besseli(0, a) * mp.exp(-a),
    'ive1': lambda a: mp.besseli(1, a) * mp.exp(-a),
    'ive2': lambda a: mp.besseli(2, a) * mp.exp(-a),
}


class Law:
    """A tuple of scalar terms (components), evaluated together."""

    def __init__(self, dag, term):
        self.dag = dag
        self.shape, flat = self._flatten(term)
        self.roots = [dag.load(t) for t in flat]
        self.topo = dag.order(self.roots)
        self.vars = dag.variables(self.roots)

    @staticmethod
    def _flatten(term):
        def rec(t):
            if isinstance(t[0], str):
                return (), [t]
            sh, out = None, []
            for u in t:
                s, f = rec(u)
                sh = s
                out += f
            return (len(t),) + sh, out
        return rec(term)

    def np(self, env, err=True):
        """values (..., n_components) and running error bounds."""
        cplx = any(self.dag.nodes[i][0] == 'i' for i in self.topo) or \
            any(np.iscomplexobj(env[v]) for v in self.vars)
        dt = complex if cplx else float
        V, E = {}, {}
        with np.errstate(all='ignore'):
            for i in self.topo:
                n = self.dag.nodes[i]
                k = n[0]
                if k == 'q':
                    v, e = dt(n[1] / n[2]), abs(n[1] / n[2]) * EPS
                elif k == 'v':
                    v = np.asarray(env[n[1]]).astype(dt)
                    e = np.abs(v) * EPS
                elif k == 'i':
                    v, e = 1j, 0.0
                elif k == 'pi':
                    v, e = dt(np.pi), np.pi * EPS
                elif k == '+':
                    v, e, a = 0, 0, 0
                    for j in n[1:]:
                        v = v + V[j]
                        e = e + E[j]
                        a = a + np.abs(V[j])
                    e = e + EPS * a
                elif k == '*':
                    v, e = V[n[1]], E[n[1]]
                    for j in n[2:]:
                        e = e * np.abs(V[j]) + E[j] * np.abs(v)
                        v = v * V[j]
                    e = e + EPS * np.abs(v)
                elif k == '^':
                    x, p = V[n[1]], n[2] / n[3]
                    if n[3] == 2:
                        s = np.sqrt(x)
                        v = s ** n[2] if n[2] > 0 else 1 / s ** (-n[2])
                    else:
                        v = x ** n[2] if n[2] > 0 else 1 / np.asarray(x) ** (-n[2])
                    ax = np.abs(x)
                    e = np.where(E[n[1]] == 0, 0, abs(p) * np.abs(v) / ax * E[n[1]]) + EPS * np.abs(v)
                elif k == 'f':
                    f, df = NPF[n[1]]
                    v = f(V[n[2]])
                    e = np.abs(df(V[n[2]], v)) * E[n[2]] + EPS * np.abs(v)
                V[i], E[i] = v, e
            shp = np.broadcast_shapes(*[np.shape(env[v]) for v in self.vars], ())
            vals = np.stack([np.broadcast_to(V[r], shp) for r in self.roots], -1)
            errs = np.stack([np.broadcast_to(E[r], shp) for r in self.roots], -1)
        return vals.reshape(shp + self.shape), np.abs(errs).reshape(shp + self.shape)

    def mp(self, env, dps=50):
        """env: name -> number (exact float / mpf / mpc); returns list of mp numbers."""
        with mp.workdps(dps):
            V = {}
            for i in self.topo:
                n = self.dag.nodes[i]
                k = n[0]
                if k == 'q':
                    v = mp.mpf(n[1]) / n[2]
                elif k == 'v':
                    v = mp.mpmathify(env[n[1]])
                elif k == 'i':
                    v = mp.mpc(0, 1)
                elif k == 'pi':
                    v = +mp.pi
                elif k == '+':
                    v = mp.fsum(V[j] for j in n[1:])
                elif k == '*':
                    v = V[n[1]]
                    for j in n[2:]:
                        v = v * V[j]
                elif k == '^':
                    x = V[n[1]]
                    v = x ** n[2] if n[3] == 1 else mp.sqrt(x) ** n[2]
                elif k == 'f':
                    v = MPF[n[1]](V[n[2]])
                V[i] = v
            return [V[r] for r in self.roots]


class Laws:
    """All exported terms of a model: nested dict with Law leaves."""

    def __init__(self, terms):
        self.dag = Dag()
        self.t = terms
        self._c = {}

    def __getitem__(self, path):
        if isinstance(path, str):
            path = tuple(path.split('.'))
        if path not in self._c:
            t = self.t
            for p in path:
                t = t[p]
            self._c[path] = Law(self.dag, t)
        return self._c[path]
