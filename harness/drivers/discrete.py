"""discrete Bayes filter and resampling (specs Discrete, T_DB)."""
import numpy as np
import numpy.random
from filterpy.discrete_bayes import predict, update, normalize
from filterpy import monte_carlo as mc
from rec import M, V, guarded, Raw
import sys
RS = sys.modules['filterpy.monte_carlo.resampling']
ALG = dict(residual=mc.residual_resample, stratified=mc.stratified_resample, systematic=mc.systematic_resample,
           multinomial=mc.multinomial_resample)


def prob(g, n, zeros=.2):
    p = g.r.rand(n) + .02
    if n > 1:
        p[g.r.rand(n) < zeros] = 0.
    if not p.any():
        p[g.i(0, n - 1)] = 1.
    return p / p.sum()


def bayes_case(t, g):
    n = g.dim([1, 2, 3, 5, 6, 9], (10, 40), .1)
    p = prob(g, n)
    if g.coin(.25):                 # certainty, in integers
        p = np.zeros(n, int)
        p[g.i(0, n - 1)] = 1
    t.add('belief', dict(p=V(p)))
    own = []
    for _ in range(g.i(1, 7)):
        k = g.i(0, 5)
        if k == 0:
            q = p * g.choice([1., .25, 7.]) + g.choice([0., .1])
            form = g.i(0, 2)
            arg = q if form else list(q)
            r = t.call('normalize', lambda: normalize(arg), lambda r: dict(ret=V(r), arg=V(arg)), dict(p=V(q.copy()), array=bool(form)))
        elif k <= 2:
            like = g.r.rand(n) * g.choice([1., 10., 1e-3])
            if g.coin(.3):
                like[g.r.rand(n) < .4] = 0.
            if not (like * p).any():
                like = like + .1
            arg = like if g.coin(.8) else list(like)
            own += [(like, like.copy()), (p, p.copy())]
            pp = p if not isinstance(arg, list) or g.coin() else np.array(p)
            r = t.call('d.update', lambda: update(arg, pp), lambda r: dict(ret=V(r)), dict(like=V(like)))
        else:
            kl = g.choice([1, 3, 3, 5, 7, 11, 2, 4])
            kernel = prob(g, kl)
            if g.coin(.15):
                kernel = kernel * 2.
            off = g.choice([0, 1, -1, 2, 3, -2, n - 1, n, -n, n + 1, 2 * n + 1, -2 * n - 3])
            kw, wrap, cval = {}, True, 0.
            if g.coin(.5):
                kw['mode'], wrap = g.choice(['constant'] * 4 + ['reflect', 'nearest', 'mirror', '', None]), False
                if g.coin():
                    kw['cval'] = cval = g.choice([0., .05, 1. / n, 1, .7])
            elif g.coin():
                kw['mode'] = 'wrap'
                if g.coin(.3):
                    kw['cval'] = g.u(.1, 1)
            pa = list(p) if g.coin(.15) else p
            ka = list(kernel) if g.coin(.3) else kernel
            own += [(p, p.copy()), (kernel, kernel.copy())]
            r = t.call('d.predict', lambda: predict(pa, off, ka, **kw), lambda r: dict(ret=V(r)),
                       dict(offset=Raw(off), kernel=V(kernel), wrap=wrap, cval=cval))
        if r is None:
            return
        p = np.array(r, float)
        if not np.all(np.isfinite(p)) or p.sum() < 1e-9:
            break
    t.add('owned', dict(before=[V(b) for v, b in own]), dict(after=[V(v) for v, b in own]))


def bayes(c):
    for i in range(c.n(220)):
        c.run('T_DB', 'belief %d' % i, bayes_case, c.rng('bayes', i))


class Draws:
    """numpy's global generator answering with given uniform draws, repeated cyclically"""
    NAMES = ('random', 'random_sample', 'rand', 'ranf', 'sample', 'uniform')

    def __init__(self, vals):
        self.v, self.i = list(vals), 0

    def one(self):
        self.i += 1
        return self.v[(self.i - 1) % len(self.v)]

    def draw(self, size=None):
        if size is None:
            return self.one()
        return np.array([self.one() for _ in range(int(np.prod(size)))]).reshape(size)

    def __enter__(self):
        rs = [np.random] + [m for m in (RS,)]
        self.old = [(m, k, getattr(m, k)) for m in rs for k in self.NAMES
                    if callable(getattr(m, k, None)) and not isinstance(getattr(m, k), type(np))]
        fns = dict(random=self.draw, random_sample=self.draw, ranf=self.draw, sample=self.draw,
                   rand=lambda *s: self.draw(s or None), uniform=lambda lo=0., hi=1., size=None: lo + (hi - lo) * self.draw(size))
        for m, k, _ in self.old:
            setattr(m, k, fns[k])

    def __exit__(self, *_):
        for m, k, v in self.old:
            setattr(m, k, v)


def weights(g):
    n = g.dim([1, 2, 3, 4, 6, 10, 15], (16, 60), .1)
    k = g.i(0, 5)
    if k == 0:
        w = np.full(n, 1. / n)
    elif k == 1:                            # exact multiples of 1/n
        c = np.bincount(g.r.randint(0, n, n), minlength=n)
        w = c / float(n)
    elif k == 2:                            # all on one
        w = np.zeros(n)
        w[g.i(0, n - 1)] = 1.
    elif k == 3:                            # very uneven
        w = np.exp(g.r.randn(n) * 4)
    else:
        w = prob(g, n, .3)
    return w / w.sum()


def resample_case(t, g):
    w = weights(g)
    n = len(w)
    for alg in sorted(ALG):
        for mode in range(3):
            arg = list(w) if g.coin(.3) else w.copy()
            if mode == 0:                   # draws at the ends of [0, 1)
                vals = g.choice([[1e-300 if alg in ('multinomial', 'residual') else 0.], [1 - 2. ** -53], [.5],
                                 [1e-12, 1 - 1e-12], [1 - 2. ** -53, 1e-300]])
                if alg in ('multinomial', 'residual') and len(w) * w[-1] % 1 == 0:
                    vals = [min(v, 1 - 1e-12) for v in vals]    # the last particle has no share: keep off the rounding at 1
                with Draws(vals):
                    r, x = guarded(lambda: ALG[alg](arg))
            else:
                np.random.seed(g.i(0, 2 ** 31 - 1))
                r, x = guarded(lambda: ALG[alg](arg))
            o = {}
            if not x:
                r = np.asarray(r)
                ok = r.ndim == 1 and np.issubdtype(r.dtype, np.integer)
                o = dict(ret=[Raw(v + 1) for v in r] if ok else '?')
            t.add('resample', dict(alg=alg, w=V(w)), o, x)
            t.add('owned', dict(before=V(w)), dict(after=V(np.array(arg, float))))


def total_case(t, g, runs):
    w = weights(g)
    if len(w) > 6:
        w = w[:6] / w[:6].sum()
    n = len(w)
    if not np.all(np.isfinite(w)):
        w = np.full(n, 1. / n)
    np.random.seed(g.i(0, 2 ** 31 - 1))
    for alg in sorted(ALG):
        tot, seen, x = np.zeros(n), {}, ''
        for _ in range(runs):
            r, x = guarded(lambda: ALG[alg](w))
            if x:
                break
            b = np.bincount(r, minlength=n)[:n]
            tot += b
            seen[tuple(b)] = seen.get(tuple(b), 0) + 1
        t.add('resample.total', dict(w=V(w), runs=Raw(runs), alg=alg),
              dict(total=V(tot), seen=[dict(c=[Raw(v) for v in b], n=Raw(k)) for b, k in sorted(seen.items())]), x)


def resample(c):
    for i in range(c.n(70)):
        c.run('T_DB', 'resample %d' % i, resample_case, c.rng('resample', i))
    for i in range(c.n(14, 60)):
        c.run('T_DB', 'totals %d' % i, total_case, c.rng('totals', i), c.n(700, 3000))
