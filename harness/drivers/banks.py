"""IMM, MMAE, fixed lag smoother, ensemble filter (specs Banks, T_BK)."""
import numpy as np
from filterpy.kalman import KalmanFilter, IMMEstimator, MMAEFilterBank, FixedLagSmoother, EnsembleKalmanFilter
from rec import Units, units, fn, Inv, ivof, M, V, guarded, Raw, assign, twin


def kf_obs(f):
    return dict(x=M(f.x), P=M(f.P), F=M(f.F), Q=M(f.Q), H=M(f.H), R=M(f.R), B=M(f.B), alpha=f.alpha, lik=guarded(lambda: f.likelihood)[0],
                ll=guarded(lambda: f.log_likelihood)[0], mah=0, xp=0, Pp=0, xo=0, Po=0, y=0, S=0, SI=0, K=0, z=0)


def obs(b, kind):
    o = dict(x=M(b.x), P=M(b.P), xp=M(b.x_prior), Pp=M(b.P_prior), xo=M(b.x_post), Po=M(b.P_post), fs=[kf_obs(f) for f in b.filters])
    if kind == 'imm':
        o.update(mu=V(b.mu), M=M(b.M))
    else:
        o.update(p=V(b.p), H=M(b.H), z=M(b.z))
    return o


def bank_case(t, g, kind, hist, copies=0):
    n, m, nf = g.dim([1, 2, 2, 3]), g.dim([1, 1, 2], (3, 5)), g.dim([2, 2, 3], (4, 6), .1)
    nd = g.choice([1, 2])
    nu = 1
    g.ints = g.coin(.12)
    fs = []
    F0, H0 = g.F(n), g.H(m, n)
    ctl = g.coin(.4)
    same = g.coin(.1)
    un = units(g, z=False)       # likelihoods are the same in all of them
    for i in range(nf):
        f = KalmanFilter(n, m, nu)
        if un != (1., 1.):
            f = Units(f, 'KF', *un)
        x = g.vec(n, 1.)
        f.x = x if nd == 1 else x.reshape(-1, 1)
        f.P, f.F, f.Q = g.spd(n), F0 + g.mat(n, n, .1), g.spd(n, g.choice([.1, 1.]))
        f.H, f.R = (H0.copy() if g.coin(.7) else g.H(m, n)), g.spd(m, g.choice([.5, 1.]))
        if ctl:
            f.B = g.mat(n, nu)
        if g.coin(.08):
            f.alpha = 1 + g.u(0, .3)
        if same and i:
            for k in ('x', 'P', 'F', 'Q', 'H', 'R', 'B'):
                setattr(f, k, np.array(getattr(fs[0], k)) if getattr(fs[0], k) is not None else None)
        fs.append(f)
    w = np.round(g.r.uniform(.1, 1, nf), 3)
    proxies, bare = fs, fs
    if un != (1., 1.):
        bare = [f.f_ for f in fs]

    def bank(b):
        return b if un == (1., 1.) else Units(b, 'BANK', *un)
    if kind == 'imm':
        chain = g.coin(.2)
        if g.coin(.5 if chain else .1):
            w[0] = 0.
        if g.coin(.5):
            w = w / w.sum()
        T = g.r.uniform(.05, 1, (nf, nf)) + np.eye(nf) * g.choice([0, 2, 10])
        if chain:                # some changes never happen
            T = np.eye(nf) if g.coin(.3) else np.triu(T) if g.coin() else T * (g.r.rand(nf, nf) < .5) + np.eye(nf)
        T = T / T.sum(axis=1, keepdims=True)
        mu, Tm = (list(w) if g.coin() else w), T.copy()
        own = [(v, M(v).copy()) for v in (mu, Tm)]
        b = t.call('imm.new', lambda: bank(IMMEstimator(bare, mu, Tm)), lambda r: obs(r, kind), dict(mu=V(w), M=T))
    else:
        if g.coin(.1):
            w[g.i(0, nf - 1)] = 0.
        w = w / w.sum()
        pp = g.choice([list(w), tuple(w), w.copy()])
        Hb = H0 if g.coin(.3) else None
        own = [(pp, M(pp).copy())]
        b = t.call('mmae.new', lambda: bank(MMAEFilterBank(bare, pp, n, None if Hb is None else Hb / un[0]) if Hb is not None else MMAEFilterBank(bare, pp, n)), lambda r: obs(r, kind), dict(p=V(w)))
    if b is None:
        return
    col = lambda v: v if nd == 1 else v.reshape(-1, 1)
    for op in hist:
        name, _, var = op.partition(':')
        if copies and g.coin(copies):
            b = t.call(kind + '.copied', lambda: twin(b, g), lambda r: obs(r, kind))
            if b is None:
                return
        if g.coin(.2):          # a model that changes between the steps
            i, k = g.i(0, nf - 1), g.choice(['F', 'Q', 'H', 'R', 'P', 'x'])
            v = dict(F=lambda: g.F(n), Q=lambda: g.spd(n), H=lambda: g.H(m, n), R=lambda: g.spd(m), P=lambda: g.spd(n),
                     x=lambda: col(g.vec(n)))[k]()
            inplace = g.coin(.4)
            t.call(kind + '.set', lambda: assign(b.filters[i], k, v, inplace), lambda r: obs(b, kind), {'i': Raw(i + 1), k: M(v)})
        if name == 'predict':
            u = col(g.vec(nu)) if ctl and var == 'u' else None
            a = dict(u=M(u))
            if u is not None and g.coin(.2):                     # as plain numbers
                u = float(u.ravel()[0]) if nd == 2 and g.coin() else u.tolist()
            t.call(kind + '.predict', lambda: b.predict(u) if u is not None or g.coin() else b.predict(), lambda r: obs(b, kind), a)
        else:
            z = None if var == 'none' else col(g.vec(m, g.choice([1., 1., 3., 60.]) if var == 'far' else 1.5))
            a, kw = dict(z=M(z), R=None, H=None), {}
            if z is not None and var != 'H' and g.coin(.2):      # as plain numbers
                z = float(z.ravel()[0]) if m == 1 and g.coin() else z.tolist()
            if kind == 'mmae' and var == 'R':
                kw['R'] = a['R'] = g.spd(m) if g.coin() else g.u(.4, 2)
            if kind == 'mmae' and var == 'H':
                kw['H'] = a['H'] = g.H(m, n)
            t.call(kind + '.update', lambda: b.update(z, **kw), lambda r: obs(b, kind), a)
            w0 = np.array(V(b.mu if kind == 'imm' else b.p))
            if np.any((w0 > 0) & (w0 < 1e-290)):      # about to underflow
                return
    if not copies:
        t.add('owned', dict(before=[x for _, x in own]), dict(after=[M(v) for v, _ in own]))


def _banks(c, kind):
    hs = c.hist('IMM' if kind == 'imm' else 'MMAE', 2, sim=(c.n(90), c.n(7, 12))) + c.turns(kind.upper(), 12)
    for i, h in enumerate(hs):
        c.run('T_BK', '%s %d: %s' % (kind, i, ' '.join(h)), bank_case, c.rng(kind, i), kind, h)


def imm(c):
    _banks(c, 'imm')


def mmae(c):
    _banks(c, 'mmae')


def missing(c):
    for kind in ('imm', 'mmae'):
        g = c.rng('mb', kind)
        for i in range(c.n(20)):
            h = [g.choice(['predict', 'update', 'update:none', 'update:none']) for _ in range(g.i(2, 6))]
            c.run('T_BK', 'missing %s %d: %s' % (kind, i, ' '.join(h)), bank_case, c.rng('mb', kind, i), kind, h)
    for i in range(c.n(10)):
        c.run('T_BK', 'missing ens %d' % i, ens_case, c.rng('me', i), True)


def lag_case(t, g, copies=0):
    n, m, N = g.dim([1, 2, 2, 3]), g.dim([1, 1, 2], (3, 5)), g.choice([1, 2, 3, 4, g.i(1, 7)])
    nd = g.choice([1, 2])
    col = lambda v: v if nd == 1 else v.reshape(-1, 1)
    g.ints = g.coin(.12)
    f = FixedLagSmoother(n, m, N=N)
    un = units(g)
    if un != (1., 1.):
        f = Units(f, 'LAG', *un)
    f.x, f.P, f.F, f.Q = col(g.vec(n, 2.)), g.spd(n, 2.), g.F(n), g.spd(n, .5)
    f.H, f.R = g.H(m, n), g.spd(m)
    nu = g.choice([1, 2])
    ctl = g.coin(.4)
    if ctl:
        f.B = g.mat(n, nu)
    par = lambda: dict(F=M(f.F), Q=M(f.Q), H=M(f.H), R=M(f.R), B=M(f.B), x=M(f.x), P=M(f.P))
    t.call('lag.new', lambda: None, lambda r: par())
    K = g.i(9, 14) if n < 3 and g.coin(.2) else g.i(1, 8)
    zs = [col(g.vec(m, 2.)) for _ in range(K)]
    us = [col(g.vec(nu)) for _ in range(K)]
    zg = [z.tolist() if g.coin(.15) else float(z.ravel()[0]) if m == 1 and g.coin(.15) else z for z in zs]
    ug = [u.tolist() if g.coin(.15) else float(u.ravel()[0]) if nu == 1 and nd == 2 and g.coin(.15) else u for u in us]
    if copies or g.coin(.6):
        changing = g.coin(.5)
        for i in range(K):
            u = ug[i] if ctl and g.coin(.8) else None
            if changing and g.coin(.4):
                q = g.choice('FQHR')
                v = dict(F=lambda: g.F(n), Q=lambda: g.spd(n, .5), H=lambda: g.H(m, n), R=lambda: g.spd(m))[q]()
                t.call('lag.set', lambda: assign(f, q, v, g.coin(.4)), lambda r: par(), {q: v})
            if copies and g.coin(copies):
                f = t.call('lag.copied', lambda: twin(f, g), lambda r: dict(dict(F=M(r.F), Q=M(r.Q), H=M(r.H), R=M(r.R), B=M(r.B), x=M(r.x), P=M(r.P))))
                if f is None:
                    return
            t.call('lag.smooth', lambda: f.smooth(zg[i], u) if u is not None else f.smooth(zg[i]),
                   lambda r: dict(par(), y=M(f.y), S=M(f.S), xs=[M(x) for x in f.xSmooth]), dict(z=M(zs[i]), u=None if u is None else M(us[i]), N=Raw(N)))
    else:
        Nb = g.i(1, 4)
        b = [M(f.x).copy(), M(f.P).copy()] + [M(z).copy() for z in zs]
        kw = dict(us=np.array(us) if g.coin(.3) else us) if ctl else {}
        za = np.array(zs) if g.coin(.3) else zg
        t.call('lag.batch', lambda: f.smooth_batch(za, Nb, **kw),
               lambda r: dict(xs=[M(x) for x in r[0]], xh=[M(x) for x in r[1]]),
               dict(zs=[M(z) for z in zs], us=[M(u) for u in us] if ctl else None, N=Raw(Nb)))
        t.add('owned', dict(before=b), dict(after=[M(f.x), M(f.P)] + [M(z) for z in zs]))


def lag(c):
    for i in range(c.n(220)):
        c.run('T_BK', 'fixed lag %d' % i, lag_case, c.rng('lag', i))


def ens_case(t, g, missing=False, copies=0):
    np.random.seed(g.i(0, 10 ** 6))
    n, m = g.dim([1, 2, 2, 3]), g.dim([1, 1, 2], (3, 5))
    N = g.choice([6, 12, 150, 300]) if not missing else 6
    F, G, H, Gh = g.F(n), g.mat(n, n, .05), g.H(m, n), g.mat(m, n, .05)
    cc, dt = g.choice([0., 1.]), g.choice([1., .1, .5])
    g.ints = g.coin(.12)
    x, P = g.vec(n, 1.5), g.spd(n)
    own = [(x, x.copy()), (P, P.copy())]
    par = dict(F=F, G=G, H=H, Gh=Gh, c=cc, dt=dt)

    def ob(f):
        return dict(x=M(f.x), P=M(f.P), xp=M(f.x_prior), Pp=M(f.P_prior), xo=M(f.x_post), Po=M(f.P_post), sg=np.array(f.sigmas),
                    K=M(f.K), S=M(f.S), SI=M(f.SI), z=M(f.z))
    ux, uz = units(g)
    hx, fx = lambda v: H @ v + cc * (Gh @ v ** 2), lambda v, d: F @ v + d * cc * (G @ v ** 2)

    def new():
        if ux == uz == 1.:
            return EnsembleKalmanFilter(x=x, P=P, dim_z=m, dt=dt, N=N, hx=hx, fx=fx)
        return Units(EnsembleKalmanFilter(x=x * ux, P=P * ux ** 2, dim_z=m, dt=dt, N=N, hx=fn('hx', hx, ux, uz), fx=fn('fx', fx, ux, uz)),
                     'ENS', ux, uz)
    f = t.call('ens.new', new, ob, dict(par, x=M(x), P=P, N=Raw(N)))
    if f is None:
        return
    f.Q, f.R = g.spd(n, .4), g.spd(m)
    if ux == uz == 1. and g.coin(.15):
        f.inv = Inv(g.u(.1, 1.))
    if g.coin(.2):
        f.Q = np.zeros((n, n))
    for _ in range(g.i(7, 12) if N < 50 and g.coin(.4) else g.i(2, 5)):
        k = g.choice(['predict', 'update', 'update', 'none'])
        if g.coin(.15):          # a model that changes between the steps
            inplace = g.coin()
            assign(f, 'Q', g.spd(n, g.choice([.1, .4, 3.])), inplace)
            assign(f, 'R', g.spd(m, g.choice([.3, 1., 5.])), inplace)
            f.dt = par['dt'] = g.choice([1., .1, .3])
            par = dict(par)
        if copies and g.coin(copies):
            f = t.call('ens.copied', lambda: twin(f, g), ob)
            if f is None:
                return
        if missing:
            k = g.choice(['predict', 'update', 'none', 'none'])
        if k == 'predict':
            t.call('ens.predict', lambda: f.predict(), lambda r: ob(f), dict(par, Q=f.Q))
        else:
            z = None if k == 'none' else g.vec(m, 1.5)
            a, kw = dict(par, z=M(z), R=None, Rown=M(f.R), iv=ivof(f)), {}
            if g.coin(.4):
                kw['R'] = a['R'] = g.spd(m) if g.coin() else g.uz(.4, 2., m == 1 and abs(H).max() > .1)
            zz = list(z) if z is not None and g.coin(.3) else z
            t.call('ens.update', lambda: f.update(zz, **kw), lambda r: ob(f), a)
        if not np.all(np.isfinite(f.sigmas)) or abs(f.sigmas).max() > 100:
            return
        if len(t.ev) > 2 and g.coin(.1):
            x2, P2 = g.vec(n, 1.), g.spd(n)
            t.call('ens.new', lambda: f.initialize(x2, P2), lambda r: ob(f), dict(par, x=M(x2), P=P2, N=Raw(N)))
    if not copies:
        t.add('owned', dict(before=[M(b) for _, b in own]), dict(after=[M(v) for v, _ in own]))


def copies(c):
    for kind in ('imm', 'mmae'):
        for i, h in enumerate(c.hist(kind.upper(), 1, sim=(c.n(18), c.n(6, 10)))):
            c.run('T_BK', 'copies %s %d: %s' % (kind, i, ' '.join(h)), bank_case, c.rng('cp', kind, i), kind, h, .5)
    for i in range(c.n(30)):
        c.run('T_BK', 'copies fixed lag %d' % i, lag_case, c.rng('cpl', i), .5)
    for i in range(c.n(25)):
        c.run('T_BK', 'copies ensemble %d' % i, ens_case, c.rng('cpe', i), False, .5)


def ens(c):
    for i in range(c.n(110)):
        c.run('T_BK', 'ensemble %d' % i, ens_case, c.rng('ens', i))
