"""nobody's arrays change behind his back (specs Own, T_OWN)"""
import numpy as np
import filterpy.kalman as fk
import filterpy.common as fc
import filterpy.stats as fs_
import filterpy.discrete_bayes as db
import filterpy.monte_carlo as mc
from filterpy.kalman import (KalmanFilter, ExtendedKalmanFilter, FadingKalmanFilter, SquareRootKalmanFilter, InformationFilter,
                             UnscentedKalmanFilter, CubatureKalmanFilter, MerweScaledSigmaPoints, JulierSigmaPoints, EnsembleKalmanFilter,
                             IMMEstimator, MMAEFilterBank, FixedLagSmoother, unscented_transform)
from filterpy.hinfinity import HInfinityFilter
from filterpy.gh import GHFilter, GHKFilter, GHFilterOrder
from filterpy.leastsq import LeastSquaresFilter
from filterpy.memory import FadingMemoryFilter
from rec import M, guarded
from drivers.common import plain

# what a caller may hold on to between calls
REFS = ('x', 'P', 'x_prior', 'P_prior', 'x_post', 'P_post', 'K', 'y', 'S', 'SI', 'z', 'mu', 'p', 'P_inv', 'P_inv_prior', 'P_inv_post')
POKE = ('x', 'P', 'K', 'y', 'S', 'x_prior', 'P_prior', 'x_post', 'P_post', 'P_inv_prior', 'P_inv_post', 'Q', 'R', 'H', 'F')


def arrays(v):
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, (list, tuple)):
        return [a for x in v for a in arrays(x)]
    return []


class World:
    def __init__(self, t, g, f, kind, attrs):
        self.t, self.g, self.f, self.kind, self.k = t, g, f, kind, 0
        self.own, self.hist, self.attrs = {}, {}, attrs

    def snap(self):
        f = self.f
        d = {}
        for k in self.attrs:
            v, e = guarded(lambda: getattr(f, k))
            d[k] = 'raises' if e else plain(v)
        return dict(obj=d, own={k: plain(v) for k, v in self.own.items()}, hist={k: plain(v) for k, v in self.hist.items()})

    def mine(self, name, v):
        """an array of the caller"""
        self.own[name] = v
        return v

    def start(self):
        self.t.add('start', {}, dict(next=self.snap()))

    def call(self, name, fn, *args, **kw):
        """args: the caller's new arrays"""
        if name == 'update_sequential':   # fills in its rows of the residual and the gain
            self.hist = {k: v for k, v in self.hist.items() if k.split('.')[1] not in ('K', 'y', 'z')}
        self.k += 1
        for a in list(args) + list(kw.values()):
            for j, b in enumerate(arrays(a)):
                self.own['%d.%s.%d' % (self.k, name, len(self.own))] = b
                self.hist = {q: v for q, v in self.hist.items() if not np.may_share_memory(v, b)}
        # the state before the call, with the new arrays
        self.t.add('start', {}, dict(next=self.snap()), chk=False)
        r, e = guarded(fn, *args, **kw)
        if e:
            self.t.add('call', dict(name=name), {}, e)
            return None
        now = self.snap()
        for j, b in enumerate(arrays(r)):
            self.hist['%d.%s.result %d' % (self.k, name, j)] = b
        for k in REFS:
            v = getattr(self.f, k, None)
            if isinstance(v, np.ndarray) and v.ndim and not (k in 'Ky' and self.kind == 'LSQ'):
                self.hist['%d.%s' % (self.k, k)] = v
        if len(self.hist) > 40:           # the caller lets go of the oldest
            for q in sorted(self.hist, key=lambda s: int(s.split('.')[0]))[:len(self.hist) - 40]:
                del self.hist[q]
        now['next'] = self.snap()
        self.t.add('call', dict(name=name), now)
        return r

    def give(self, f, name, v):
        """assign an array of the caller to an attribute: the array stays his, and as it is"""
        self.k += 1
        self.own['given %d' % self.k] = v
        self.t.add('start', {}, dict(next=self.snap()), chk=False)
        r, e = guarded(setattr, f, name, v)
        if e:
            self.t.add('call', dict(name='assign'), {}, e)
            return
        self.t.add('call', dict(name='assign'), dict(self.snap(), next=self.snap()))

    def scribble(self):
        """write into an argument that was passed earlier"""
        names = [k for k, v in self.own.items() if k[0].isdigit() and v.dtype == float and v.flags.writeable and v.size]
        if not names:
            return
        k = self.g.choice(names)
        v = self.own[k]
        v.flat[self.g.i(0, v.size - 1)] += 7.25
        # other names of the same array (it was passed twice)
        s = self.snap()
        for q in list(self.own):
            if q != k and self.own[q] is v:
                del self.own[q]
        s = self.snap()
        self.t.add('scribble', dict(name=k), dict(s, next=s))
        if self.g.coin(.7):
            self.own.pop(k)
            self.t.add('start', {}, dict(next=self.snap()), chk=False)

    def poke_all(self):
        """write into every attribute, one after the other"""
        for k in POKE:
            if not self.t.dead:
                self.poke(k)

    def poke(self, only=None):
        """write into an attribute"""
        names = [k for k in POKE if isinstance(self.f.__dict__.get(k), np.ndarray) and self.f.__dict__[k].dtype == float and self.f.__dict__[k].flags.writeable and self.f.__dict__[k].size
                 and only in (None, k)]
        if not names:
            return
        k = self.g.choice(names)
        v = self.f.__dict__[k]
        # what the caller holds that is this very array changes with it
        self.hist = {q: a for q, a in self.hist.items() if a is not v}
        self.own = {q: a for q, a in self.own.items() if a is not v}
        self.t.add('start', {}, dict(next=self.snap()), chk=False)
        i = self.g.i(0, v.size - 1)
        old = v.flat[i]
        v.flat[i] += .125
        s = self.snap()
        # derived properties follow the attribute they show
        ders = [q for q in self.attrs if isinstance(getattr(type(self.f), q, None), property)]
        self.t.add('poke', dict(names=[k] + ders), dict(s, next=s))
        v.flat[i] = old
        self.t.add('start', {}, dict(next=self.snap()), chk=False)


def attrs_of(f):
    return [k for k, v in vars(f).items() if not callable(v) and k not in ('filters', 'points_fn') and k[0] != '_']


KINDS = ['KF', 'EKF', 'FADING', 'SR', 'INFO', 'HINF', 'UKF', 'CKF', 'KF', 'ENKF', 'IMM', 'MMAE', 'LAG', 'GH', 'GHK', 'KF', 'FM', 'GHO', 'LSQ']


def filter_case(t, g, depth, kind):
    n, m, nu = g.dim([1, 2, 3], (4, 6)), g.dim([1, 2], (3, 4)), 1
    nd = g.choice([1, 2])
    col = lambda v: v if nd == 1 else v.reshape(-1, 1)
    X = lambda: col(g.vec(n))
    Z = lambda: col(g.vec(m))
    U = lambda: col(g.vec(nu))
    own = {}
    ops = {}
    if kind in ('GH', 'GHK', 'FM', 'GHO', 'LSQ'):
        if kind == 'LSQ':
            f = LeastSquaresFilter(.5, g.i(0, 2), 1.)
            ops['update'] = lambda w: w.call('update', lambda: f.update(g.u(-2, 2)))
        elif kind == 'GHO':
            own['x0'] = g.vec(g.i(1, 3))
            f = GHFilterOrder(own['x0'], .5, len(own['x0']) - 1, .6, .3, .1)
            ops['update'] = lambda w: w.call('update', lambda: f.update(g.u(-2, 2)))
        elif kind == 'FM':
            o = g.i(0, 2)
            x0 = g.vec(o + 1)
            own['x0'] = x0
            f = FadingMemoryFilter(x0, 1., o, .7)
            ops['update'] = lambda w: w.call('update', lambda: f.update(g.u(-2, 2)))
        else:
            a = [g.vec(2) for _ in range(3)]
            own.update(x=a[0], dx=a[1])
            if kind == 'GH':
                f = GHFilter(a[0], a[1], 1., .6, .2)
            else:
                own['ddx'] = a[2]
                f = GHKFilter(a[0], a[1], a[2], 1., .6, .2, .1)
            ops['update'] = lambda w: w.call('update', lambda z: f.update(z), g.vec(2))
    elif kind == 'LAG':
        f = FixedLagSmoother(n, m, N=g.i(1, 3))
        own.update(x=X(), P=g.spd(n), F=g.F(n), Q=g.spd(n), H=g.H(m, n), R=g.spd(m))
        f.x, f.P, f.F, f.Q, f.H, f.R = [own[k] for k in 'xPFQHR']
        ops['smooth'] = lambda w: w.call('smooth', f.smooth, Z())
        ops['batch'] = lambda w: w.call('smooth_batch', lambda zs: f.smooth_batch(zs, 2), [Z() for _ in range(4)])
    elif kind in ('IMM', 'MMAE'):
        fs = []
        for i in range(2):
            k = KalmanFilter(n, m, nu)
            vals = dict(x=X(), P=g.spd(n), F=g.F(n), Q=g.spd(n, i + .5), H=g.H(m, n), R=g.spd(m), B=g.mat(n, nu))
            for q, v in vals.items():
                own['%s of %d' % (q, i)] = v
                setattr(k, q, v)
            fs.append(k)
        own['mu'] = np.array([.4, .6])
        if kind == 'IMM':
            own['M'] = np.array([[.9, .1], [.3, .7]])
            f = IMMEstimator(fs, own['mu'], own['M'])
        else:
            f = MMAEFilterBank(fs, own['mu'], dim_x=n)
        ops['predict'] = lambda w: w.call('predict', f.predict, U())
        ops['update'] = lambda w: w.call('update', f.update, Z())
    elif kind in ('UKF', 'CKF', 'ENKF'):
        own.update(x=g.vec(n), P=g.spd(n), Q=g.spd(n), R=g.spd(m), F=g.F(n), H=g.H(m, n))
        keep = g.coin(.4)                   # a process model that hands back the array it was given
        F, H = own['F'], own['H']
        fx = (lambda x, dt: x) if keep else (lambda x, dt: F @ x)
        hx = (lambda x: x[:m]) if keep and m <= n else (lambda x: H @ x)
        if kind == 'UKF':
            f = UnscentedKalmanFilter(n, m, 1., hx, fx, MerweScaledSigmaPoints(n, .5, 2., 1.) if g.coin() else JulierSigmaPoints(n, 1.))
        elif kind == 'CKF':
            f = CubatureKalmanFilter(n, m, 1., hx, fx)
        else:
            f = EnsembleKalmanFilter(own['x'], own['P'], m, 1., 6, hx, fx)
        if kind != 'ENKF':
            f.x, f.P = own['x'], own['P']
        f.Q, f.R = own['Q'], own['R']
        st = [False]

        def pred(w):
            st[0] = True
            w.call('predict', lambda: f.predict())

        def upd(w):
            if not st[0]:
                pred(w)
            st[0] = kind == 'ENKF'
            w.call('update', f.update, g.vec(m), **(dict(R=g.spd(m)) if g.coin(.4) else {}))
        ops['predict'], ops['update'] = pred, upd
        if kind == 'UKF':
            def bt(w):
                r = w.call('batch_filter', lambda zs, **k: f.batch_filter(zs, **k), [g.vec(m) for _ in range(3)], **(dict(Rs=[g.spd(m) for _ in range(3)]) if g.coin() else {}))
                st[0] = False
                if r is not None and g.coin():
                    w.call('rts_smoother', lambda a, b, **k: f.rts_smoother(a, b, **k), r[0], r[1], **(dict(Qs=[g.spd(n) for _ in range(3)]) if g.coin() else {}))
            ops['batch'] = bt
    else:
        H = g.H(m, n)
        if kind == 'EKF':
            f = ExtendedKalmanFilter(n, m, nu)
        elif kind == 'FADING':
            f = FadingKalmanFilter(1.05, n, m, nu)
            nd = 2
        elif kind == 'SR':
            f = SquareRootKalmanFilter(n, m, nu)
        elif kind == 'INFO':
            f = InformationFilter(n, m, nu)
        elif kind == 'HINF':
            f = HInfinityFilter(n, m, nu, gamma=.01)
            nd = 2
        else:
            f = KalmanFilter(n, m, nu)
        own.update(x=X(), F=g.F(n), Q=g.spd(n, .3), B=g.mat(n, nu))
        if kind == 'INFO':
            own.update(P_inv=g.spd(n), R_inv=g.spd(m))
        elif kind == 'HINF':
            own.update(P=g.spd(n), V=g.spd(m), W=g.spd(n, .3))
        else:
            own.update(P=g.spd(n), R=g.spd(m))
        if kind != 'EKF':
            own['H'] = H
        for k, v in own.items():
            setattr(f, k, v)
        opt = lambda **k: {q: v() for q, v in k.items() if g.coin(.4)}
        ops['predict'] = lambda w: w.call('predict', lambda **k: f.predict(**k), **(opt(u=U, B=lambda: g.mat(n, nu), F=lambda: g.F(n), Q=lambda: g.spd(n)) if kind == 'KF' else opt(u=U)))
        if kind == 'EKF':
            own['H'], own['Hx'] = H, col(g.vec(m))
            hj, hx = (lambda x: own['H']), ((lambda x: own['Hx']) if g.coin() else (lambda x: own['H'] @ x))
            ops['update'] = lambda w: w.call('update', lambda z, **k: f.update(z, hj, hx, **k), Z(), **opt(R=lambda: g.spd(m)))
            ops['predict_update'] = lambda w: w.call('predict_update', lambda z, **k: f.predict_update(z, hj, hx, **k), Z(), **opt(u=U))
        else:
            ro = dict(KF=dict(R=lambda: g.spd(m), H=lambda: g.H(m, n)), FADING=dict(R=lambda: g.spd(m)), SR=dict(R2=lambda: np.linalg.cholesky(g.spd(m))),
                      INFO=dict(R_inv=lambda: g.spd(m)), HINF={})[kind]
            ops['update'] = lambda w: w.call('update', lambda z, **k: f.update(z, **k), Z(), **opt(**ro))
        bf = lambda w, **k: w.call('batch_filter', lambda zs, **q: f.batch_filter(zs, **q), g.choice([list, np.array])([col(g.vec(m)) for _ in range(3)]), **k)
        if kind == 'KF':
            ops['update_sequential'] = lambda w: w.call('update_sequential', lambda z, **k: f.update_sequential(0, z, **k), g.vec(1), **opt(H_i=lambda: g.H(1, n), R_i=lambda: g.spd(1)))
            ops['update_correlated'] = lambda w: w.call('update_correlated', lambda z, **k: f.update_correlated(z, **k), Z(), **opt(R=lambda: g.spd(m)))
            ops['steady'] = lambda w: (w.call('predict_steadystate', lambda **k: f.predict_steadystate(**k), **opt(u=U, B=lambda: g.mat(n, nu))), ops['update'](w),
                                       w.call('update_steadystate', f.update_steadystate, Z()),
                                       w.call('update_steadystate', lambda: f.update_steadystate(None)) if g.coin() else None)
            ops['ask'] = lambda w: (w.call('get_prediction', lambda **k: f.get_prediction(**k), **opt(u=U)), w.call('get_update', f.get_update, Z()),
                                    w.call('residual_of', f.residual_of, Z()) if len(w.hist) else None, w.call('measurement_of_state', f.measurement_of_state, X()))
            mo = dict(Fs=lambda: [g.F(n) for _ in range(3)], Qs=lambda: [g.spd(n) for _ in range(3)], Rs=lambda: [g.spd(m) for _ in range(3)])

            def batch(w):
                r = bf(w, **opt(Hs=lambda: [g.H(m, n) for _ in range(3)], update_first=lambda: True, **mo))
                if r is not None and g.coin():
                    w.call('rts_smoother', lambda a, b, **q: f.rts_smoother(a, b, **q), r[0], r[1], **opt(Fs=mo['Fs'], Qs=mo['Qs']))
            ops['batch'] = batch
        if kind == 'FADING':
            ops['batch'] = lambda w: bf(w, **opt(update_first=lambda: True))
            ops['ask'] = lambda w: (w.call('get_prediction', lambda **k: f.get_prediction(**k), **opt(u=U)), w.call('residual_of', f.residual_of, Z()))
        if kind == 'HINF':
            ops['batch'] = lambda w: bf(w, **opt(update_first=lambda: True))
            ops['ask'] = lambda w: (w.call('get_prediction', lambda **k: f.get_prediction(**k), **opt(u=U)), w.call('residual_of', f.residual_of, Z()))
        if kind == 'SR':
            ops['ask'] = lambda w: w.call('residual_of', f.residual_of, Z())
    w = World(t, g, f, kind, attrs_of(f))
    for k, v in own.items():
        w.mine(k, v)
    w.start()
    nones = kind not in ('GH', 'GHK', 'FM', 'LAG', 'GHO', 'LSQ')
    new = dict(x=X, P=lambda: g.spd(n), F=lambda: g.F(n), Q=lambda: g.spd(n, .5), H=lambda: g.H(m, n), R=lambda: g.spd(m), B=lambda: g.mat(n, nu),
               P_inv=lambda: g.spd(n), R_inv=lambda: g.spd(m), V=lambda: g.spd(m), W=lambda: g.spd(n, .3))
    if kind in ('UKF', 'CKF', 'ENKF'):
        new['x'] = lambda: g.vec(n).reshape(np.shape(f.x))    # the cubature filter's state is a column after a prediction
    given = dict(INFO='xFQHB', HINF='xPFQHBVW', EKF='xPFQRB', UKF='xPQR', CKF='xPQR', ENKF='QR', KF='xPFQHRB', FADING='xPFQHRB', SR='xPFQHRB',
                 IMM='xPFQHRB', MMAE='xPFQHRB', LAG='xPFQHR').get(kind, '')
    given = list(given) + (['P_inv', 'R_inv'] if kind == 'INFO' else [])
    for _ in range(depth):
        k = g.choice(sorted(ops) + ['scribble', 'scribble', 'poke'] + (['none'] if nones else []) + (['give', 'give'] if given else []))
        if k == 'scribble':
            w.scribble()
        elif k == 'poke':
            if kind not in ('GH', 'GHK'):      # until the first update a prediction is the initial state itself
                w.poke()
        elif k == 'give':
            q, tgt = g.choice(given), f
            if kind in ('IMM', 'MMAE'):
                tgt = g.choice(f.filters)
            w.give(tgt, q, new[q]())
        elif k == 'none':
            w.call('update', (lambda: f.update(None, hj, hx)) if kind == 'EKF' else lambda: f.update(None))
        else:
            ops[k](w)
        if t.dead or any(isinstance(a, np.ndarray) and a.dtype == float and not np.all(abs(a) < 1e6) for a in [getattr(f, 'x', None), getattr(f, 'P', None)]):
            return
    if kind not in ('GH', 'GHK'):
        w.poke_all()


class Nothing:
    pass


def function_case(t, g):
    """functions: what they return is the caller's, what they are given stays as it is"""
    n, m, k = g.choice([1, 2, 3]), g.choice([1, 2]), 3
    w = World(t, g, Nothing(), 'functions', [])
    w.start()
    col = lambda v: v.reshape(-1, 1)
    S = lambda: [g.spd(n) for _ in range(k)]
    prob = lambda q: (lambda v: v / v.sum())(g.r.uniform(.1, 1, q))
    spec = {
        'predict': lambda: w.call('predict', fk.predict, col(g.vec(n)), g.spd(n), g.F(n), g.spd(n), **(dict(u=col(g.vec(1)), B=g.mat(n, 1)) if g.coin() else {})),
        'update': lambda: w.call('update', lambda *a: fk.update(*a, return_all=g.coin()), col(g.vec(n)), g.spd(n), col(g.vec(m)), g.spd(m), g.H(m, n)),
        'update_steadystate': lambda: w.call('update_steadystate', fk.update_steadystate, col(g.vec(n)), col(g.vec(m)), g.mat(n, m), g.H(m, n)),
        'predict_steadystate': lambda: w.call('predict_steadystate', fk.predict_steadystate, col(g.vec(n)), g.F(n)),
        'batch_filter': lambda: w.call('batch_filter', fk.batch_filter, col(g.vec(n)), g.spd(n), [col(g.vec(m)) for _ in range(k)], [g.F(n) for _ in range(k)], S(), [g.H(m, n) for _ in range(k)], [g.spd(m) for _ in range(k)]),
        'rts_smoother': lambda: w.call('rts_smoother', fk.rts_smoother, np.array([g.vec(n) for _ in range(k)]), np.array(S()), [g.F(n) for _ in range(k)], S()),
        'unscented_transform': lambda: w.call('unscented_transform', unscented_transform, g.mat(4, n), prob(4), prob(4), g.spd(n)),
        'sigma_points': lambda: w.call('sigma_points', g.choice([MerweScaledSigmaPoints(n, .5, 2., 1.), JulierSigmaPoints(n, 1.), fk.SimplexSigmaPoints(n)]).sigma_points, g.vec(n), g.spd(n)),
        'bayes.update': lambda: w.call('bayes.update', db.update, prob(4), prob(4)),
        'bayes.predict': lambda: w.call('bayes.predict', lambda p, q: db.predict(p, g.i(-2, 2), q, g.choice(['wrap', 'constant'])), prob(5), prob(3)),
        'resample': lambda: w.call('resample', g.choice([mc.residual_resample, mc.stratified_resample, mc.systematic_resample, mc.multinomial_resample]), prob(6)),
        'multivariate_multiply': lambda: w.call('multivariate_multiply', fs_.multivariate_multiply, g.vec(n), g.spd(n), g.vec(n), g.spd(n)),
        'logpdf': lambda: w.call('logpdf', fs_.logpdf, g.vec(n), g.vec(n), g.spd(n)),
        'mahalanobis': lambda: w.call('mahalanobis', fs_.mahalanobis, g.vec(n), g.vec(n), g.spd(n)),
        'NEES': lambda: w.call('NEES', fs_.NEES, g.mat(k, n), g.mat(k, n), np.array(S())),
        'covariance_ellipse': lambda: w.call('covariance_ellipse', fs_.covariance_ellipse, g.spd(2)),
        'outer_product_sum': lambda: w.call('outer_product_sum', fc.outer_product_sum, g.mat(4, n), g.mat(4, m)),
        'inv_diagonal': lambda: w.call('inv_diagonal', fc.inv_diagonal, np.diag(g.r.uniform(.5, 2, n))),
        'van_loan': lambda: w.call('van_loan_discretization', lambda a, b: fc.van_loan_discretization(a, b, .1), g.mat(n, n), g.mat(n, 1)),
        'linear_ode': lambda: w.call('linear_ode_discretation', lambda a, b, c: fc.linear_ode_discretation(a, b, c, .1), g.mat(n, n), g.mat(n, n), g.spd(n)),
        'order_by_derivative': lambda: w.call('order_by_derivative', lambda q: fc.order_by_derivative(q, n, 2), g.mat(n, n)),
        'runge_kutta4': lambda: w.call('runge_kutta4', lambda y: fc.runge_kutta4(y, 0., .1, lambda y, x: -y), g.vec(n)),
    }
    for _ in range(g.i(3, 7)):
        q = g.choice(sorted(spec) + ['scribble'] * 6)
        w.scribble() if q == 'scribble' else spec[q]()
        if t.dead:
            return


def own(c):
    for i in range(c.n(230)):
        c.run('T_OWN', 'filter %d' % i, filter_case, c.rng('own', i), c.n(8, 14), KINDS[i % len(KINDS)])
    for i in range(c.n(110)):
        c.run('T_OWN', 'functions %d' % i, function_case, c.rng('ownf', i))
