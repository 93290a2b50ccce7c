"""programs with many filters: new ones, steps of some, calls that are refused (specs World, T_IN)"""
import copy, hashlib, warnings
import numpy as np
import filterpy.kalman as fk
import filterpy.common as fc
import filterpy.gh as gh
import filterpy.stats as fs_
from filterpy.kalman import (KalmanFilter, ExtendedKalmanFilter, FadingKalmanFilter, SquareRootKalmanFilter, InformationFilter,
                             UnscentedKalmanFilter, CubatureKalmanFilter, MerweScaledSigmaPoints, JulierSigmaPoints, SimplexSigmaPoints,
                             EnsembleKalmanFilter, IMMEstimator, MMAEFilterBank, FixedLagSmoother)
from filterpy.hinfinity import HInfinityFilter
from filterpy.gh import GHFilter, GHKFilter, GHFilterOrder
from filterpy.leastsq import LeastSquaresFilter
from filterpy.memory import FadingMemoryFilter
from rec import M, V, Raw, guarded, shape
warnings.simplefilter('ignore')


def public(f):
    # (the likelihoods are computed when they are asked for: C09)
    return [k for k in dir(f) if k[0] != '_' and k not in ('likelihood', 'log_likelihood', 'mahalanobis')]


def digest(f):
    """everything public that an object shows"""
    h = hashlib.md5()

    def go(v, d):
        if isinstance(v, np.ndarray):
            h.update(repr((v.shape, v.dtype.str)).encode())
            h.update(v.tobytes() if v.dtype != object else repr(v.tolist()).encode())
        elif isinstance(v, (list, tuple)):
            h.update(b'[%d' % len(v))
            [go(x, d) for x in v]
        elif v is None or isinstance(v, (int, float, complex, str, np.number, np.bool_)):
            h.update(repr(v).encode())
        elif callable(v):
            pass
        elif d and type(v).__module__.startswith('filterpy'):
            for k in public(v):
                x, e = guarded(lambda: getattr(v, k))
                h.update((k + ':' + e[:20]).encode())
                if not e:
                    go(x, d - 1)
    go(f, 3)
    return h.hexdigest()


LIN = {'KF': KalmanFilter, 'EKF': ExtendedKalmanFilter, 'SR': SquareRootKalmanFilter, 'INFO': InformationFilter}
KINDS = ['KF', 'KF', 'EKF', 'FADING', 'SR', 'INFO', 'HINF', 'LAG', 'UKF', 'UKF', 'CKF', 'ENKF', 'GH', 'GHK', 'GHO', 'FM', 'LSQ', 'KIN', 'IMM', 'MMAE']


class World:
    def __init__(self, t, g):
        self.t, self.g, self.fs = t, g, []      # kind, filter, n, m, step
        t.add('start', {}, dict(w=[]))

    def look(self):
        return [digest(f[1]) for f in self.fs]

    def new(self, kind=None):
        g = self.g
        kind = kind or g.choice(KINDS)
        n, m, u = g.choice([1, 2, 2, 3, 4]), g.choice([1, 1, 2, 3]), g.choice([0, 1, 2])
        nd = False
        a, names = {}, ()
        fx, hx = (lambda x, dt: np.asarray(x) * .9 + .1), (lambda x: np.resize(np.asarray(x) * .5, m))
        if kind in LIN:
            mk = lambda: LIN[kind](n, m, u) if u or g.coin() else LIN[kind](n, m)
        elif kind == 'FADING':
            a['alpha'] = al = g.choice([1, 1.05, 1 + g.u(0, 1)])
            mk = lambda: FadingKalmanFilter(al, n, m, u)
        elif kind == 'HINF':
            a['gamma'] = ga = g.u(0, .1)
            mk = lambda: HInfinityFilter(n, m, u, gamma=ga)
        elif kind == 'LAG':
            mk = lambda: FixedLagSmoother(n, m, N=g.i(1, 4))
        elif kind == 'UKF':
            pts = g.choice([lambda: MerweScaledSigmaPoints(n, .5, 2., 1.), lambda: JulierSigmaPoints(n), lambda: SimplexSigmaPoints(n)])()
            mk = lambda: UnscentedKalmanFilter(n, m, .5, hx, fx, pts)
        elif kind == 'CKF':
            mk = lambda: CubatureKalmanFilter(n, m, .5, hx, fx)
        elif kind == 'ENKF':
            x, P = g.vec(n), g.spd(n)
            a.update(x=M(x), P=P)
            np.random.seed(g.i(0, 10 ** 6))
            mk = lambda: EnsembleKalmanFilter(x, P, m, .5, g.i(2, 12), hx, fx)
        elif kind in ('GH', 'GHK'):
            sc = g.coin()
            v = lambda: g.u(-2, 2) if sc else g.vec(2)
            a.update(x=v(), dx=v(), dt=g.u(.1, 2), g=g.u(0, 1), h=g.u(0, 1))
            if kind == 'GHK':
                a.update(ddx=v(), k=g.u(0, 1))
            b = dict(a)
            mk = lambda: (GHFilter if kind == 'GH' else GHKFilter)(**b)
        elif kind in ('GHO', 'FM'):
            o = g.i(0, 2)
            x0 = g.u(-2, 2) if g.coin() else g.vec(o + 1)
            x = np.array([x0] + [0.] * o) if np.isscalar(x0) else x0
            a.update(x=M(x), dt=g.u(.1, 2), order=Raw(o))
            mk = lambda: GHFilterOrder(x0, a['dt'], o, .6, .3, .1) if kind == 'GHO' else FadingMemoryFilter(x0, a['dt'], o, g.u(.1, .9))
        elif kind == 'LSQ':
            o = g.i(0, 2)
            a.update(dt=g.u(.1, 2), order=Raw(o))
            mk = lambda: LeastSquaresFilter(a['dt'], o)
        elif kind == 'KIN':
            d, o = g.i(1, 2), g.i(0, 2)
            n, m = d * (o + 1), d
            mk = lambda: fc.kinematic_kf(d, o, dim_z=m)
        else:
            k = g.i(2, 3)
            fs = [KalmanFilter(n, m) for _ in range(k)]
            for f in fs:
                f.H = g.H(m, n)
            mu = g.r.uniform(.1, 1, k)
            mu /= mu.sum()
            T = g.r.uniform(.1, 1, (k, k))
            T /= T.sum(axis=1)[:, None]
            a.update(mu=V(mu), M=T, p=V(mu))
            mk = lambda: IMMEstimator(fs, mu, T) if kind == 'IMM' else MMAEFilterBank(fs, mu, n)
        f, e = guarded(mk)
        if e:
            return self.t.add('new', dict(kind=kind), {}, e)
        attrs = {}
        for k in ('x', 'P', 'Q', 'R', 'F', 'H', 'M', 'W', 'V', 'x_prior', 'P_prior', 'x_post', 'P_post', 'P_inv', 'R_inv', 'P_inv_prior', 'P_inv_post',
                  'y', 'K', 'alpha', 'gamma', 'dx', 'ddx', 'dt', 'g', 'h', 'k', 'mu', 'p', 'xSmooth'):
            v, e = guarded(lambda: getattr(f, k))
            if not e:
                attrs[k] = V(v) if k in ('mu', 'p') else list(v) if k == 'xSmooth' else v if np.isscalar(v) or kind in ('GH', 'GHK') else M(v)
        nothing = kind not in ('KF', 'EKF', 'FADING', 'SR', 'UKF', 'CKF', 'ENKF', 'KIN') or isinstance(M(f.z), str)
        self.fs.append([kind, f, n, m, hx])
        self.t.add('new', dict(kind=kind, n=Raw(n), m=Raw(m), args=a), dict(attrs=attrs, nothing=nothing, w=self.look()))

    def step(self, i):
        """a model written into a filter, and a step of it"""
        g = self.g
        kind, f, n, m, hx = self.fs[i]

        def change(f):
            for k in ('x', 'P', 'Q', 'F', 'R', 'B', 'K', 'y', 'V', 'W', 'Wm', 'Wc', 'R_inv', 'P_inv', 'M', 'z'):
                v = vars(f).get(k)
                if isinstance(v, np.ndarray) and v.dtype == float and v.ndim and v.flags.writeable and g.coin(.6):
                    if k in ('Wm', 'Wc', 'B') or kind in ('IMM', 'MMAE') and f is self.fs[i][1]:
                        continue
                    v *= 1.5
                    v.flat[0] += .25
            if isinstance(vars(f).get('H'), np.ndarray) and f.H.shape == (m, n):
                f.H[...] = np.eye(m, n)
            if kind == 'HINF':
                f.V = np.eye(m)
            if kind == 'INFO':
                f.F = np.eye(n) * .9
            if kind == 'SR' and g.coin():
                f.P, f.Q, f.R = np.eye(n) * 2, np.eye(n) * .5, np.eye(m) * 3

        def go():
            change(f)
            for q in getattr(f, 'filters', []):
                change(q)
            z = g.vec(m) if kind in ('UKF', 'CKF', 'ENKF') else g.vec(m).reshape(-1, 1)
            if kind in ('GH', 'GHK'):
                f.update(g.u(-1, 1) if np.isscalar(f.x) else g.vec(2))
            elif kind in ('GHO', 'FM', 'LSQ'):
                f.update(g.u(-1, 1))
            elif kind == 'LAG':
                f.smooth(z)
            elif kind == 'EKF':
                f.predict()
                f.update(z, lambda x: np.eye(m, n), lambda x: np.eye(m, n) @ x)
            else:
                if kind == 'ENKF':
                    np.random.seed(g.i(0, 10 ** 6))
                if g.coin(.8) or kind in ('UKF', 'CKF'):
                    f.predict()
                f.update(z if g.coin(.85) else None)
            if g.coin(.2):
                repr(f)
        _, e = guarded(go)           # what a step does is other properties' business
        self.t.add('step', dict(i=Raw(i + 1)), dict(w=self.look(), e=e[:60]))

    # ------------------------------------------------------------ what cannot be
    def refuse(self, what, args, fn, i=None):
        _, e = guarded(fn)
        self.t.add('refuse', dict(what=what, args=args, i=Raw(0 if i is None else i + 1)), dict(raised=bool(e), w=self.look(), e=e[:80]))

    def bad(self):
        """a constructor or a function, with arguments that may not be"""
        g = self.g
        k = g.i(0, 13)
        R = Raw
        d = lambda lo=-1: g.choice([lo, 0, 1, 2])
        if k in (0, 1):
            n, m, u = g.choice([-1, 0, 1, 2, 2]), g.choice([-1, 0, 1, 2, 2]), g.choice([-1, 0, 1, 1])
            C = g.choice([KalmanFilter, SquareRootKalmanFilter, InformationFilter, lambda a, b, c: FadingKalmanFilter(1.1, a, b, c)])
            self.refuse('dims', dict(n=R(n), m=R(m), u=R(u)), lambda: C(n, m, u))
        elif k == 2:
            m, N, nd = d(), g.choice([-1, 0, 3, 5]), g.choice([1, 1, 2])
            x = g.vec(2) if nd == 1 else g.vec(2).reshape(-1, 1)
            self.refuse('ensemble', dict(m=R(m), N=R(N), nd=R(nd)), lambda: EnsembleKalmanFilter(x, np.eye(2), m, 1., N, lambda x: x[:1], lambda x, dt: x))
        elif k == 3:
            al = g.choice([0., .5, .999, 1, 1., 1.2, -1.1])
            self.refuse('fading', dict(alpha=al), lambda: FadingKalmanFilter(al, 2, 1))
        elif k == 4:
            ns = [g.choice([1, 2, 2, 2]) for _ in range(g.i(1, 3))]
            K = len(ns)
            self.refuse('imm', dict(n=[R(q) for q in ns]), lambda: IMMEstimator([KalmanFilter(q, 1) for q in ns], [1 / K] * K, np.ones((K, K)) / K))
        elif k == 5:
            a, b, n = g.i(2, 3), g.i(2, 3), g.choice([0, 2, 2, 2])
            self.refuse('mmae', dict(filters=R(a), p=R(b), n=R(n)), lambda: MMAEFilterBank([KalmanFilter(2, 1) for _ in range(a)], [1 / b] * b, n))
        elif k == 6:
            o = g.i(-1, 3)
            x0 = np.zeros(max(o, 0) + 1)
            C = g.choice([lambda: GHFilterOrder(x0, 1., o, .5, .2, .1), lambda: LeastSquaresFilter(1., o), lambda: FadingMemoryFilter(x0, 1., o, .5)])
            self.refuse('order', dict(order=R(o)), C)
        elif k == 7:
            th, o = g.choice([-.1, 0., .4, 1., 1.1, g.u(0, 1)]), g.i(1, 4)
            self.refuse('damping', dict(theta=th, order=R(o)), lambda: gh.critical_damping_parameters(th, o))
        elif k == 8:
            o = g.choice([-1, -2, 0, 1, 3, 1.5, .5])
            self.refuse('transition', dict(order=o, int=o == int(o)), lambda: fc.kinematic_state_transition(o, .5))
        elif k == 9:
            n, o, m = g.choice([0, 1, 2]), g.choice([-1, 0, 1]), g.choice([0, 1, 1])
            self.refuse('kinematic', dict(dim=R(n), order=R(o), m=R(m)), lambda: fc.kinematic_kf(n, o, dim_z=m))
        elif k == 10:
            n = g.i(0, 6)
            self.refuse('noise', dict(dim=R(n)), lambda: g.choice([fc.Q_discrete_white_noise, fc.Q_continuous_white_noise])(n, .5))
        elif k == 11:
            a, b = g.i(2, 3), g.i(2, 3)
            X, P = np.zeros((a, 2)), np.array([np.eye(2)] * b)
            f = g.choice([lambda: fs_.mahalanobis(np.zeros(a), np.zeros(b), np.eye(a)), lambda: fk.rts_smoother(X, P, [np.eye(2)] * a, [np.eye(2)] * a)])
            self.refuse('same length', dict(p=R(a), q=R(b)), f)
        elif k == 12:
            a, b = g.i(1, 3), g.i(1, 3)
            S = np.eye(a, b) * 2.
            self.refuse('square', dict(p=R(a), q=R(b)), lambda: fc.inv_diagonal(S))
        else:
            a, b = g.coin(), g.coin()
            import matplotlib.pyplot as plt
            if g.coin():
                self.refuse('either', dict(p=a, q=b), lambda: fs_.plot_covariance((0, 0), cov=np.eye(2) if a else None, ellipse=(0., 2., 1.) if b else None))
            else:
                self.refuse('not both', dict(p=a, q=b), lambda: fs_.plot_gaussian_pdf(0., variance=2. if a else None, std=1.5 if b else None))
            plt.close('all')

    def ask_bad(self, i):
        """a call of filter i that may have to be refused"""
        g, R = self.g, Raw
        kind, f, n, m, hx = self.fs[i]
        k = g.i(0, 3)
        if kind in ('KF', 'KIN') and k == 0:
            v, sc = g.choice([(0., 1), (-1.5, 1), (.99, 1), (1, 1), (1.1, 1), (1.3, 0), (1., 0)])
            self.refuse('alpha', dict(alpha=v, scalar=bool(sc)), lambda: setattr(f, 'alpha', v if sc else g.choice([[v], np.array([v])])), i)
        elif kind in ('KF', 'KIN') and k == 1:
            self.dims(i)
        elif kind in ('KF', 'KIN', 'INFO') and k == 2 and np.ndim(f.x) == 2:
            q = g.choice([m, m, m + 1, m + 2] + ([m - 1] if m > 1 else []))
            z = g.vec(q)
            z = g.choice([z, list(z), z.reshape(-1, 1), z.reshape(1, -1)])
            self.refuse('measurement', dict(size=R(q), m=R(m)), lambda: f.update(z), i)
        elif kind in ('KF', 'KIN', 'UKF') and k == 3:
            a, b = g.i(2, 3), g.i(2, 3)
            X, P = np.zeros((a, n)), np.array([np.eye(n)] * b)
            self.refuse('same length', dict(p=R(a), q=R(b)), lambda: f.rts_smoother(X, P), i)
        elif kind == 'UKF':
            q = g.choice([n, n + 1, n + 2])
            self.refuse('measurement', dict(size=R(q), m=R(n)), lambda: f.points_fn.sigma_points(g.vec(q), np.eye(n)), i)
        elif kind == 'UKF' and k == 2:
            self.refuse('list', dict(list=False), lambda: f.batch_filter(g.u(0, 1)), i)
        else:
            self.bad()

    def dims(self, i):
        g = self.g
        kind, f, n, m, hx = self.fs[i]
        old = {k: getattr(f, k) for k in ('x', 'P', 'Q', 'F', 'H', 'R')}
        flat = g.coin()
        now = dict(x=g.vec(n) if flat else g.vec(n).reshape(-1, 1), P=np.eye(n), Q=np.eye(n), F=np.eye(n), H=np.eye(m, n), R=np.eye(m))
        if m == 1 and g.coin(.4):
            now['R'] = g.choice([2., np.array([2.])])
        z = g.choice([None, np.zeros(m) if flat else np.zeros((m, 1))] + ([1., np.zeros(1), np.zeros((1, 1))] if m == 1 else []))
        if g.coin(.6):               # one of them is wrong
            k = g.choice(['x', 'P', 'Q', 'F', 'H', 'H1', 'R', 'z'])
            if k == 'x':
                now['x'] = np.zeros(n + 1) if flat else np.zeros((n + 1, 1)) if g.coin() else np.zeros((n, 2))
            elif k == 'H':
                now['H'] = np.zeros((m, n + 1))
            elif k == 'H1':
                now['H'] = np.zeros(n)
            elif k == 'R':
                now['R'] = g.choice([np.eye(m + 1), np.zeros((m, m + 1))])
            elif k == 'z':
                z = np.zeros(m + 1) if flat else np.zeros((m + 1, 1))
            else:
                now[k] = g.choice([np.eye(n + 1), np.zeros((n, n + 1)), np.zeros(n)])
        kw = {}
        for k, v in now.items():
            if k in 'QFHR' and g.coin(.4):
                kw[k] = v
                if g.coin(.3):          # what is passed in counts, not what the filter has
                    setattr(f, k, np.eye(n + 2))
            else:
                setattr(f, k, v)
        if z is not None:
            kw['z'] = z
        self.t.add('start', {}, dict(w=self.look()), chk=False)
        _, e = guarded(lambda: f.test_matrix_dimensions(**kw))
        a = {k: shape(v) for k, v in now.items()}
        a.update(n=Raw(n), m=Raw(m), noz=z is None, z=[] if z is None else shape(z))
        self.t.add('dims', a, dict(raised=bool(e), w=self.look(), e=e[:80]))
        for k, v in old.items():
            setattr(f, k, v)
        self.t.add('start', {}, dict(w=self.look()), chk=False)


def case(t, g, depth):
    w = World(t, g)
    w.new()
    for _ in range(depth):
        if t.dead:
            return
        r = g.r.rand()
        if r < .3 and len(w.fs) < 6:
            w.new(g.choice([None, w.fs[g.i(0, len(w.fs) - 1)][0]]))
        elif r < .6:
            w.step(g.i(0, len(w.fs) - 1))
        elif r < .8:
            w.ask_bad(g.i(0, len(w.fs) - 1))
        else:
            w.bad()


def shapes(t, g, k):
    w = World(t, g)
    w.new(g.choice(['KF', 'KIN']))
    for _ in range(k):
        if not t.dead:
            w.dims(0)


def world(c):
    for i in range(c.n(40)):
        c.run('T_IN', 'shapes %d' % i, shapes, c.rng('shapes', i), 5)
    for i in range(c.n(150)):
        c.run('T_IN', 'world %d' % i, case, c.rng('world', i), c.n(14, 25))
