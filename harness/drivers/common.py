"""filterpy.common: process models, helpers, Saver (specs Common, T_CM)."""
import contextlib, io
import math
import numpy as np
import filterpy.common as fc
from filterpy.kalman import (KalmanFilter, FixedLagSmoother, ExtendedKalmanFilter, FadingKalmanFilter, SquareRootKalmanFilter, InformationFilter,
                             UnscentedKalmanFilter, CubatureKalmanFilter, MerweScaledSigmaPoints, EnsembleKalmanFilter,
                             IMMEstimator, MMAEFilterBank)
from filterpy.hinfinity import HInfinityFilter
from filterpy.gh import GHFilter, GHKFilter
from filterpy.leastsq import LeastSquaresFilter
from filterpy.memory import FadingMemoryFilter
from rec import M, V, shape, guarded, Raw, enc


# ------------------------------------------------------------------ process models
def dtval(g):
    return g.choice([1., 0.1, .5, 2., 1, 3, g.u(.01, 4), 1e-3, 60., g.u(.5, 9) * 1e-7, g.u(1, 9) * 1e-5, g.u(1, 99) * 1e3])


def noise_case(t, g):
    k = g.choice(['d', 'd', 'd', 'c', 'c', 'c', 'c', 'obd', 'vl', 'ode', 'ode', 'bad'])
    dt = dtval(g)
    if k in 'dc':
        dim, var, b, by = g.choice([2, 3, 4]), g.choice([1., g.u(.01, 5), 2, 1e-4]), g.choice([1, 1, 2, 3]), g.coin(.6)
        kw = {}
        if b > 1 or g.coin(.3):
            kw['block_size'] = b
        if not by:
            kw['order_by_dim'] = False
        f = fc.Q_discrete_white_noise if k == 'd' else fc.Q_continuous_white_noise
        if g.coin():
            kw['var' if k == 'd' else 'spectral_density'] = var
            call = lambda: f(dim, dt, **kw)
        else:
            call = lambda: f(dim, dt, var, **kw)
        for _ in range(g.choice([1, 2, 3])):      # asked again for another step, near or far
            t.pure('Q_discrete_white_noise' if k == 'd' else 'Q_continuous_white_noise', call, lambda r: dict(ret=M(r)),
                   dict(dim=Raw(dim), dt=dt, var=var, k=Raw(b), bydim=by))
            dt = g.choice([dt * g.u(.2, 1.5), dt * (1 + g.u(1, 9) * 1e-7), dt + g.u(1, 9) * 1e-8, dtval(g)])
    elif k == 'obd':
        d, b = g.i(1, 4), g.i(1, 3)
        Q = g.mat(d, d)
        Qa = Q.tolist() if g.coin(.3) else Q
        t.pure('order_by_derivative', lambda: fc.order_by_derivative(Qa, d, b), lambda r: dict(ret=M(r)), dict(Q=Q, k=Raw(b)))
    elif k == 'vl':
        n, m = g.i(1, 4), g.i(1, 3)
        dt = g.choice([.1, .01, .5, 1., 1, 2, 2.5, 1e-4])
        F, G = g.mat(n, n, .7), g.mat(n, m)
        if g.coin(.2):                        # whole numbers
            F, G = np.round(F).astype(int), np.round(G).astype(int)
        if g.coin(.4):                        # a chain of integrators driven at its end
            F, G = np.diag(np.ones(n - 1), 1), np.eye(n)[:, -1:] * g.u(.3, 3)
        b = [F.copy(), G.copy()]
        t.pure('van_loan_discretization', lambda: fc.van_loan_discretization(F, G, dt), lambda r: dict(phi=M(r[0]), Q=M(r[1])),
               dict(F=F, W=W(G, G.T), dt=dt))
        t.add('owned', dict(before=b), dict(after=[F, G]))
    elif k == 'ode':
        n = g.i(1, 4)
        dt = g.choice([.1, .01, .5, 1., 1, 2, 2.5, 1e-4])
        F, L, Q = g.mat(n, n, .7), g.mat(n, n), g.spd(n)
        if g.coin(.2):                        # whole numbers
            F, L, Q = np.round(F).astype(int), np.round(L).astype(int), np.round(Q).astype(int)
        kw = {}
        if g.coin(.7):
            kw['L'] = L
        if g.coin(.8):
            kw['Q'] = Q
        b = [F.copy(), L.copy(), Q.copy()]
        if dt != 1. or g.coin():
            kw['dt'] = dt
        Lq, Qq = kw.get('L', np.eye(n)), kw.get('Q', np.zeros((n, n)))
        t.pure('linear_ode_discretation', lambda: fc.linear_ode_discretation(F, **kw), lambda r: dict(phi=M(r[0]), Q=M(r[1])),
               dict(F=F, W=W(Lq, Qq, Lq.T), dt=dt))
        t.add('owned', dict(before=b), dict(after=[F, L, Q]))
    else:
        f = g.choice([fc.Q_discrete_white_noise, fc.Q_continuous_white_noise])
        d = g.choice([0, 1, 5, 7])
        _, x = guarded(lambda: f(d, dt))
        t.add('rejects', dict(dim=Raw(d)), dict(raised=x.startswith('ValueError')))


def W(*a):
    """an exact product, as a matrix of fractions for the trace"""
    from fractions import Fraction
    x = [[Fraction(float(v)) for v in r] for r in np.atleast_2d(a[0])]
    for b in a[1:]:
        y = [[Fraction(float(v)) for v in r] for r in np.atleast_2d(b)]
        x = [[sum(x[i][k] * y[k][j] for k in range(len(y))) for j in range(len(y[0]))] for i in range(len(x))]
    return [['#%d/%d' % (v.numerator, v.denominator) if v.denominator != 1 else '#%d' % v.numerator for v in r] for r in x]


def noise(c):
    for i in range(c.n(330)):
        c.run('T_CM', 'noise %d' % i, noise_case, c.rng('noise', i))


def kin_case(t, g):
    k = g.choice(['F', 'kf', 'kf', 'own', 'motion', 'bad'])
    dt = dtval(g)
    order = g.i(0, 6)
    if k == 'F':
        o = float(order) if g.coin(.1) and order < 3 else order
        t.pure('kinematic_state_transition', lambda: fc.kinematic_state_transition(o, dt), lambda r: dict(ret=M(r)), dict(order=Raw(order), dt=dt))
    elif k in ('kf', 'own'):
        order, dim, dz, by = g.i(0, 4), g.i(1, 3), g.choice([1, 1, 2, 3]), g.coin(.6)
        kw = dict(dim=dim, order=order, dt=dt, dim_z=dz)
        if not by or g.coin(.3):
            kw['order_by_dim'] = by
        own = None
        if k == 'own':
            own = kw['kf'] = KalmanFilter(dim * (order + 1), dz)
            own.F = g.mat(dim * (order + 1), dim * (order + 1))
            own.P, own.Q = own.P * 3., own.Q * 2.
        def look(kf):
            one, zero = enc(1.), enc(0.)
            return dict(F=M(kf.F), H=M(kf.H), P=M(kf.P), Q=M(kf.Q), R=M(kf.R), one=1., zero=0.)
        (t.pure if own is None else t.call)('kinematic_kf', lambda: fc.kinematic_kf(**kw), look,
               dict(order=Raw(order), dim=Raw(dim), dim_z=Raw(dz), dt=dt, bydim=by, own=own is not None))
    elif k == 'motion':
        order, dt = g.i(0, 4), g.choice([.5, .25, 1., 2.])
        c = g.vec(order + 1)
        F = fc.kinematic_state_transition(order, dt)
        x = np.array([c[i] * math.factorial(i) for i in range(order + 1)])
        n = g.i(1, 6)
        r, e = guarded(lambda: np.linalg.matrix_power(F, n) @ x)
        t.add('motion', dict(c=V(c), t=n * dt), dict(x=M(r)), e)
    else:
        f = g.choice([lambda: fc.kinematic_state_transition(-1, 1.), lambda: fc.kinematic_state_transition(1.5, 1.),
                      lambda: fc.kinematic_kf(0, 1), lambda: fc.kinematic_kf(1, -1), lambda: fc.kinematic_kf(1, 1, dim_z=0)])
        _, x = guarded(f)
        t.add('rejects', {}, dict(raised=x.startswith('ValueError')))


def kin(c):
    for i in range(c.n(260)):
        c.run('T_CM', 'kinematic %d' % i, kin_case, c.rng('kin', i))


# ------------------------------------------------------------------ filters of every kind, for helpers that take any filter
def anyfilter(g, kind=None):
    """(filter, step): step() predicts and updates it once"""
    kind = kind or g.choice(['KF', 'KF', 'EKF', 'FADING', 'SR', 'INFO', 'HINF', 'UKF', 'CKF', 'ENKF', 'IMM', 'MMAE', 'LAG', 'GH', 'GHK', 'LSQ', 'FM'])
    n, m = g.choice([1, 2, 3]), g.choice([1, 2])
    if kind in ('GH', 'GHK'):
        f = GHFilter(g.u(-1, 1), g.u(-1, 1), 1., .6, .2) if kind == 'GH' else GHKFilter(g.u(-1, 1), 0., 0., 1., .6, .2, .1)
        return kind, f, lambda: f.update(g.u(-2, 2))
    if kind == 'LSQ':
        f = LeastSquaresFilter(1., g.i(0, 2), .5)
        return kind, f, lambda: f.update(g.u(-2, 2))
    if kind == 'FM':
        o = g.i(0, 2)
        f = FadingMemoryFilter(np.zeros(o + 1), 1., o, .7)
        return kind, f, lambda: f.update(g.u(-2, 2))
    F, H, Q, R, P, x = g.F(n), g.H(m, n), g.spd(n, .5), g.spd(m), g.spd(n, 2.), g.vec(n)
    z = lambda: g.vec(m)
    if kind in ('UKF', 'CKF', 'ENKF'):
        hx, fx = (lambda x: H @ x), (lambda x, dt: F @ x)
        if kind == 'UKF':
            f = UnscentedKalmanFilter(n, m, 1., hx, fx, MerweScaledSigmaPoints(n, .5, 2., 1.))
        elif kind == 'CKF':
            f = CubatureKalmanFilter(n, m, 1., hx, fx)
        else:
            f = EnsembleKalmanFilter(x, P, m, 1., 12, hx, fx)
        if kind != 'ENKF':
            f.x, f.P = x, P
        f.Q, f.R = Q, R
        return kind, f, lambda: (f.predict(), f.update(z()))
    if kind in ('IMM', 'MMAE'):
        fs = []
        for i in range(2):
            k = KalmanFilter(n, m)
            k.x, k.P, k.F, k.H, k.Q, k.R = x.reshape(-1, 1).copy(), P.copy(), F, H, Q * (i + 1), R
            fs.append(k)
        f = IMMEstimator(fs, [.6, .4], np.array([[.9, .1], [.2, .8]])) if kind == 'IMM' else MMAEFilterBank(fs, [.5, .5], dim_x=n, H=H)
        return kind, f, lambda: (f.predict(), f.update(z().reshape(-1, 1)))
    if kind == 'LAG':
        f = FixedLagSmoother(n, m, N=3)
        f.x, f.P, f.F, f.Q, f.R, f.H = x.reshape(-1, 1), P, F, Q, R, H
        return kind, f, lambda: f.smooth(z().reshape(-1, 1))
    if kind == 'EKF':
        f = ExtendedKalmanFilter(n, m)
        f.x, f.P, f.F, f.Q, f.R = x, P, F, Q, R
        return kind, f, lambda: (f.predict(), f.update(z(), lambda x: H, lambda x: H @ x))
    f = dict(KF=lambda: KalmanFilter(n, m, 1), FADING=lambda: FadingKalmanFilter(1.1, n, m, 1), SR=lambda: SquareRootKalmanFilter(n, m, 1),
             INFO=lambda: InformationFilter(n, m, 1), HINF=lambda: HInfinityFilter(n, m, 1, .01))[kind]()
    f.x, f.F, f.H, f.Q = x.reshape(-1, 1), F, H, Q
    f.B = g.mat(n, 1)
    if kind == 'INFO':
        f.P_inv, f.R_inv = P, R
    else:
        f.P = P
    if kind == 'HINF':
        f.V, f.W, f.Q = R, Q, Q * .1
    elif kind != 'INFO':
        f.R = R
    return kind, f, lambda: (f.predict(), f.update(z().reshape(-1, 1)))


def props(o):
    return [k for k in dir(type(o)) if isinstance(getattr(type(o), k), property)]


def flat(v):
    """recorded form in which not-a-number equals itself"""
    v = enc(v)
    def go(x):
        if isinstance(x, list):
            return [go(q) for q in x]
        if isinstance(x, dict):
            return {k: go(q) for k, q in x.items()}
        return 'nan' if x == '#nan' else x
    return go(v)


def plain(v):
    if isinstance(v, np.ndarray) and v.dtype == object and v.ndim == 1:
        v = list(v)
    if isinstance(v, (list, tuple)) and len(v) and all(hasattr(x, '__dict__') and not callable(x) for x in v):
        return [look(x) for x in v]
    return flat(v)


def look(o, keep=None):
    """every attribute and property, and those of filters within"""
    ps = {k: guarded(lambda: getattr(o, k))[0] for k in props(o)}
    d = {k: ('?' + type(v).__name__ if callable(v) else plain(v)) for k, v in list(vars(o).items()) + list(ps.items())}
    return d


def savedview(s, keys, get):
    return {k: ['?' + type(v).__name__ if callable(v) else plain(v) for v in get(k)] for k in keys}


# ------------------------------------------------------------------ helpers
def helper_case(t, g):
    k = g.choice(['rk', 'rk', 'inv', 'outer', 'reshape', 'reshape', 'compare', 'copy', 'repr', 'repr', 'reject'])
    if k == 'rk':
        c = g.vec(5, .7)
        x, h = g.choice([g.u(-1, 1), g.u(-1, 1), 0, 2, g.u(-20, 20)]), g.choice([.1, .5, -.2, 1., 1, 0., 1e-3])
        y = g.vec(g.i(1, 3)) if g.coin(.3) else g.vec(1)
        f = lambda y, x: c[0] * y + c[1] * x + c[2] * x * y + c[3] + c[4] * y * y
        ya = float(y[0]) if len(y) == 1 else y
        b = V(np.array(y))
        t.pure('runge_kutta4', lambda: fc.runge_kutta4(ya, x, h, f), lambda r: dict(ret=V(r)), dict(y=b, x=x, h=h, c=V(c)))
        t.add('owned', dict(before=b), dict(after=V(y)))
    elif k == 'inv':
        n = g.i(1, 5)
        S = np.diag(g.choice([-1., 1.]) * g.r.uniform(.1, 5, n) * g.choice([1, 1e-8, 1e8]))
        Sa = S.tolist() if g.coin(.2) else S
        if g.coin(.15):
            S = np.round(S).astype(int) + np.eye(n, dtype=int) * 3 if abs(S).max() < 100 else S
            S = np.diag(np.diag(S))
            Sa = S
            if np.any(np.diag(S) == 0):
                return
        b = M(S).copy()
        t.pure('inv_diagonal', lambda: fc.inv_diagonal(Sa), lambda r: dict(ret=M(r)), dict(S=M(S)))
        t.add('owned', dict(before=b), dict(after=M(S)))
    elif k == 'outer':
        r, n, m = g.i(1, 6), g.i(1, 4), g.i(1, 4)
        A = g.mat(r, n)
        B = g.mat(r, m) if g.coin(.6) else None
        b = [A.copy(), M(B) if B is None else B.copy()]
        t.pure('outer_product_sum', lambda: fc.outer_product_sum(A) if B is None else fc.outer_product_sum(A, B),
               lambda r: dict(ret=M(r)), dict(A=A, B=A if B is None else B))
        t.add('owned', dict(before=[A.copy()] if B is None else b), dict(after=[A] if B is None else [A, B]))
    elif k == 'reshape':
        m = g.i(1, 4)
        v = g.vec(m)
        nd = g.choice([1, 2] + ([0] if m == 1 else []))
        z = g.choice([v, list(v), v.reshape(-1, 1), v.reshape(1, -1), v.reshape(-1, 1).tolist()] + ([float(v[0]), np.float64(v[0])] if m == 1 else []))
        t.call('reshape_z', lambda: fc.reshape_z(z, m, nd), lambda r: dict(ret=V(r), shape=shape(r)),
               dict(z=V(v), shape=[[], [Raw(m)], [Raw(m), Raw(1)]][nd]))
    elif k == 'compare':
        kind = g.choice(['KF', 'EKF', 'FADING', 'SR', 'HINF'])
        s = g.i(0, 10 ** 9)
        from rec import Rng
        (_, a, sa), (_, b, sb) = anyfilter(Rng(s), kind), anyfilter(Rng(s), kind)
        for _ in range(g.i(0, 2)):
            sa(), sb()
        names = [q for q in vars(a) if q[0] != '_' and isinstance(getattr(a, q), np.ndarray) and getattr(a, q).dtype == float]
        diff = sorted(g.p.sample(names, g.choice([0, 0, 1, 2])))
        for q in diff:
            v = getattr(b, q).copy()
            v.flat[g.i(0, v.size - 1)] += g.choice([.5, -2.])
            setattr(b, q, v)
        kw = {}
        near = g.choice([0, 0, 0, 1, 2])
        if near == 1:               # differences within the tolerance asked for are none
            kw, diff = dict(atol=g.choice([2.5, 4.]), rtol=0), []
        if near == 2:               # nor are those of rounding
            for q in set(names) - set(diff):
                setattr(b, q, getattr(b, q) * (1 + 1e-13))
        if g.coin(.2):              # only what both have counts
            setattr(g.choice([a, b]), 'extra_', np.ones(2))
        log = g.coin(.3)
        b0, a0 = look(b), look(a)

        def compare():
            with contextlib.redirect_stdout(io.StringIO()) as out:
                r = fc.compare_kf(a, b, **kw) if log else fc.compare_kf(a, b, log=False, **kw)
            return r, out.getvalue()
        t.call('compare_kf', compare,
               lambda r: dict(ret=None if r[0] is None else sorted(r[0]), same=look(a) == a0 and look(b) == b0,
                              said=bool(r[1]), all=all(q in r[1] for q in diff) if log else True), dict(different=diff or None, said=log and bool(diff)))
    elif k == 'copy':
        kind = g.choice(['KF', 'EKF', 'FADING', 'SR', 'INFO', 'HINF', 'IMM', 'MMAE', 'LAG', 'LAG', 'ENKF', 'LSQ', 'FM', 'GH'])
        from rec import Rng
        s1 = g.i(0, 10 ** 9)
        kinds = [anyfilter(Rng(s1), kind), anyfilter(Rng(s1), kind)]
        src, dst = kinds[0][1], kinds[1][1]
        for _ in range(g.i(0, 3)):
            kinds[0][2]()
        for _ in range(g.i(0, 2)):
            kinds[1][2]()
        before = look(src)
        fns = {q: v for q, v in look(dst).items() if callable(getattr(dst, q, None))}

        def after(_):
            d = look(dst)
            # writing into the source afterwards does not reach the copy
            def write(v):
                if isinstance(v, np.ndarray) and v.dtype == float and v.flags.writeable:
                    v += 1.
                elif isinstance(v, (list, tuple)):
                    for w in v:
                        write(w)
                elif hasattr(v, '__dict__') and not callable(v):
                    for w in vars(v).values():
                        write(w)
            write(src)
            return dict(dst=d, separate=look(dst) == d)
        t.call('copy_states', lambda: fc.copy_states(dst, src), after, dict(expect=dict(before, **fns)))
    elif k == 'repr':
        kind, f, step = anyfilter(g)
        for _ in range(g.i(0, 2)):
            step()
        b = look(f)
        t.call('repr', lambda: repr(f), lambda r: dict(same=look(f) == b, mentions=isinstance(r, str) and 'object' in r and 'x' in r), {})
    else:
        f = g.choice([lambda: fc.reshape_z([1., 2], 3, 1), lambda: fc.reshape_z(np.eye(2), 2, 2), lambda: fc.reshape_z([1., 2, 3], 1, 1),
                      lambda: fc.inv_diagonal([1., 2]), lambda: fc.inv_diagonal(np.ones((2, 3)))])
        _, x = guarded(f)
        t.add('rejects', {}, dict(raised=x.startswith('ValueError')))


def helpers(c):
    for i in range(c.n(420)):
        c.run('T_CM', 'helper %d' % i, helper_case, c.rng('helpers', i))


# ------------------------------------------------------------------ Saver
class Thing:
    """any object with attributes"""
    def __init__(self, g):
        self.x = g.vec(2)
        self.P = g.spd(2)
        self.n = g.i(0, 9)
        self.label = 'start'
        self.none = None
        self.nested = [[1., 2.], {'a': g.vec(1)}]
        self._hidden = g.vec(2)
        self.fn = np.linalg.inv
        self._fn = abs

    @property
    def twice(self):
        return self.x * 2

    @property
    def inner(self):
        return self._hidden


def mutate(o, g):
    for _ in range(g.i(0, 4)):
        k = g.i(0, 8)
        if k == 0:
            o.x = g.vec(2)
        elif k == 1:
            o.x[g.i(0, 1)] += 1.5
        elif k == 2:
            o.P *= 2.
        elif k == 3:
            o.n += 1
        elif k == 4:
            o.label = 'step %d' % g.i(0, 99)
        elif k == 5:
            o._hidden[0] -= .25
        elif k == 6:
            o.nested[0][0] += 1.
        elif k == 7:
            o.nested[1]['a'][0] *= -2.
        else:
            o.none = g.choice([None, g.u(0, 1)])


def saver_case(t, g):
    if g.coin(.45):
        o = Thing(g)
        step = lambda: mutate(o, g)
    else:
        kind, o, step = anyfilter(g)
    keys = sorted(set(vars(o)) | set(props(o)))
    conf = dict(private=g.coin(.3), callable=g.coin(.3), ignore=sorted(g.p.sample(keys, g.i(0, 2))) if g.coin(.4) else [])
    kw = {}
    if conf['private'] or g.coin(.2):
        kw['skip_private'] = conf['private']
    if conf['callable'] or g.coin(.2):
        kw['skip_callable'] = conf['callable']
    if conf['ignore']:
        kw['ignore'] = g.choice([tuple, list])(conf['ignore'])
    now = g.coin(.3)
    if now:
        kw['save_current'] = True

    def con():
        pr = set(props(o))
        return dict(conf, priv=[k for k in vars(o) if k[0] == '_'], calls=[k for k, v in vars(o).items() if callable(v)])

    def view(s):
        ks = sorted(s.keys)
        return dict(saved=savedview(s, ks, lambda k: s[k]), dot=savedview(s, ks, lambda k: getattr(s, k)),
                    n=Raw(len(s)), keys=ks, obj=look(o))
    if g.coin(.5):
        step()
    s = t.call('saver.new', lambda: fc.Saver(o, **kw), view, dict(conf=con(), obj=look(o), now=now))
    if s is None:
        return
    for i in range(g.choice([g.i(1, 5), g.i(1, 5), g.i(1, 5), g.i(6, 14)])):
        step()
        if g.coin(.3):
            t.call('saver.look', lambda: s, view, dict(obj=look(o)))
        t.call('saver.save', s.save, lambda r: view(s), dict(obj=look(o)))
        if g.coin(.1):
            t.call('saver.save', s.save, lambda r: view(s), dict(obj=look(o)))
        if g.coin(.12):
            k, v = g.choice(['mine'] + [q for q in sorted(s.keys) if not any(isinstance(v, (bool, str)) for v in s[q])]), [g.u(-2, 2) for _ in range(g.i(0, 3))]
            t.call('saver.replace', lambda: s.__setitem__(k, list(v)), lambda r: view(s), dict(obj=look(o), key=k, val=v))
    step()
    t.call('saver.look', lambda: s, view, dict(obj=look(o)))
    if g.coin(.5):
        ragged = any(guarded(lambda: np.array(s[k]))[1] for k in s.keys)
        _, x = guarded(s.to_array)
        if not ragged and not x:
            ks = sorted(s.keys)
            arrays = all(isinstance(getattr(s, k), np.ndarray) for k in ks)
            t.add('saver.to_array', dict(ragged=False, obj=look(o)), dict(view(s), raised=False, arrays=arrays))
            num = [k for k in ks if getattr(s, k).dtype.kind == 'f']
            a = dict(sh={k: shape(getattr(s, k)) for k in num}, vals={k: flat(V(getattr(s, k))) for k in num})
            t.call('saver.flatten', lambda: s.flatten() if g.coin() else s.to_array(flatten=True),
                   lambda r: dict(sh={k: shape(getattr(s, k)) for k in num}, vals={k: flat(V(getattr(s, k))) for k in num}), a)
            step()                                    # arrays or not, saving goes on
            t.call('saver.save', s.save, lambda r: view(s), dict(obj=look(o)))
        else:
            t.add('saver.to_array', dict(ragged=ragged, obj=look(o)), dict(view(s), raised=x.startswith('ValueError')),
                  '' if x.startswith('ValueError') else x)


def saver(c):
    for i in range(c.n(260)):
        c.run('T_CM', 'saver %d' % i, saver_case, c.rng('saver', i))
