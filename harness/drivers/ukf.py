"""sigma points, unscented transform, UKF and CKF (specs Sigma, T_UKF)."""
import numpy as np, scipy.linalg
from filterpy.kalman import (UnscentedKalmanFilter, CubatureKalmanFilter, MerweScaledSigmaPoints, JulierSigmaPoints,
                             SimplexSigmaPoints, unscented_transform)
from filterpy.kalman import CubatureKalmanFilter as _ckf
from filterpy.common import Saver
from rec import Units, units, fn, Inv, ivof, M, V, guarded, Raw, assign, twin
import sys
CK = sys.modules['filterpy.kalman.CubatureKalmanFilter']


def wrapv(v):
    v = np.array(v, float)
    v[0] = (v[0] + 2.) % 4. - 2.
    return v


def sub(a, b):
    return wrapv(np.asarray(a) - b)


def sub_c(a, b):                    # also for stacks of columns
    return wrapv(np.asarray(a) - b)


def add(a, b):
    return wrapv(np.asarray(a) + b)


def mean(S, W):
    return add(S[0], sum(w * sub(s, S[0]) for w, s in zip(W, S)))


def rule(g, n):
    k = g.choice(['merwe', 'merwe', 'julier', 'simplex'])
    if k == 'merwe':
        a = g.choice([1., .5, .1, .03, g.u(.2, 1.2)])
        return dict(rule=k, alpha=a, beta=g.choice([2., 0., g.u(0, 3)]), kappa=g.choice([0., 3. - n, 1., g.u(0, 2)]) if n < 4 else 0.)
    return dict(rule=k, alpha=1, beta=0, kappa=g.choice([0., 3. - n, 1., g.u(0, 2)]) if k == 'julier' else 1)


def make(p, n, **kw):
    if p['rule'] == 'merwe':
        return MerweScaledSigmaPoints(n, p['alpha'], p['beta'], p['kappa'], **kw)
    if p['rule'] == 'julier':
        return JulierSigmaPoints(n, p['kappa'], **kw)
    return SimplexSigmaPoints(n, **kw)


def points_case(t, g):
    n = g.dim([1, 2, 3, 4], (5, 9))
    p = rule(g, n)
    w = g.coin(.3) and p['rule'] != 'simplex'
    kw = {'subtract': sub} if w else {}
    chol = g.coin(.7)
    if not chol:
        kw['sqrt_method'] = lambda A: np.real(scipy.linalg.sqrtm(A))
    pts = make(p, n, **kw)
    t.call('weights', lambda: pts, lambda r: dict(Wm=V(r.Wm), Wc=V(r.Wc), num=Raw(r.num_sigmas())), dict(pts=p, n=Raw(n)))
    for _ in range(g.i(1, 3)):
        x, P = wrapv(g.vec(n, 1.)) if w else g.vec(n, 1.), g.spd(n, g.choice([.05, .2]) * (1 if n < 4 else .1) if w else g.choice([.01, 1., 100.]))
        xa, Pa = x, P
        if n == 1 and g.coin(.5) and not w:
            xa = float(x[0])
        elif g.coin(.3):
            xa = list(x)
        if g.coin(.25):
            s = g.u(.1, 3) if not w else g.u(.1, .2) / max(1, n - 3)
            P, Pa = np.eye(n) * s, s
        b = [M(xa).copy(), M(Pa).copy()]
        t.pure('sigma_points', lambda: pts.sigma_points(xa, Pa), lambda r: dict(ret=np.asarray(r)),
               dict(pts=p, x=M(x), P=P, w=w, chol=chol))
        t.add('owned', dict(before=b), dict(after=[M(xa), M(Pa)]))


def ut_case(t, g):
    n, k = g.dim([1, 2, 3, 4], (5, 9)), g.dim(range(1, 10), (10, 25))
    S = g.mat(k, n, 1.)
    w = g.coin(.4)
    if w:
        S = S * .61803398875            # no difference lies on the edge where angles wrap
    Wm = np.abs(g.vec(k)) + .1
    Wm = Wm / Wm.sum() if g.coin(.7) else Wm
    Wc = g.vec(k) if g.coin(.3) else Wm.copy()
    noise = g.spd(n) if g.coin(.6) else None
    kw = {}
    if w:
        kw = dict(mean_fn=mean, residual_fn=sub)
    elif g.coin(.3):
        kw = dict(residual_fn=np.subtract)
    a = dict(S=S, Wm=V(Wm), Wc=V(Wc), noise=noise, w=w)
    b = [S.copy(), M(Wm), M(Wc), M(noise)]
    args = (noise,) if noise is not None or g.coin() else ()
    t.pure('ut', lambda: unscented_transform(S, Wm, Wc, *args, **kw), lambda r: dict(ret=[M(r[0]), r[1]]), a)
    t.add('owned', dict(before=[x for x in b if x is not None]), dict(after=[x for x in (S, M(Wm), M(Wc), M(noise)) if x is not None]))


def ckf_fn_case(t, g):
    n, m = g.dim([1, 2, 3, 4], (5, 9)), g.dim([1, 2, 3], (4, 9))
    x, P = g.vec(n, 2.), g.spd(n)
    p = dict(rule='cubature', alpha=1, beta=0, kappa=0)
    t.pure('sigma_points', lambda: CK.spherical_radial_sigmas(x.reshape(-1, 1) if g.coin() else x, P),
           lambda r: dict(ret=np.asarray(r)), dict(pts=p, x=M(x), P=P, w=False, chol=True))
    k = 2 * m
    S, Q = g.mat(k, m, 2.), g.spd(m)
    W = np.full(k, 1. / k)
    w = g.coin(.4)
    kw = dict(mean_fn=mean, residual_fn=sub) if w else {}
    t.pure('ut', lambda: CK.ckf_transform(S, Q, **kw), lambda r: dict(ret=[M(r[0]), r[1]]),
           dict(S=S, Wm=V(W), Wc=V(W), noise=Q, w=w))


def points(c):
    for i in range(c.n(170)):
        c.run('T_UKF', 'points %d' % i, points_case, c.rng('points', i))
    for i in range(c.n(90)):
        c.run('T_UKF', 'transform %d' % i, ut_case, c.rng('ut', i))
    for i in range(c.n(60)):
        c.run('T_UKF', 'cubature points %d' % i, ckf_fn_case, c.rng('ckfn', i))


class Case:
    def __init__(self, t, g, kind, n=None, m=None, nl=True):
        self.t, self.g, self.kind = t, g, kind
        n = self.n = n or g.dim([1, 2, 2, 3], (4, 7))
        m = self.m = m or g.dim([1, 1, 2], (3, 5))
        self.wx = wx = g.coin(.25)
        self.wz = wz = g.coin(.3)
        self.F, self.G = g.F(n), g.mat(n, n, .05) * nl
        self.H, self.Gh = g.H(m, n), g.mat(m, n, .05) * nl
        self.s = .08 if wx or wz else 1.
        g.ints = not wx and not wz and g.coin(.12)
        self.dt = g.choice([1., .1, .5, 2., 1, 2, .01])
        self.p = rule(g, n) if kind == 'UKF' else dict(rule='cubature', alpha=1, beta=0, kappa=0)
        if wx and self.p['rule'] == 'simplex':
            self.p = dict(rule='julier', alpha=1, beta=0, kappa=1.)
        W = lambda v, w: wrapv(v) if w else v
        F, G, H, Gh = self.F, self.G, self.H, self.Gh
        self.fx = lambda x, dt, g=1.: W(F @ x + dt * g * (G @ x ** 2), wx)
        self.hx = lambda x, c=1.: W(H @ x + c * (Gh @ x ** 2), wz)
        kw = {}
        u = units(g)
        v = lambda what, f: f if u == (1., 1.) else fn(what, f, *u)
        if wx:
            kw.update(x_mean_fn=v('meanx', mean), residual_x=v('resx', sub))
            if kind == 'UKF':
                kw['state_add'] = v('addx', add)
        if wz:
            kw.update(z_mean_fn=v('meanz', mean), residual_z=v('res', sub))
        if kind == 'UKF':
            pts = make(self.p, n, **({'subtract': v('resx', sub)} if wx else {}))
            f = UnscentedKalmanFilter(n, m, self.dt, v('hx', self.hx), v('fx', self.fx), pts, **kw)
        else:
            f = CubatureKalmanFilter(n, m, self.dt, v('hx', self.hx), v('fx', self.fx), **kw)
        if u != (1., 1.):
            f = Units(f, kind, *u)
        self.f = f
        if u == (1., 1.) and kind == 'UKF' and g.coin(.12):
            f.inv = Inv(g.u(.1, 1.) * self.s)
        f.x, f.P = self.xval(), g.spd(n, self.s)
        f.Q, f.R = self.qval(), g.spd(m, self.s)
        t.call('new', lambda: None, lambda r: self.obs(), chk=True)

    def qval(self):
        return np.zeros((self.n, self.n)) if self.g.coin(.15) else self.g.spd(self.n, .3 * self.s)

    def xval(self):
        v = self.g.vec(self.n, 1.5)
        if self.wx:
            v = wrapv(v)
        if self.kind == 'CKF' and self.g.coin():
            return v.reshape(-1, 1)
        return v

    def obs(self, ret=None):
        f = self.f
        o = dict(kind=self.kind, x=M(f.x), P=M(f.P), Q=M(f.Q), R=M(f.R), xp=M(f.x_prior), Pp=M(f.P_prior), xo=M(f.x_post),
                 Po=M(f.P_post), y=M(f.y), S=M(f.S), SI=M(f.SI), K=M(f.K), z=M(f.z), sf=M(f.sigmas_f), sh=M(f.sigmas_h),
                 ll=guarded(lambda: f.log_likelihood)[0], lik=guarded(lambda: f.likelihood)[0],
                 mah=guarded(lambda: f.mahalanobis)[0], F=self.F, G=self.G, H=self.H, Gh=self.Gh, dt=self.dt, wx=self.wx,
                 wz=self.wz, pts=self.p, iv=ivof(f) if self.kind == 'UKF' else 0.)
        if ret is not None:
            o['ret'] = ret
        return o

    def call(self, ev, fn, a, ret=None):
        self.t.call(ev, fn, lambda r: self.obs(ret(r) if ret else None), a)

    def perfect(self):
        """a measurement without noise is possible"""
        if self.m > 1 or self.wx or self.wz:
            return False
        h = np.array([float(np.ravel(self.hx(s))[0]) for s in self.f.sigmas_f])
        w = self.f.Wc if self.kind == 'UKF' else np.full(len(h), 1. / len(h))
        v = self.f.Wm if self.kind == 'UKF' else w
        return np.dot(w, (h - np.dot(v, h)) ** 2) > .05

    def zval(self, m=None):
        m = m or self.m
        v = self.g.vec(m, 1.) * (1. if self.wz else self.g.far(.05, 12.))
        k = self.g.i(0, 2)
        if m == 1 and k == 0 and (not self.wz or self.kind == 'CKF'):
            return float(v[0])
        if k == 1:
            return list(v)
        if self.kind == 'CKF' and k == 2 and self.g.coin():
            return v.reshape(-1, 1)
        return v

    def ut2(self, S, Wm, Wc, noise=None, mean_fn=None, residual_fn=None):
        return unscented_transform(S, Wm, Wc, 2 * noise, mean_fn, residual_fn)

    def copied(self):
        def go():
            self.f = twin(self.f, self.g)
        self.t.call('copied', go, lambda r: self.obs(), chk=True)

    def do(self, op):
        name, _, var = op.partition(':')
        f, g, n, m, k = self.f, self.g, self.n, self.m, self.kind
        if name == 'predict':
            a, kw = dict(dt=None, g=1, ut=1), {}
            if var == 'dt':
                kw['dt'] = a['dt'] = g.uz(.05, 1.5)
            if var == 'args':
                a['g'] = q = g.uz(-2, 2)
                if k == 'UKF':
                    kw['g'] = q
                else:
                    kw['fx_args'] = g.choice([(q,), q])
            if var == 'fx':
                a['g'] = 2
                kw['fx'] = lambda x, dt: self.fx(x, dt, 2.)
            if var == 'ut':
                kw['UT'], a['ut'] = self.ut2, 2
            if var == 'mix':                # several of them in one call
                kw['dt'] = a['dt'] = g.u(.05, 1.5)
                a['g'] = q = g.u(-2, 2)
                if k == 'CKF':
                    kw['fx_args'] = (q,)
                else:
                    if g.coin():
                        kw['fx'], a['g'] = lambda x, dt, e, h=0.: self.fx(x, dt, e + h), q + .5
                        kw.update(e=q, h=.5)
                    else:
                        kw['g'] = q
                    if g.coin():
                        kw['UT'], a['ut'] = self.ut2, 2
            return self.call('predict', lambda: f.predict(**kw), a)
        if name == 'update':
            z, kw = None if var == 'none' else self.zval(), {}
            a = dict(z=M(z), R=None, c=1, H=None, Gh=None, ut=1)
            if var == 'R':
                kw['R'] = a['R'] = g.spd(m, self.s)
            if var == 'r':
                kw['R'] = a['R'] = g.uz(.3, 2, self.perfect())
            if var == 'args':
                a['c'] = q = g.uz(-2, 2)
                if k == 'UKF':
                    kw['c'] = q
                else:
                    kw['hx_args'] = g.choice([(q,), q])
            if var == 'ut':
                kw['UT'], a['ut'] = self.ut2, 2
            if var == 'mix':
                kw['R'] = a['R'] = g.choice([g.spd(m, self.s), g.u(.3, 2)])
                a['c'] = q = g.u(-2, 2)
                if k == 'CKF':
                    kw['hx_args'] = (q,)
                else:
                    if g.coin():
                        kw['hx'], a['c'] = lambda x, e, h=0.: self.hx(x, e - h), q - .5
                        kw.update(e=q, h=.5)
                    else:
                        kw['c'] = q
                    if g.coin():
                        kw['UT'], a['ut'] = self.ut2, 2
            if var == 'sensor':
                mm = g.i(1, 3)
                H, Gh, w = g.H(mm, n), g.mat(mm, n, .05), self.wz
                kw['hx'] = lambda x: wrapv(H @ x + Gh @ x ** 2) if w else H @ x + Gh @ x ** 2
                kw['R'] = a['R'] = g.spd(mm, self.s)
                z = g.vec(mm)
                a.update(z=M(z), H=H, Gh=Gh)
            self.call('update', lambda: f.update(z, **kw), a)
            if var == 'r' and a['R'] == 0:     # P is singular now
                self.do('set:P')
            return
        if name == 'batch':
            K = g.choice([g.i(1, 4)] * 6 + [g.i(5, 12)])
            zs = [None if g.coin(.2) else g.vec(m) for _ in range(K)]
            if m == 1 and not self.wz and g.coin(.4):
                zs = [None if z is None else float(z[0]) for z in zs]
            za = np.array(zs) if all(z is not None for z in zs) and g.coin() else tuple(zs) if g.coin(.2) else zs
            kw, a = {}, dict(zs=[M(z) for z in zs], Rs=None, dts=None, ut=1)
            if g.coin(.4):
                kw['Rs'] = a['Rs'] = [g.choice([None, g.spd(m, self.s), g.u(.3, 2)]) for _ in zs]
                if g.coin(.3):
                    kw['Rs'] = np.array([g.spd(m, self.s) for _ in zs])
                    a['Rs'] = list(kw['Rs'])
            if g.coin(.4):
                kw['dts'] = a['dts'] = [g.uz(.1, 1.) for _ in zs]
                if g.coin(.3):
                    kw['dts'] = np.array(a['dts'])
                if g.coin(.3):                  # documented: one dt for all
                    kw['dts'] = g.uz(.1, 1.)
                    a['dts'] = [kw['dts']] * K
            if g.coin(.2):
                kw['UT'], a['ut'] = self.ut2, 2
            sv = None
            if g.coin(.4) and not isinstance(f, Units):
                sv = kw['saver'] = Saver(f)

            def look(r):
                o = self.obs(dict(m=[M(x) for x in r[0]], c=list(r[1])))
                if sv is not None:
                    o['saved'] = [M(x) for x in sv.x]
                return o
            return self.t.call('batch', lambda: f.batch_filter(za, **kw), look, a)
        if name == 'set':
            v = dict(x=self.xval, P=lambda: g.spd(n, self.s), Q=self.qval, R=lambda: g.spd(m, self.s))[var]()
            inplace = g.coin(.3)
            return self.t.call('set', lambda: assign(f, var, v, inplace), lambda r: self.obs(), {var: M(v)}, chk=True)
        raise KeyError(op)


def sane(P):
    return np.all(np.isfinite(P)) and np.linalg.eigvalsh((P + P.T) / 2)[0] > 1e-4 and abs(P).max() < 1e4


def life(c, kind, hs, key=None, scope=None, copies=0):
    key = key or kind
    for i, h in enumerate(hs):
        def go(t):
            t.scope = scope
            k = Case(t, c.rng(key, i), kind)
            for op in h:
                if not sane(M(k.f.P)) or abs(M(k.f.x)).max() > 50:
                    return
                if copies and k.g.coin(copies):
                    k.copied()
                k.do(op)
        c.run('T_UKF', '%s %d: %s' % (key, i, ' '.join(h)), go)


def copies(c):
    for kind in ('UKF', 'CKF'):
        life(c, kind, c.hist(kind, 2, sample=c.n(30, 100), sim=(c.n(40), c.n(6, 10))), key='copies ' + kind, copies=.5)


def rts_case(t, g):
    k = Case(t, g, 'UKF')
    f, n = k.f, k.n
    N = g.i(1, 5)
    X = np.array([wrapv(g.vec(n, 1.5)) if k.wx else g.vec(n, 1.) for _ in range(N)], float)
    P = np.array([g.spd(n, k.s) for _ in range(N)], float)
    kw, a = {}, dict(X=[M(x) for x in X], P=list(P), ut=1)
    Qs, dts = [f.Q] * N, [k.dt] * N
    if g.coin():
        Qs = [g.spd(n, .3 * k.s) for _ in range(N)]
        kw['Qs'] = np.array(Qs) if g.coin() else Qs
    if g.coin():
        dts = [g.u(.1, 1.) for _ in range(N)]
        kw['dts'] = np.array(dts) if g.coin() else dts
    elif g.coin(.3):
        kw['dts'] = .3
        dts = [.3] * N
    if g.coin(.2):
        kw['UT'], a['ut'] = k.ut2, 2
    a.update(Qs=[np.array(q) for q in Qs], dts=dts)
    b = [X.copy(), P.copy()]
    t.call('rts', lambda: f.rts_smoother(X, P, **kw), lambda r: dict(ret=dict(x=[M(x) for x in r[0]], P=list(r[1]), K=list(r[2]))), a)
    t.add('owned', dict(before=b), dict(after=[X, P]))


def cross_case(t, g):
    k = Case(t, g, 'UKF')
    N = k.f.points_fn.num_sigmas()
    S, T, x, z = g.mat(N, k.n), g.mat(N, k.m), g.vec(k.n), g.vec(k.m)
    t.call('cross_variance', lambda: k.f.cross_variance(x, z, S, T), lambda r: dict(ret=r), dict(S=S, T=T, x=M(x), z=M(z)))


def ukf(c):
    life(c, 'UKF', c.hist('UKF', 2, sim=(c.n(150), c.n(7, 12))) + c.turns('UKF', 12))
    for i in range(c.n(20)):
        c.run('T_UKF', 'cross %d' % i, cross_case, c.rng('cross', i))


def ckf(c):
    life(c, 'CKF', c.hist('CKF', 2, sim=(c.n(150), c.n(7, 12))) + c.turns('CKF', 12))


def rts(c):
    for i in range(c.n(100)):
        c.run('T_UKF', 'unscented rts %d' % i, rts_case, c.rng('urts', i))


def batch(c):
    life(c, 'UKF', [['batch'], ['batch', 'batch'], ['predict', 'update', 'batch']] * c.n(15), key='UKF batch')


def missing(c):
    for kind in ('UKF', 'CKF'):
        g = c.rng('mh', kind)
        hs = [['predict'] + [g.choice(['predict', 'update', 'update', 'update:none', 'update:none', 'update:none'])
                             for _ in range(g.i(1, 6))] for _ in range(c.n(40))]
        life(c, kind, hs, key='missing ' + kind)
