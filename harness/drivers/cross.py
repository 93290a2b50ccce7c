"""laws across filters: equivalence on linear models, likelihoods, covariances over long lives (specs KF, T_XF)"""
import numpy as np, scipy.linalg
import filterpy.kalman as fk
from filterpy.kalman import (KalmanFilter, ExtendedKalmanFilter, FadingKalmanFilter, SquareRootKalmanFilter, InformationFilter,
                             UnscentedKalmanFilter, CubatureKalmanFilter, MerweScaledSigmaPoints, JulierSigmaPoints,
                             SimplexSigmaPoints, IMMEstimator, MMAEFilterBank, FixedLagSmoother)
from filterpy.hinfinity import HInfinityFilter
from rec import M, V, guarded, Raw

C = lambda v: np.array(v, float).reshape(-1, 1)


class Peer:
    """a filter and how to drive it with F, Q, B, u and z, H, R"""
    def __init__(self, name, x, P, n, m, nu, g):
        self.name, self.n, self.m = name, n, m
        k = name.split(':')[0]
        self.k, self.g = k, g
        mk = lambda c, *a, **kw: c(n, m, nu, *a, **kw)
        if k in ('KF', 'KF1', 'SEQ', 'CORR', 'ALPHA'):
            f = KalmanFilter(n, m, nu)
        elif k == 'EKF':
            f = ExtendedKalmanFilter(n, m, nu)
        elif k == 'FADING':
            f = FadingKalmanFilter(1., n, m, nu)
        elif k == 'SR':
            f = SquareRootKalmanFilter(n, m, nu)
        elif k == 'INFO':
            f = InformationFilter(n, m, nu)
        elif k in ('UKF', 'CKF'):
            self.Fu, self.H = None, None
            fx = lambda x, dt: self.F @ x + self.bu
            hx = lambda x: self.H @ x
            if k == 'CKF':
                f = CubatureKalmanFilter(n, m, 1., hx, fx)
            else:
                rule = name.split(':')[1]
                kw = {}
                if g.coin(.3):
                    kw['sqrt_method'] = lambda A: np.real(scipy.linalg.sqrtm(A))
                pts = dict(merwe=lambda: MerweScaledSigmaPoints(n, g.choice([1., .5, .1]), 2., g.choice([0., 1.]), **kw),
                           julier=lambda: JulierSigmaPoints(n, g.choice([0., 1., 3. - n if n < 3 else 1.]), **kw),
                           simplex=lambda: SimplexSigmaPoints(n, **kw))[rule]()
                f = UnscentedKalmanFilter(n, m, 1., hx, fx, pts)
        elif k in ('IMM', 'MMAE'):
            fs = [KalmanFilter(n, m, nu) for _ in range(g.choice([2, 3]))]
            for q in fs:
                q.x, q.P = C(x), P.copy()
            w = np.full(len(fs), 1. / len(fs))
            f = IMMEstimator(fs, w, np.full((len(fs), len(fs)), 1. / len(fs))) if k == 'IMM' else \
                MMAEFilterBank(fs, w, dim_x=n)
        elif k == 'PROC':
            self.x, self.P = C(x), P.copy()
            self.f = self
            return
        self.f = f
        if k in ('IMM', 'MMAE'):
            return
        f.x = x.copy() if k in ('UKF', 'KF1', 'EKF') else C(x)
        if k == 'INFO':
            f.P_inv = np.linalg.inv(P)
        else:
            f.P = P.copy()

    def predict(self, F, Q, B, u):
        f, k = self.f, self.k
        uu = None if u is None else (u if k in ('KF1', 'EKF') else C(u))
        if k == 'PROC':
            self.x, self.P = fk.predict(self.x, self.P, F, Q, **({} if u is None else dict(u=uu, B=B)))
        elif k in ('UKF', 'CKF'):
            self.F, self.bu = F, (B @ u if u is not None else 0.)
            f.Q = Q
            f.predict()
        elif k in ('IMM', 'MMAE'):
            for q in f.filters:
                q.F, q.Q, q.B = F, Q, B
            f.predict(uu) if u is not None else f.predict()
        else:
            f.F, f.Q, f.B = F, Q, B
            f.predict(uu) if u is not None else f.predict()

    def update(self, z, H, R):
        f, k = self.f, self.k
        zz = None if z is None else (z if k in ('KF1', 'EKF', 'UKF') else C(z))
        if k == 'PROC':
            self.x, self.P = fk.update(self.x, self.P, zz, R, H)
        elif k == 'EKF':
            f.R = R
            f.update(zz, lambda x: H, lambda x: H @ x)
        elif k in ('UKF', 'CKF'):
            self.H, f.R = H, R
            f.update(zz)
        elif k in ('IMM', 'MMAE'):
            for q in f.filters:
                q.H, q.R = H, R
            f.update(zz)
        elif k == 'INFO':
            f.H, f.R_inv = H, np.linalg.inv(R)
            f.update(zz)
        elif k == 'SEQ':
            f.H, f.R = H, R
            if zz is not None:
                for i in self.g.p.sample(range(self.m), self.m):
                    f.update_sequential(i, zz[i:i + 1])
        elif k == 'CORR':
            f.H, f.R = H, R
            f.update_correlated(zz)
        else:
            f.H, f.R = H, R
            f.update(zz)

    def view(self):
        f = self.f
        return dict(x=M(f.x), P=M(f.P))


NAMES = ['KF', 'KF1', 'CORR', 'EKF', 'FADING', 'SR', 'INFO', 'UKF:merwe', 'UKF:julier', 'UKF:simplex', 'CKF', 'IMM', 'MMAE', 'PROC']


def peers_case(t, g, steps):
    n, m, nu = g.dim([1, 2, 2, 3, 4], (5, 8)), g.dim([1, 1, 2, 3], (4, 6)), g.choice([1, 2])
    x, P = g.vec(n, 2.), g.spd(n, 2.)
    diag = g.coin(.5)                 # independent measurements can be used one after the other
    F, Q, H = g.F(n), g.spd(n, .5), g.H(m, n)
    R = np.diag(g.r.uniform(.3, 2, m)) if diag else g.spd(m)
    B = g.mat(n, nu)
    ps = []

    def all_(fn):
        for p in ps:
            _, e = guarded(fn, p)
            if e:
                raise RuntimeError(p.name + ': ' + e)

    def view(_):
        return {p.name: p.view() for p in ps}
    names = NAMES + (['SEQ'] if diag else [])
    t.call('x.new', lambda: ps.extend(Peer(k, x, P, n, m, nu, g) for k in names), view,
           dict(x=M(x), P=P, F=F, Q=Q, B=B, alpha=1))
    varying = g.coin(.5)
    Fs, Qs, zs, us = [], [], [], []
    for i in range(steps):
        if varying:
            F, Q, B = g.F(n), g.spd(n, .5), g.mat(n, nu)
        u = g.vec(nu) if g.coin(.4) else None
        t.call('x.predict', lambda: all_(lambda p: p.predict(F, Q, B, u)), view, dict(F=F, Q=Q, B=B, u=M(u)))
        if varying and not diag:
            H, R = g.H(m, n), g.spd(m)
        z = None if g.coin(.15) else g.vec(m, 2.)
        t.call('x.update', lambda: all_(lambda p: p.update(z, H, R)), view, dict(z=M(z), H=H, R=R))
        Fs.append(F), Qs.append(Q), zs.append(z), us.append((B, u))
    if varying or t.dead or any(u is not None for _, u in us):
        return
    # the same history in one call
    kf = KalmanFilter(n, m)
    kf.x, kf.P, kf.F, kf.Q, kf.H, kf.R = x.copy(), P.copy(), F, Q, H, R
    look = lambda r: dict(m=[M(v) for v in r[0]], c=list(r[1]))
    t.call('x.batch', lambda: kf.batch_filter(zs), look, dict(who='KF.batch_filter'))
    t.call('x.batch', lambda: fk.batch_filter(x.copy(), P.copy(), zs, Fs, Qs, [H] * steps, [R] * steps), look, dict(who='batch_filter'))
    ff = FadingKalmanFilter(1., n, m)
    ff.x, ff.P, ff.F, ff.Q, ff.H, ff.R = C(x), P.copy(), F, Q, H, R
    t.call('x.batch', lambda: ff.batch_filter([None if z is None else C(z) for z in zs]), look, dict(who='FadingKalmanFilter.batch_filter'))
    uf = UnscentedKalmanFilter(n, m, 1., lambda v: H @ v, lambda v, dt: F @ v, MerweScaledSigmaPoints(n, .5, 2., 0.))
    uf.x, uf.P, uf.Q, uf.R = x.copy(), P.copy(), Q, R
    t.call('x.batch', lambda: uf.batch_filter(zs), look, dict(who='UKF.batch_filter'))


def peers(c):
    for i in range(c.n(70)):
        c.run('T_XF', 'peers %d' % i, peers_case, c.rng('peers', i), c.n(5, 9))


# ------------------------------------------------------------------ likelihoods
def lik_case(t, g):
    kind = g.choice(['KF', 'KF1', 'EKF', 'FADING', 'UKF:merwe', 'CKF', 'CORR', 'INFO', 'PROC'])
    n, m = g.dim([1, 2, 3]), g.dim([1, 1, 2, 3], (4, 6))
    sc = 10. ** g.choice([0, 0, 0, -4, 4, -8, 8])      # units of the measurement
    x, P = g.vec(n, 2.), g.spd(n, 2.)
    p = Peer(kind, x, P, n, m, 1, g)
    f = p.f
    if kind == 'UKF:merwe':                             # sc: keep the points well scaled
        sc = 10. ** g.choice([0, 0, -3, 3])
    for i in range(g.i(2, 5)):
        F, Q, H, R = g.F(n), g.spd(n, .5), g.H(m, n) * sc, g.spd(m) * sc ** 2
        p.predict(F, Q, g.mat(n, 1), None)
        if kind != 'PROC' and len(t.ev) and g.coin(.4):
            t.call('lik.again', lambda: None, lambda r: dict(reads=reads(f, g, kind)))
        xb, Pb = M(f.x).copy(), np.array(f.P)
        far = g.choice([1., 1., 3., 25., 38., 40., 1e3, 1e6, 0.])
        S = H @ Pb @ H.T + R
        d = g.r.randn(m)
        d = d / np.linalg.norm(d) * far if g.coin(.7) else d
        z = (H @ xb.ravel()) + np.linalg.cholesky(S) @ d
        a = dict(x=xb, P=Pb, H=H, R=R, z=M(z))
        if kind == 'PROC':
            r, e = guarded(lambda: fk.update(p.x, p.P, C(z), R, H, return_all=True))
            t.add('f.loglik', a, {} if e else dict(ret=r[5]), e)
            if e:
                return
            p.x, p.P = r[0], r[1]
            continue
        if not g.coin(.15):
            _, e = guarded(p.update, z, H, R)
        else:
            _, e = guarded(p.update, z, H, R)
            if kind in ('KF', 'FADING', 'EKF') and not e:          # the last of two measurements in a row counts
                if g.coin():
                    guarded(reads, f, g, kind)
                a = dict(x=M(f.x).copy(), P=np.array(f.P), H=H, R=R, z=M(z))
                _, e = guarded(p.update, z, H, R)
        t.call('lik', lambda: None, lambda r: dict(reads=reads(f, g, kind)) if not e else {}, a)
        if t.dead or e:
            return


def reads(f, g, kind):
    names = ['ll', 'lik'] + (['mah'] if kind != 'INFO' else [])
    out = []
    for w in [g.choice(names) for _ in range(g.i(1, 5))]:
        v = dict(ll=lambda: f.log_likelihood, lik=lambda: f.likelihood, mah=lambda: f.mahalanobis)[w]()
        out.append(dict(what=w, v=v))
    return out


def lik(c):
    for i in range(c.n(300)):
        c.run('T_XF', 'likelihood %d' % i, lik_case, c.rng('lik', i))


# ------------------------------------------------------------------ covariances
def cov_case(t, g, steps):
    kind = g.choice(['KF', 'KF1', 'EKF', 'FADING', 'SR', 'INFO', 'UKF:merwe', 'UKF:julier', 'UKF:simplex', 'CKF', 'IMM', 'MMAE', 'PROC', 'SEQ', 'HINF'])
    n, m = g.dim([1, 2, 3, 4], (5, 8)), g.dim([1, 1, 2], (3, 5))
    stiff = kind in ('KF', 'KF1', 'EKF', 'FADING', 'SR', 'PROC', 'SEQ') and g.coin(.6)
    sharp = kind == 'SR' and g.coin(.6)
    ps, rs, qs = (10. ** g.choice([2, 6, 8]), 10. ** g.choice([0, -4, -8]), g.choice([0., 1e-12, 1e-6])) if sharp else \
        (10. ** g.choice([1, 2, 4]), 10. ** g.choice([0, -2, -4]), g.choice([0., 1e-8, 1e-4])) if stiff else (g.u(.5, 5), g.u(.2, 2), g.choice([.01, .1, 1.]))
    x, P = g.vec(n, 2.), g.spd(n) * ps
    F = np.eye(n) + np.diag(np.full(n - 1, g.choice([.1, 1.])), 1) if g.coin(.6) else g.F(n)
    if n > 4:                           # rounding compounds in the unseen growing modes of a large model
        F = g.F(n)
        F = F * .98 / max(1., abs(np.linalg.eigvals(F)).max())
    H = g.H(m, n) if g.coin(.6) or m > n else np.eye(m, n)
    Q, R = g.spd(n) * qs, (np.diag(g.r.uniform(.5, 1.5, m)) if kind == 'SEQ' or g.coin(.3) else g.spd(m)) * rs
    if kind == 'SR' and qs == 0.:
        Q = np.eye(n) * 1e-12
    if kind == 'HINF':
        f = HInfinityFilter(n, m, 0, gamma=.001)
        f.x, f.P, f.F, f.H, f.V, f.W, f.Q = C(x), P, F, H, R, g.spd(n, .3), np.eye(n) * .01
        pred, upd = (lambda: f.predict()), (lambda z: f.update(z if z is None else C(z)))
    else:
        p = Peer(kind, x, P, n, m, 1, g)
        f = p.f
        pred, upd = (lambda: p.predict(F, Q, np.zeros((n, 1)), None)), (lambda z: p.update(z, H, R))
        if kind == 'KF' and g.coin(.4):
            f.alpha = 1.02
    xt, most = x.copy(), 0.
    for i in range(steps):
        pre = {}
        _, e = guarded(pred)
        if e:
            t.add('cov', {}, {}, e)
            return
        big = abs(M(f.P)).max()
        if big > (1e3 if kind == 'HINF' else 1e12):
            return
        pre['predicted'] = M(f.P).copy()
        xt = F @ xt
        if abs(xt).max() > 1e4:
            xt = g.vec(n, 1.)
        z = None if g.coin(.1) else H @ xt + g.r.randn(m) * np.sqrt(rs)
        _, e = guarded(upd, z)
        o = dict(pre, updated=M(f.P).copy())
        nn = {k: Raw(n) for k in o}
        for k, s in (('S', m), ('P_prior', n), ('P_post', n)):
            if hasattr(f, k) and kind not in ('SEQ', 'INFO', 'HINF', 'PROC') and z is not None:
                o[k], nn[k] = M(getattr(f, k)), Raw(s)
        if kind in ('IMM', 'MMAE'):
            for j, q in enumerate(f.filters):
                o['filter %d' % j], nn['filter %d' % j] = M(q.P).copy(), Raw(n)
        most = max(most, big, rs * 3)
        if stiff and np.shape(getattr(f, 'K', None)) == (n, m):      # the gain spreads the rounding of one entry over the others
            most = max(most, big * min(1e3, abs(np.eye(n) - f.K @ H).sum(axis=1).max()) ** 2)
        eps = 1e-13
        if kind in ('UKF:merwe', 'UKF:julier', 'UKF:simplex', 'CKF', 'INFO', 'HINF', 'IMM', 'MMAE'):
            eps = 1e-9
        elif kind == 'SR':
            o = {k: v for k, v in o.items() if k in ('updated', 'predicted')}
            nn = {k: nn[k] for k in o}
            if i % 5 and i > 3:
                continue
            t.add('cov', dict(n=dict(updated=Raw(n)), eps=1e-14, scale=abs(M(f.P)).max()), dict(updated=o['updated']), e)
            t.add('cov', dict(n=dict(predicted=Raw(n)), eps=1e-14, scale=big), dict(predicted=o['predicted']), e)
            if t.dead:
                return
            continue
        if stiff:
            eps = 1e-9
        if i % 5 == 0 or i < 4 or e:
            t.add('cov', dict(n=nn, eps=eps, scale=most), o, e)
        if t.dead:
            return


def cov(c):
    for i in range(c.n(150)):
        c.run('T_XF', 'covariance %d' % i, cov_case, c.rng('cov', i), c.n(60, 300))
