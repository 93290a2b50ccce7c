"""KalmanFilter and the procedural functions (specs KF, T_KF)."""
import numpy as np
import filterpy.kalman as fk
from filterpy.kalman import KalmanFilter
from filterpy.common import Saver
from rec import Units, units, Inv, ivof, M, shape, guarded, Raw, assign, twin

BASE = ('x', 'P', 'F', 'H', 'Q', 'R', 'M', 'y', 'S', 'SI', 'K')


def col(v):
    return None if v is None else M(v)


def zcol(z):
    """a measurement, whatever its form, as the column it stands for"""
    return None if z is None else np.reshape(np.asarray(z), (-1, 1))


def zview(z):
    """the measurement; rows that nothing was measured for (after update_sequential) show as 10^6"""
    z = M(z)
    return np.where(np.isnan(z), 1e6, z) if isinstance(z, np.ndarray) and z.dtype == float else z


def obs(kf, lik=True):
    o = {k: M(getattr(kf, k)) for k in BASE}
    o.update(B=col(kf.B), iv=ivof(kf), alpha=kf.alpha, xp=M(kf.x_prior), Pp=M(kf.P_prior), xo=M(kf.x_post), Po=M(kf.P_post),
             z=zview(kf.z), sx=shape(kf.x), sP=shape(kf.P), ll=None, lik=None, mah=None)
    if lik:
        o['ll'] = guarded(lambda: kf.log_likelihood)[0]
        o['lik'] = guarded(lambda: kf.likelihood)[0]
        o['mah'] = guarded(lambda: kf.mahalanobis)[0]
    return o


class Case:
    """a filter, the numbers to feed it, and the trace of its life"""
    def __init__(self, t, g, n=None, m=None, ndim=None, nu=None, sym=False):
        self.t, self.g = t, g
        g.ints = g.coin(.12)
        self.n = n or g.dim([1, 2, 2, 2, 3])
        self.m = m or g.dim([1, 1, 2], (3, 6))
        self.nd = ndim or g.choice([1, 2])
        self.nu = nu or g.choice([1, 1, 2])
        kf = self.kf = KalmanFilter(self.n, self.m, self.nu)
        u = units(g)
        if u != (1., 1.):
            kf = self.kf = Units(kf, 'KF', *u)
        kf.x = self.xval()
        kf.P, kf.F, kf.Q = g.spd(self.n, 2.), g.F(self.n), g.spd(self.n, .5)
        kf.H, kf.R = g.H(self.m, self.n), g.spd(self.m)
        if g.coin(.3):
            kf.alpha = 1 + g.u(0, .3)
        if u == (1., 1.) and g.coin(.12):
            kf.inv = Inv(g.u(.1, 1.))
        self.lik = True
        t.call('new', lambda: None, lambda r: obs(kf), chk=True)

    def xval(self, s=2.):
        v = self.g.vec(self.n, s)
        return v if self.nd == 1 else v.reshape(-1, 1)

    def zval(self, m=None, s=2.):
        """a measurement in one of the documented forms"""
        m = m or self.m
        v = self.g.vec(m, s) * self.g.far()
        k = self.g.i(0, 4)
        if k == 4:
            return v.reshape(1, -1)
        if m == 1 and k == 0:
            return float(v[0])
        if k == 1:
            return list(v)
        if k == 2 or self.nd == 1 and k == 3:
            return v
        return v.reshape(-1, 1)

    def perfect(self):
        """a measurement without noise is possible"""
        return self.m == 1 and np.dot(np.dot(self.kf.H, self.kf.P), self.kf.H.T)[0, 0] > .05

    def uval(self):
        v = self.g.vec(self.nu)
        return v.reshape(-1, 1) if self.nd == 2 else v

    def mval(self):
        return np.round(self.g.r.randn(self.n, self.m) * .1, 4)

    def set(self, name, v):
        kf = self.kf
        a = {name: v if name == 'alpha' else M(v)}
        inplace = self.g.coin(.3)
        self.t.call('set', lambda: assign(kf, name, v, inplace), lambda r: self.obs(), a, chk=True)

    def obs(self, ret=None):
        o = obs(self.kf, self.lik if self.lik != 'sometimes' else self.g.coin(.4))
        if ret is not None:
            o['ret'] = ret
        return o

    def call(self, ev, f, a, ret=None, lik=None):
        """record ev; ret: how to view what it returns"""
        self.t.call(ev, f, lambda r: self.obs(ret(r) if ret else None), a)

    def copied(self):
        def go():
            self.kf = twin(self.kf, self.g)
        self.t.call('copied', go, lambda r: self.obs(), chk=True)

    def do(self, op):
        name, _, var = op.partition(':')
        kf, g, n, m = self.kf, self.g, self.n, self.m
        PA = dict(u=None, B=None, F=None, Q=None)
        if name in ('predict', 'get_prediction', 'predict_steadystate'):
            kw = {}
            if var in ('u', 'Bu', 'all'):
                kw['u'] = self.uval()
                if var != 'u':
                    kw['B'] = g.mat(n, self.nu)
                elif kf.B is None and g.coin(.7):
                    self.set('B', g.mat(n, self.nu))
            if var in ('F', 'all'):
                kw['F'] = g.F(n)
            if var in ('Q', 'all'):
                kw['Q'] = g.spd(n, .7)
            if var == 'q':
                kw['Q'] = g.uz(.1, 2)
            a = dict(PA, **{k: (v if k == 'Q' and np.isscalar(v) else M(v)) for k, v in kw.items()})
            f = getattr(kf, name)
            if name == 'get_prediction':
                return self.call(name, lambda: f(**kw), a, lambda r: [M(r[0]), M(r[1])])
            return self.call(name, lambda: f(**kw), a)
        if name in ('update', 'update_correlated'):
            z = None if var == 'none' else self.zval()
            kw = {}
            if 'R' in var:
                kw['R'] = g.spd(m)
            if var == 'r':
                kw['R'] = g.uz(.3, 2, self.perfect())
            if var == 'sensor':                # another one, of its own size
                m = g.i(1, 4)
                z, kw = g.vec(m, 2.), dict(H=g.H(m, n), R=g.spd(m))
                z = z if self.nd == 1 else z.reshape(-1, 1)
            if 'H' in var:
                kw['H'] = g.H(m, n)
                z = np.reshape(z, (m,) if self.nd == 1 else (m, 1))
            a = dict(z=zcol(z), R=kw.get('R'), H=col(kw.get('H')))
            if name == 'update_correlated' and g.coin(.6):
                self.set('M', self.mval())
            return self.call(name, lambda: getattr(kf, name)(z, **kw), a)
        if name == 'update_steadystate':
            z = None if var == 'none' else self.zval()
            return self.call(name, lambda: kf.update_steadystate(z), dict(z=zcol(z)))
        if name == 'update_sequential':
            L = min(m, 2 if var == 'two' else 1)
            start = g.i(0, m - L)
            z = g.vec(L, 2.)
            zz = float(z[0]) if L == 1 and g.coin() else z
            if np.ndim(zz) and g.coin(.3):
                zz = z.reshape(-1, 1)
            kw = {}
            if var == 'R':
                kw['R_i'] = g.uz(.3, 2, self.perfect()) if g.coin() else g.spd(L)
            if var == 'H':
                kw['H_i'] = g.H(L, n)
            a = dict(start=Raw(start), z=M(z), R=kw.get('R_i'), H=col(kw.get('H_i')))
            return self.call(name, lambda: kf.update_sequential(start, zz, **kw), a)
        if name == 'get_update':
            z = None if var == 'none' else self.zval()
            return self.call(name, lambda: kf.get_update(z), dict(z=zcol(z)), lambda r: [M(r[0]), M(r[1])])
        if name == 'residual_of':
            z = self.zval()
            return self.call(name, lambda: kf.residual_of(z), dict(z=zcol(z)), M)
        if name == 'measurement_of_state':
            x = self.xval()
            return self.call(name, lambda: kf.measurement_of_state(x), dict(x=M(x)), M)
        if name == 'log_likelihood_of':
            z = None if g.coin(.15) else self.zval()
            return self.call(name, lambda: kf.log_likelihood_of(z), dict(z=zcol(z)), float)
        if name == 'set':
            v = dict(x=self.xval, P=lambda: g.spd(n, 2.), F=lambda: g.F(n), H=lambda: g.H(m, n), Q=lambda: g.spd(n, .5),
                     R=lambda: g.spd(m), alpha=lambda: 1 + g.u(0, .4), B=lambda: g.mat(n, self.nu), M=self.mval)[var]()
            return self.set(var, v)
        raise KeyError(op)


def life(c, key, hs, scope=None, prep=(), copies=0, **kw):
    """execute histories; scope limits what is checked"""
    for i, h in enumerate(hs):
        def go(t):
            t.scope = scope
            g = c.rng(key, i)
            k = Case(t, g, **kw)
            k.lik = g.choice([True, 'sometimes'])
            for op in prep:
                k.do(op)
            for op in h:
                if copies and g.coin(copies):
                    k.copied()
                k.do(op)
        c.run('T_KF', '%s %d: %s' % (key, i, ' '.join(h)), go)


def predict(c):
    life(c, 'predict', c.hist('KFpred', 2, sim=(c.n(25), c.n(6, 10))) + c.turns('KFpred', 12), ('predict',))


def update(c):
    life(c, 'update', c.hist('KFupd', 2, sim=(c.n(25), c.n(6, 10))) + c.turns('KFupd', 12), ('update',))


def missing(c):
    life(c, 'missing', c.hist('KFnone', 3, sample=c.n(90, 343), sim=(c.n(10), 7)) + c.turns('KFnone', 12), None)


def variants(c):
    life(c, 'variants', c.hist('KFvar', 2, sim=(c.n(30), c.n(6, 10))) + c.turns('KFvar', 12), prep=['predict', 'update'],
         scope=('predict_steadystate', 'update_steadystate', 'update_correlated', 'update_sequential'))
    life(c, 'variants2', c.hist('KFvar', 1, sim=(c.n(30), c.n(5, 8))), m=2, prep=['update'],
         scope=('predict_steadystate', 'update_steadystate', 'update_correlated', 'update_sequential'))


def whatif(c):
    life(c, 'whatif', c.hist('KFask', 2, sample=c.n(140, 400), sim=(c.n(15), c.n(6, 10))) + c.turns('KFask', 12), prep=['predict', 'update'],
         scope=('get_prediction', 'get_update', 'residual_of', 'measurement_of_state', 'log_likelihood_of'))


def copies(c):
    life(c, 'copies', c.hist('KF', 1, sim=(c.n(60), c.n(6, 10))), prep=['predict', 'update'], copies=.5)


# ------------------------------------------------------------------ batch, smoothing
def seqs(g, k, n, m, nu, own, zform, none=.2):
    """arguments of batch_filter: the call's and the trace's"""
    kw, a = {}, {}
    zs = []
    for i in range(k):
        if g.coin(none):
            zs.append(None)
            continue
        v = g.vec(m, 2.)
        zs.append(float(v[0]) if zform == 0 and m == 1 else v if zform in (0, 1) else v.reshape(-1, 1))
    a['zs'] = [col(z) for z in zs]
    if all(z is not None for z in zs) and g.coin(.5):
        zs = np.array(zs)
    for nm, mk, p in (('Fs', lambda: g.F(n), .5), ('Qs', lambda: g.spd(n, .5), .5), ('Hs', lambda: g.H(m, n), .4),
                      ('Rs', lambda: g.spd(m), .5)):
        if own or g.coin(p):
            kw[nm] = [mk() for _ in range(k)]
            if g.coin(.3):
                kw[nm] = np.array(kw[nm])
        a[nm] = [M(v) for v in kw[nm]] if nm in kw else None
    return zs, kw, a


def batch_case(t, g):
    nd = g.choice([1, 2])
    c = Case(t, g, ndim=nd)
    kf, n, m = c.kf, c.n, c.m
    k = g.choice([g.i(1, 7)] * 5 + [g.i(8, 24)])
    for rep in range(g.choice([1, 1, 2])):
        zs, kw, a = seqs(g, k, n, m, c.nu, False, 1 if nd == 1 else g.choice([0, 1, 2]))
        if kw.get('Hs') is not None:      # a given H takes measurements of the shape of H x
            zs = [None if z is None else np.reshape(z, (m,) if nd == 1 else (m, 1)) for z in zs]
        if kw.get('Hs') is not None and g.coin(.3):    # a single matrix, for all epochs
            H = kw['Hs'][0]
            kw['Hs'], a['Hs'] = g.choice([H, [H]]), [M(H)] * k
        a.update(us=None, Bs=None)
        if g.coin(.5):
            kw['us'] = [None if g.coin(.2) else c.uval() for _ in range(k)]
            a['us'] = [col(u) for u in kw['us']]
            if g.coin(.6):
                kw['Bs'] = [g.mat(n, c.nu) for _ in range(k)]
                a['Bs'] = kw['Bs']
            elif kf.B is None:
                c.set('B', g.mat(n, c.nu))
        a['first'] = first = g.coin(.4)
        sv = Saver(kf) if g.coin(.5) and not isinstance(kf, Units) else None

        def look(r):
            o = obs(kf, False)
            o['ret'] = dict(m=[M(x) for x in r[0]], c=list(r[1]), mp=[M(x) for x in r[2]], cp=list(r[3]))
            o['rs'] = [shape(x) for x in r]
            if sv is not None:
                o['saved'] = [M(x) for x in sv.x]
            return o
        a['rs'] = [[Raw(k), Raw(n)] + ([Raw(1)] if nd == 2 else []), [Raw(k), Raw(n), Raw(n)]] * 2
        t.call('batch', lambda: kf.batch_filter(zs, update_first=first, saver=sv, **kw), look, a)
        if g.coin(.5):
            c.do('predict')
            c.do('update')


def pbatch_case(t, g):
    n, m, nd, k = g.dim([1, 2, 2, 3]), g.dim([1, 1, 2], (3, 5)), g.choice([1, 2]), g.choice([g.i(1, 7)] * 5 + [g.i(8, 24)])
    x = g.vec(n, 2.)
    x = x if nd == 1 else x.reshape(-1, 1)
    P, nu = g.spd(n, 2.), g.choice([1, 2])
    zs, kw, a = seqs(g, k, n, m, nu, True, 1 if nd == 1 else g.choice([0, 1, 2]))
    a.update(us=None, Bs=None, x=M(x), P=P)
    if g.coin(.6):
        us = [None if g.coin(.2) else g.vec(nu) if nd == 1 else g.vec(nu).reshape(-1, 1) for _ in range(k)]
        kw.update(us=us, Bs=[g.mat(n, nu) for _ in range(k)])
        a.update(us=[col(u) for u in us], Bs=list(kw['Bs']))
    a['first'] = first = g.coin(.4)
    before = [M(x).copy(), P.copy()]
    look = lambda r: dict(ret=dict(m=[M(v) for v in r[0]], c=list(r[1]), mp=[M(v) for v in r[2]], cp=list(r[3])))
    calls = []
    if g.coin(.3):
        class Sv:
            def save(self):
                calls.append(1)
        kw['saver'] = Sv()
        a['saver'] = True
    t.call('f.batch', lambda: fk.batch_filter(x, P, zs, update_first=first, **kw), lambda r: dict(look(r), saves=Raw(len(calls))), a)
    t.add('owned', dict(before=before), dict(after=[M(x), P]))


def batch(c):
    for i in range(c.n(110)):
        c.run('T_KF', 'batch %d' % i, batch_case, c.rng('batch', i))
    for i in range(c.n(60)):
        c.run('T_KF', 'procedural batch %d' % i, pbatch_case, c.rng('pbatch', i))


def rts_case(t, g):
    n, nd, k = g.dim([1, 2, 2, 3]), g.choice([1, 2]), g.choice([g.i(1, 7)] * 5 + [g.i(8, 24)])
    c = Case(t, g, n=n, ndim=nd)
    kf = c.kf
    kf.alpha, kf.inv = 1., np.linalg.inv       # the functions know neither
    t.call('new', lambda: None, lambda r: obs(kf), chk=True)
    which = g.i(0, 3)
    kw = {}
    if which in (1, 3):
        kw['Fs'] = [g.F(n) for _ in range(k)]
    if which in (2, 3):
        kw['Qs'] = [g.spd(n, .5) for _ in range(k)]
    if g.coin(.7):                    # the output of a filter
        zs = [None if g.coin(.15) else g.vec(c.m, 2.).reshape((-1,) if nd == 1 else (-1, 1)) for _ in range(k)]
        r, x = guarded(lambda: kf.batch_filter(zs, **kw))
        if x:
            return
        X, P = r[0], r[1]
        t.call('new', lambda: None, lambda r: obs(kf), chk=True)
    else:                             # any estimates
        X = np.array([g.vec(n, 2.) for _ in range(k)], float).reshape((k, n) if nd == 1 else (k, n, 1))
        P = np.array([g.spd(n, 2.) for _ in range(k)], float)
    Fs, Qs = kw.get('Fs', [kf.F] * k), kw.get('Qs', [kf.Q] * k)
    a = dict(X=[M(v) for v in X], P=list(P), Fs=[M(f) for f in Fs], Qs=[M(q) for q in Qs])
    b = [X.copy(), P.copy()]
    view = lambda r: dict(x=[M(v) for v in r[0]], P=list(r[1]), K=list(r[2]), Pp=list(r[3]))
    if g.coin(.5):
        if kw and g.coin():
            kw['inv'] = np.linalg.inv
        t.call('rts', lambda: kf.rts_smoother(X, P, **kw), lambda r: dict(obs(kf, False), ret=view(r)), a)
    else:
        t.ev = []
        t.call('rts', lambda: fk.rts_smoother(X, P, list(Fs), list(Qs)), lambda r: dict(ret=view(r)), a)
    t.add('owned', dict(before=b), dict(after=[X, P]))


def rts(c):
    for i in range(c.n(220)):
        c.run('T_KF', 'rts %d' % i, rts_case, c.rng('rts', i))


# ------------------------------------------------------------------ the functions on bare arrays
def proc_case(t, g):
    n, m, nd = g.dim([0, 1, 2, 2, 3]), g.dim([1, 1, 2], (3, 5)), g.choice([1, 2])
    sc = n == 0                       # plain floats
    n = max(n, 1)
    if sc:
        m = 1
    x, P = g.vec(n, 2.), g.spd(n, 2.)
    x = float(x[0]) if sc else x if nd == 1 else x.reshape(-1, 1)
    if sc:
        P = float(P[0, 0])
    own = []

    def keep(v):
        if isinstance(v, np.ndarray):
            own.append((v, v.copy()))
        return v
    for _ in range(g.i(1, 4)):
        if not np.all(np.isfinite(M(x))):
            return
        keep(x), keep(P)
        f = g.choice(['predict', 'predict', 'update', 'update', 'update', 'predict_steadystate', 'update_steadystate'])
        if f.startswith('predict'):
            F = g.u(.6, 1.2) if sc else keep(g.F(n))
            Q = g.u(.1, 1.) if sc else keep(g.spd(n, .5))
            kw, a = {}, dict(x=M(x), P=M(P), F=M(F), Q=M(Q), u=None, B=None, alpha=1)
            if g.coin(.5):
                if sc:
                    kw = dict(u=g.u(-1, 1), B=g.u(-1, 1))
                else:
                    nu = g.choice([1, 2])
                    kw = dict(u=g.vec(nu) if nd == 1 else g.vec(nu).reshape(-1, 1), B=g.mat(n, nu))
                a.update(u=M(kw['u']), B=M(kw['B']))
            if f == 'predict':
                if g.coin(.3):
                    kw['alpha'] = a['alpha'] = 1 + g.u(0, .4)
                if sc and g.coin(.2):
                    kw.pop('alpha', 0), a.update(alpha=1, F=M(1.))
                    r = t.call('f.predict', lambda: fk.predict(x, P, Q=Q, **kw), lambda r: dict(ret=[M(r[0]), M(r[1])]), a)
                else:
                    r = t.call('f.predict', lambda: fk.predict(x, P, F, Q, **kw), lambda r: dict(ret=[M(r[0]), M(r[1])]), a)
                if r is None:
                    return
                x, P = r
            else:
                r = t.call('f.predict_steadystate', lambda: fk.predict_steadystate(x, F, **kw), lambda r: dict(ret=M(r)), a)
                if r is None:
                    return
                x = r
        else:
            none = g.coin(.12)
            if sc:
                H = g.choice([None, 1., g.u(.5, 1.5)])
                z, R = g.u(-2, 2), g.u(.3, 1.)
            else:
                H = keep(g.H(m, n))
                v = g.vec(m, 2.)
                z = g.choice([v, list(v), v.reshape(-1, 1)] + ([float(v[0])] if m == 1 else []))
                R = keep(g.spd(m))
                if m == 1 and g.coin(.3):
                    R = g.choice([float(R[0, 0]), float(R[0, 0]), 0.] if (H @ M(P) @ H.T)[0, 0] > .05 else [float(R[0, 0])])
            if none:
                z = None
            a = dict(x=M(x), P=M(P), z=col(z), H=M(1. if H is None else H), R=M(R))
            if f == 'update':
                a['all'] = ra = g.coin(.6)

                def look(r):
                    o = dict(ret=[M(r[0]), M(r[1])])
                    if ra:
                        o['rest'] = [None] * 4 if none and all(v is None for v in r[2:]) else \
                            dict(y=M(r[2]), K=M(r[3]), S=M(r[4]), ll=r[5])
                    return o
                r = t.call('f.update', lambda: fk.update(x, P, z, R, H, return_all=ra), look, a)
                if r is None:
                    return
                x, P = r[0], r[1]
            else:
                K = g.u(.1, .6) if sc else keep(g.mat(n, m) * .3)
                a['K'] = M(K)
                r = t.call('f.update_steadystate', lambda: fk.update_steadystate(x, z, K, H), lambda r: dict(ret=M(r)), a)
                if r is None:
                    return
                x = r
        if sc:                         # the functions may answer with 1-element arrays
            x, P = float(np.ravel(x)[0]), float(np.ravel(P)[0])
    t.add('owned', dict(before=[M(b) for v, b in own]), dict(after=[M(v) for v, b in own]))


def twin_case(t, g):
    """the class and the functions side by side: both are checked against the same step"""
    c = Case(t, g)
    kf = c.kf
    kf.alpha, kf.inv = 1., np.linalg.inv       # the functions know neither
    t.call('new', lambda: None, lambda r: obs(kf), chk=True)
    x, P = kf.x.copy(), kf.P.copy()
    for _ in range(g.i(2, 5)):
        u, B = (c.uval(), g.mat(c.n, c.nu)) if g.coin(.4) else (None, None)
        F, Q, H, R = g.F(c.n), g.spd(c.n, .5), g.H(c.m, c.n), g.spd(c.m)
        z = None if g.coin(.1) else g.vec(c.m, 2.).reshape((-1,) if c.nd == 1 else (-1, 1))
        c.call('predict', lambda: kf.predict(u=u, B=B, F=F, Q=Q), dict(u=col(u), B=B, F=F, Q=Q))
        kw = {} if u is None else dict(u=u, B=B)
        r, e = guarded(lambda: fk.predict(x, P, F, Q, **kw))
        t.add('twin', {}, dict(ret=[M(r[0]), M(r[1])]) if not e else {}, e)
        if e:
            return
        x, P = r
        c.call('update', lambda: kf.update(z, R=R, H=H), dict(z=col(z), R=R, H=H))
        r, e = guarded(lambda: fk.update(x, P, z, R, H))
        t.add('twin', {}, dict(ret=[M(r[0]), M(r[1])]) if not e else {}, e)
        if e:
            return
        x, P = r


def procedural(c):
    for i in range(c.n(260)):
        c.run('T_KF', 'procedural %d' % i, proc_case, c.rng('proc', i))
    for i in range(c.n(40)):
        c.run('T_KF', 'class and functions %d' % i, twin_case, c.rng('twin', i))
