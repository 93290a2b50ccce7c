"""EKF, fading, square root, information and H-infinity filters (specs Filters, T_LF)."""
import warnings
import numpy as np
from filterpy.kalman import (ExtendedKalmanFilter, FadingKalmanFilter, SquareRootKalmanFilter, InformationFilter)
from filterpy.hinfinity import HInfinityFilter
from filterpy.common import Saver
from rec import Units, units, M, guarded, Raw, assign, twin
warnings.simplefilter('ignore')


def wrap(a, b):
    return (np.asarray(a) - b + 2.) % 4. - 2.


class QuadEKF(ExtendedKalmanFilter):
    """an EKF whose process model is F x + c G (x o x)"""
    def predict_x(self, u=0):
        self.x = self.F @ self.x + self.fc * (self.fG @ self.x ** 2)
        if np.ndim(u) > 0 or u:
            self.x = self.x + self.B @ u


class Case:
    def __init__(self, t, g, kind, n=None, m=None, h=(), blank=False):
        self.t, self.g, self.kind = t, g, kind
        self.batch = any('batch' in op for op in h)
        g.ints = g.coin(.12)
        n = self.n = n or g.dim([1, 2, 2, 3])
        m = self.m = m or g.dim([1, 1, 2], (3, 5))
        self.nu = g.choice([1, 2])
        self.nd = g.choice([1, 2])
        self.par = {}
        B, H = g.mat(n, self.nu), g.H(m, n)
        given = {}
        u = units(g)
        scaled = lambda f: f if u == (1., 1.) or isinstance(f, (Units, QuadEKF)) else Units(f, kind, *u)

        def put(**kw):
            for name, v in kw.items():
                given[name] = M(v).copy()
                setattr(f, dict(Pi='P_inv', Ri='R_inv').get(name, name), v)
        if kind == 'EKF':
            quad = g.coin(.3)
            f = (QuadEKF if quad else ExtendedKalmanFilter)(n, m, self.nu)
            if quad:
                f.fc, f.fG = g.u(-.1, .1), g.mat(n, n)
                self.par.update(fc=f.fc, fG=f.fG.copy())
            self.H, self.G = H, g.mat(m, n, .3)
        elif kind == 'FADING':
            self.alpha = g.choice([1., 1 + g.u(0, .3)])
            f = FadingKalmanFilter(self.alpha, n, m, self.nu)
        elif kind == 'SR':
            f = SquareRootKalmanFilter(n, m, self.nu)
        elif kind == 'INFO':
            f = InformationFilter(n, m, self.nu, compute_log_likelihood=g.coin(.8))
        else:
            f = HInfinityFilter(n, m, self.nu, gamma=g.u(0, .05))
            V = g.spd(m)
            f = scaled(f)
            put(V=float(V[0, 0]) if m == 1 and g.coin() else V, W=g.spd(n, .3))
        self.f = f = scaled(f)
        put(B=B, F=g.F(n), Q=g.spd(n, .5))
        if kind == 'HINF':
            put(Q=g.spd(n, .2))
        put(x=self.xval())
        if kind == 'INFO':
            put(Pi=g.spd(n), Ri=g.spd(m))
            if g.coin(.25):          # directions nothing is known about
                put(Pi=np.diag([float(g.choice([0, 0, 1, 2])) for _ in range(n)]))
                F = np.eye(n)
                for i in range(n):
                    for j in range(i + 1, n):
                        F[i, j] = g.i(-1, 1)
                put(F=F)
            if blank:
                put(Pi=np.zeros((n, n)), F=np.eye(n) + g.mat(n, n, .4) if g.coin() else g.F(n))
        else:
            put(P=g.spd(n, 2.))
            if kind != 'HINF':
                put(R=g.spd(m))
        if kind != 'EKF':
            put(H=H)
        t.call('new', lambda: None, lambda r: self.obs(), given, chk=True)

    def xval(self):
        v = self.g.vec(self.n, 1.5)
        # FADING and HINF return the means of a batch as columns, whatever x is
        return v if self.nd == 1 and not (self.kind in ('FADING', 'HINF') and self.batch) else v.reshape(-1, 1)

    def obs(self, ret=None):
        f, k = self.f, self.kind
        o = dict(kind=k, x=M(f.x), F=M(f.F), Q=M(f.Q), B=M(f.B), y=M(f.y), z=M(f.z))
        if k == 'INFO':
            o.update(Pi=M(f.P_inv), Pip=M(f.P_inv_prior), Pio=M(f.P_inv_post), Ri=M(f.R_inv), H=M(f.H), xp=M(f.x_prior),
                     xo=M(f.x_post), ll=f.log_likelihood, lik=f.likelihood, K=0, cll=bool(f.compute_log_likelihood))
        else:
            o['P'] = M(f.P)
        if k == 'HINF':
            o.update(V=M(f.V), W=M(f.W), gamma=f.gamma, H=M(f.H))
        if k in ('EKF', 'FADING', 'SR'):
            o.update(R=M(f.R), S=M(f.S), SI=M(f.SI), K=M(f.K), xp=M(f.x_prior), Pp=M(f.P_prior), xo=M(f.x_post),
                     Po=M(f.P_post), ll=None, lik=None, mah=None)
        if k in ('EKF', 'FADING'):
            o['ll'] = guarded(lambda: f.log_likelihood)[0]
            o['lik'] = guarded(lambda: f.likelihood)[0]
            o['mah'] = guarded(lambda: f.mahalanobis)[0]
        if k in ('FADING', 'SR'):
            o['H'] = M(f.H)
        if k == 'EKF':
            o.update(H=self.H, G=self.G, **self.par)
        if k in ('EKF', 'SR'):
            o['alpha'] = 1
        if k == 'FADING':
            o['alpha'] = f.alpha
        if ret is not None:
            o['ret'] = ret
        return o

    def call(self, ev, fn, a, ret=None):
        self.t.call(ev, fn, lambda r: self.obs(ret(r) if ret else None), a)

    def zval(self):
        v = self.g.vec(self.m, 1.5) * self.g.far()
        if np.ndim(self.f.x) == 1:
            if self.kind == 'EKF' and self.m == 1 and self.g.coin(.3):
                return float(v[0])
            return v
        if self.m == 1 and self.g.coin(.4):
            return float(v[0])
        return v.reshape(-1, 1)

    def perfect(self):
        """a measurement without noise (INFO: without information) is possible"""
        f = self.f
        if self.kind == 'INFO':
            return not f.compute_log_likelihood
        if self.kind == 'EKF':
            J = self.H + 2 * self.G * np.ravel(f.x)
            return self.m == 1 and np.dot(np.dot(J, f.P), J.T)[0, 0] > .05
        return self.m == 1 and np.dot(np.dot(f.H, f.P), f.H.T)[0, 0] > .05

    def uval(self):
        v = self.g.vec(self.nu)
        return v.reshape(-1, 1) if np.ndim(self.f.x) == 2 else v

    def set(self, name, v):
        attr = name
        if self.kind == 'INFO':
            attr = {'P': 'P_inv', 'R': 'R_inv'}.get(name, name)
            name = {'P': 'Pi', 'R': 'Ri'}.get(name, name)
        if self.kind == 'EKF' and name == 'H':
            self.H = v
            return self.t.call('set', lambda: None, lambda r: self.obs(), dict(H=M(v)), chk=True)
        inplace = self.g.coin(.3)
        self.t.call('set', lambda: assign(self.f, attr, v, inplace), lambda r: self.obs(), {name: M(v)}, chk=True)

    def ekf(self, var, m=None):
        """functions and arguments of EKF.update, and their description"""
        g, H, G = self.g, self.H, self.G
        if var == 'sensor':
            H, G = g.H(m, self.n), g.mat(m, self.n, .3)
        x1 = np.ndim(self.f.x) == 1
        c, cj, rs = 1, 1, 'sub'
        kw = {}
        hx = lambda x, c=1.: H @ x + c * (G @ x ** 2)
        hj = lambda x, c=1.: H + 2 * c * G * np.ravel(x)
        if var == 'args':
            c, cj = g.uz(-2, 2), g.uz(-2, 2)
            kw['hx_args'] = g.choice([(c,), c])
            kw['args'] = g.choice([(cj,), cj])
            if g.coin(.3):
                two = lambda f: lambda x, p, q: f(x, p + q)
                hx, hj = two(hx), two(hj)
                kw.update(hx_args=(c - .25, .25), args=(cj + .5, -.5))
                c, cj = (c - .25) + .25, (cj + .5) - .5
        if var == 'wrap':
            rs, kw['residual'] = 'wrap', wrap
        a = dict(c=c, cj=cj, resid=rs)
        if var == 'sensor':
            a.update(H=M(H), G=G)
        return hj, hx, kw, a

    def copied(self):
        def go():
            self.f = twin(self.f, self.g)
        self.t.call('copied', go, lambda r: self.obs(), chk=True)

    def do(self, op):
        name, _, var = op.partition(':')
        f, g, n, m, k = self.f, self.g, self.n, self.m, self.kind
        if name in ('predict', 'get_prediction'):
            u = self.uval() if var == 'u' else None
            args = () if u is None else (u,)
            view = None
            if name == 'get_prediction':
                view = (lambda r: M(r)) if k == 'HINF' else (lambda r: [M(r[0]), M(r[1])])
            return self.call(name, lambda: getattr(f, name)(*args), dict(u=M(u)), view)
        if name == 'predict_update':
            z = None if var == 'none' else self.zval()
            u = self.uval() if var == 'u' else None
            hj, hx, kw, a = self.ekf('args' if g.coin(.4) else '')
            if u is not None:
                kw['u'] = u
            return self.call(name, lambda: f.predict_update(z, hj, hx, **kw), dict(a, z=M(z), u=M(u), R=None))
        if name == 'update':
            z = None if var == 'none' else self.zval()
            R = g.spd(m) if var == 'R' else g.uz(.3, 2, self.perfect()) if var == 'r' else None
            if k == 'SR' and var == 'R':
                R = np.linalg.cholesky(R)
            if var == 'sensor':                # another one, of its own size
                m = g.i(1, 4)
                z, R = g.vec(m, 1.5), g.spd(m)
                z = z if np.ndim(f.x) == 1 else z.reshape(-1, 1)
            a = dict(z=M(z), R=R)
            if k == 'EKF':
                hj, hx, kw, b = self.ekf(var, m)
                if R is not None:
                    kw['R'] = R
                return self.call(name, lambda: f.update(z, hj, hx, **kw), dict(a, **b))
            if k == 'HINF':
                return self.call(name, lambda: f.update(z), a)
            return self.call(name, lambda: f.update(z) if R is None else f.update(z, R), a)
        if name == 'residual_of':
            z = self.zval()
            return self.call(name, lambda: f.residual_of(z), dict(z=M(z)), M)
        if name == 'measurement_of_state':
            x = self.xval()
            return self.call(name, lambda: f.measurement_of_state(x), dict(x=M(x)), M)
        if name == 'P':
            if abs(np.linalg.det(f.P_inv)) < 1e-3:
                return
            return self.call(name, lambda: f.P, {}, M)
        if name == 'batch':
            K = g.i(1, 5)
            zs = [None if g.coin(.2) else self.zval() for _ in range(K)]
            kw = {}
            if var:
                kw['update_first'] = True
            a = dict(zs=[M(z) for z in zs], first=bool(var), Rs=None)
            if k == 'FADING' and g.coin():
                kw['Rs'] = a['Rs'] = [g.choice([None, g.spd(m), g.u(.3, 2)]) for _ in zs]
            sv = None
            if k == 'HINF' and g.coin() and not isinstance(f, Units):
                sv = kw['saver'] = Saver(f)

            def view(r):
                o = dict(m=[M(x) for x in r[0]], c=list(r[1]))
                if k == 'FADING':
                    o.update(mp=[M(x) for x in r[2]], cp=list(r[3]))
                return o

            def look(r):
                o = self.obs(view(r))
                if sv is not None:
                    o['saved'] = [M(x) for x in sv.x]
                return o
            return self.t.call('batch', lambda: f.batch_filter(zs, **kw), look, a)
        if name == 'set':
            sing = k == 'INFO' and np.linalg.det(f.P_inv) == 0
            if sing and var in 'PF':
                return
            v = dict(x=self.xval, P=lambda: g.spd(n, 1. if k == 'INFO' else 2.), F=lambda: g.F(n), H=lambda: g.H(m, n),
                     Q=lambda: g.spd(n, .5 if k != 'HINF' else .2), R=lambda: g.spd(m), V=lambda: g.spd(m),
                     W=lambda: g.spd(n, .3))[var]()
            return self.set(var, v)
        raise KeyError(op)


def life(c, kind, hs, key=None, scope=None, prep=(), copies=0, **kw):
    key = key or kind
    for i, h in enumerate(hs):
        def go(t):
            t.scope = scope
            k = Case(t, c.rng(key, i), kind, h=h, **kw)
            for op in list(prep) + list(h):
                if copies and k.g.coin(copies):
                    k.copied()
                k.do(op)
        c.run('T_LF', '%s %d: %s' % (key, i, ' '.join(h)), go)


def ekf(c):
    life(c, 'EKF', c.hist('EKF', 2, sim=(c.n(60), c.n(6, 12))) + c.turns('EKF', 12), scope=('predict', 'update', 'predict_update'))


def fading(c):
    life(c, 'FADING', c.hist('FADING', 2, sim=(c.n(60), c.n(6, 12))) + c.turns('FADING', 12))


def sr(c):
    life(c, 'SR', c.hist('SR', 2, sim=(c.n(60), c.n(6, 12))) + c.turns('SR', 12))


def info(c):
    hs = c.hist('INFO', 2, sim=(c.n(80), c.n(6, 12))) + c.turns('INFO', 12)
    life(c, 'INFO', hs[::2], prep=['predict'])
    life(c, 'INFO', hs[1::2], key='INFO bare')
    # nothing is known to begin with, and one measurement does not tell everything
    for n, m in ((1, 1), (2, 1), (3, 1), (3, 2), (4, 1), (4, 2)):
        g = c.rng('blank', n, m)
        hs = [g.choice([[], ['predict'], ['update:none']]) +
              [o for _ in range(n + 1) for o in g.choice([['update', 'predict'], ['update', 'predict'], ['update', 'update'], ['update:R', 'predict:u'], ['predict']])]
              for _ in range(c.n(5))]
        life(c, 'INFO', hs, key='INFO blank %d %d' % (n, m), n=n, m=m, blank=True)


def hinf(c):
    life(c, 'HINF', c.hist('HINF', 2, sim=(c.n(60), c.n(6, 12))) + c.turns('HINF', 12))


def batch(c):
    for kind in ('FADING', 'HINF'):
        g = c.rng('bh', kind)
        hs = [[g.choice(['batch', 'batch', 'batch:first', 'predict', 'predict:u', 'update', 'update:none', 'set:F', 'set:H', 'set:Q'])
               for _ in range(g.i(1, 4))] + [g.choice(['batch', 'batch:first'])] for _ in range(c.n(40))]
        life(c, kind, hs, key='batch ' + kind, scope=('batch',))


def copies(c):
    for kind in ('EKF', 'FADING', 'SR', 'INFO', 'HINF'):
        life(c, kind, c.hist(kind, 1, sim=(c.n(22), c.n(6, 12))), key='copies ' + kind, copies=.5)


def missing(c):
    for kind in ('EKF', 'FADING', 'SR', 'INFO', 'HINF'):
        g = c.rng('mh', kind)
        hs = [[g.choice(['predict', 'update', 'update:none', 'update:none'] + (['predict_update:none'] if kind == 'EKF' else []))
               for _ in range(g.i(2, 6))] for _ in range(c.n(25))]
        life(c, kind, hs, key='missing ' + kind)
