"""The same filter in other units of measurement.

Units(f, ux, uz) is the filter f, kept in units in which a state of 1 is ux and a measurement of 1 is uz, seen by
somebody who counts in ones: what he assigns and passes is converted, and so is what he reads.  Both factors are
powers of two, so the conversion is exact, and a filter whose equations hold in every unit answers bit by bit the
same.  The specification judges the converted view."""
import math, sys
import numpy as np
MIN = sys.float_info.min

# attribute -> (power of ux, power of uz)
ATTR = dict(x=(1, 0), x_prior=(1, 0), x_post=(1, 0), P=(2, 0), P_prior=(2, 0), P_post=(2, 0), Q=(2, 0), P_inv=(-2, 0),
            P_inv_prior=(-2, 0), P_inv_post=(-2, 0), R=(0, 2), V=(0, 2), R_inv=(0, -2), S=(0, 2), SI=(0, -2), K=(1, -1),
            H=(-1, 1), B=(1, 0), y=(0, 1), z=(0, 1), M=(1, 1), W=(-2, 0), sigmas=(1, 0), sigmas_f=(1, 0), sigmas_h=(0, 1),
            xSmooth=(1, 0))
X, XX, Z, ZZ, HH, BB = (1, 0), (2, 0), (0, 1), (0, 2), (-1, 1), (1, 0)
# method -> parameters in order with their powers, and the powers of what is returned
KF = dict(predict=([('u', None), ('B', BB), ('F', None), ('Q', XX)], None),
          get_prediction=([('u', None), ('B', BB), ('F', None), ('Q', XX)], (X, XX)),
          predict_steadystate=([('u', None), ('B', BB)], None),
          update=([('z', Z), ('R', ZZ), ('H', HH)], None),
          update_correlated=([('z', Z), ('R', ZZ), ('H', HH)], None),
          update_steadystate=([('z', Z)], None),
          update_sequential=([('start', None), ('z_i', Z), ('R_i', ZZ), ('H_i', HH)], None),
          get_update=([('z', Z)], (X, XX)), residual_of=([('z', Z)], Z), measurement_of_state=([('x', X)], Z),
          log_likelihood_of=([('z', Z)], 'll'),
          batch_filter=([('zs', Z), ('Fs', None), ('Qs', XX), ('Hs', HH), ('Rs', ZZ), ('Bs', BB), ('us', None)], (X, XX, X, XX)),
          rts_smoother=([('Xs', X), ('Ps', XX), ('Fs', None), ('Qs', XX)], (X, XX, None, XX)))
OTHER = dict(
    SR=dict(update=([('z', Z), ('R2', Z)], None)),
    INFO=dict(update=([('z', Z), ('R_inv', (0, -2))], None)),
    HINF=dict(get_prediction=([('u', None)], X), batch_filter=([('Zs', Z)], (X, XX))),
    FADING=dict(batch_filter=([('zs', Z), ('Rs', ZZ)], (X, XX, X, XX))),
    EKF=dict(update=([('z', Z), ('HJacobian', 'hj'), ('Hx', 'hx'), ('R', ZZ), ('args', None), ('hx_args', None), ('residual', 'res')], None),
             predict_update=([('z', Z), ('HJacobian', 'hj'), ('Hx', 'hx'), ('args', None), ('hx_args', None), ('u', None)], None)),
    UKF=dict(cross_variance=([('x', X), ('z', Z), ('sigmas_f', X), ('sigmas_h', Z)], (1, 1)), predict=([('dt', None), ('UT', None), ('fx', 'fx')], None), update=([('z', Z), ('R', ZZ), ('UT', None), ('hx', 'hx')], None),
             batch_filter=([('zs', Z), ('Rs', ZZ)], (X, XX)), rts_smoother=([('Xs', X), ('Ps', XX), ('Qs', XX)], (X, XX, None))),
    CKF=dict(update=([('z', Z), ('R', ZZ), ('hx_args', None)], None)),
    ENS=dict(update=([('z', Z), ('R', ZZ)], None), initialize=([('x', X), ('P', XX)], None)),
    LAG=dict(smooth=([('z', Z), ('u', None)], None), smooth_batch=([('zs', Z), ('N', None), ('us', None)], (X, X))))
OWN = dict(BANK=dict(M=None), HINF=dict(Q=(-2, 0), W=(2, 0)), INFO=dict(S=(-2, 0), P=(2, 0)))


def conv(v, k):
    """v * k, in the form v has"""
    if v is None or k == 1 or isinstance(v, str) or callable(v):
        return v
    if isinstance(v, (list, tuple)):
        return type(v)(conv(e, k) for e in v)
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return np.array([None if e is None else e * k for e in v.ravel()], object).reshape(v.shape)
        return v * k
    return v * k


class Units:
    def __init__(self, f, kind, ux, uz):
        self.__dict__.update(f_=f, kind_=kind, ux_=ux, uz_=uz)

    def k_(self, p):
        return 1 if p is None else float(self.ux_) ** p[0] * float(self.uz_) ** p[1]

    def attr_(self, name):
        return OWN.get(self.kind_, {}).get(name, ATTR.get(name))

    def __setattr__(self, name, v):
        setattr(self.f_, name, self.raw_(name, v))

    def raw_(self, name, v):
        return conv(v, self.k_(self.attr_(name)))

    def ll_(self, ll):
        """a density per unit of measurement"""
        if ll is None or ll == math.log(MIN):
            return ll
        return ll + len(np.atleast_1d(np.squeeze(self.f_.y))) * math.log(self.uz_)

    def __getattr__(self, name):
        f = self.__dict__['f_']
        v = getattr(f, name)
        if name == 'filters':
            return [Units(e, 'KF', self.ux_, self.uz_) for e in v]
        if name == 'log_likelihood':
            return self.ll_(v)
        if name == 'likelihood':
            if v == MIN:
                ll = f.log_likelihood
                return v if ll == math.log(MIN) else max(math.exp(self.ll_(ll)), MIN)
            return max(v * self.uz_ ** len(np.atleast_1d(np.squeeze(f.y))), MIN)
        sig = OTHER.get(self.kind_, {}).get(name) or KF.get(name)
        if sig and callable(v):
            return self.method_(v, *sig)
        p = self.attr_(name)
        return v if p is None else conv(v, 1. / self.k_(p))

    def method_(self, m, pars, ret):
        ux, uz = self.ux_, self.uz_

        def into(name, v):
            p = dict(pars).get(name)
            if isinstance(p, str):
                return fn(p, v, ux, uz)
            return conv(v, self.k_(p))

        def call(*args, **kw):
            args = [into(pars[i][0], v) for i, v in enumerate(args)]
            r = m(*args, **{k: into(k, v) for k, v in kw.items()})
            if ret is None or r is None:
                return r
            if ret == 'll':
                return self.ll_(r)
            if isinstance(ret[0], tuple):
                return tuple(conv(v, 1. / self.k_(p)) for v, p in zip(r, ret))
            return conv(r, 1. / self.k_(ret))
        return call


def fn(what, f, ux, uz):
    """the user's function, for a filter that counts in units"""
    if f is None:
        return None
    if what == 'fx':
        return lambda x, *a, **k: conv(f(np.asarray(x) / ux, *a, **k), ux)
    if what == 'hx':
        return lambda x, *a, **k: conv(f(np.asarray(x) / ux, *a, **k), uz)
    if what == 'hj':
        return lambda x, *a, **k: conv(f(np.asarray(x) / ux, *a, **k), uz / ux)
    if what == 'res':
        return lambda a, b: conv(f(np.asarray(a) / uz, np.asarray(b) / uz), uz)
    if what == 'resx' or what == 'addx':
        return lambda a, b: conv(f(np.asarray(a) / ux, np.asarray(b) / ux), ux)
    if what == 'meanx':
        return lambda S, W: conv(f(np.asarray(S) / ux, W), ux)
    if what == 'meanz':
        return lambda S, W: conv(f(np.asarray(S) / uz, W), uz)
    raise KeyError(what)


def units(g, p=.12, z=True):
    """(ux, uz), mostly (1, 1)"""
    if g.ints or not g.coin(p):
        return 1., 1.
    e = lambda: 2. ** g.choice([-30, -20, -10, 0, 10, 20, 30])
    return e(), e() if z else 1.
