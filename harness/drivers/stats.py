"""filterpy.stats (specs Gauss, T_ST)."""
import random
import numpy as np
import filterpy.stats as fs
from rec import M, V, guarded, Raw
import matplotlib
matplotlib.use('Agg')


def vecform(g, v):
    """a mean in one of the forms the functions take"""
    k = g.i(0, 4)
    if len(v) == 1 and k == 0:
        return float(v[0])
    return list(v) if k == 1 else v.reshape(-1, 1) if k == 2 else v.reshape(1, -1) if k == 3 else v


def scale(g):
    return g.choice([1., 1., 1., 1e-3, 1e3, 1e-6, 1e6])


def products_case(t, g):
    ms = scale(g)
    m1, m2 = g.u(-5, 5) * ms, g.u(-5, 5) * ms
    v1, v2 = g.u(.01, 5) * scale(g), g.u(.01, 5) * scale(g)
    if g.coin(.2):
        m1, m2, v1, v2 = [g.i(-5, 5) for _ in 'ab'] + [g.i(1, 9) for _ in 'ab']
    if g.coin(.1):
        v2 = v1
    if g.coin(.1):
        m2 = m1
    a = dict(m1=m1, v1=v1, m2=m2, v2=v2)
    f = g.choice(['mul', 'mul_pdf', 'add'])
    if f == 'mul_pdf' and (m1 - m2) ** 2 > 1000 * (v1 + v2):
        f = 'mul'
    t.pure(f, lambda: getattr(fs, f)(m1, v1, m2, v2), lambda r: dict(ret=list(r)), a)


def mvmul_case(t, g):
    n = g.dim([1, 2, 2, 3, 4], (5, 8))
    m1, m2, C1, C2 = g.vec(n, 3.), g.vec(n, 3.), g.spd(n, scale(g)), g.spd(n, g.choice([1., 1e-2, 1e2]))
    if g.coin(.15):
        C2 = C1.copy() if g.coin() else C1 * g.u(.9, 1.1)
    q = g.choice([1., 1., 2. ** 20, 2. ** -20, 2. ** -30])      # the same in other units
    C1, C2 = C1 * q, C2 * q
    if g.coin(.3):
        b = lambda v: v.reshape(-1, 1)
    else:
        b = lambda v: v
    x1, x2 = b(m1), b(m2)
    if g.coin(.3):
        x1, x2 = x1.tolist(), x2.tolist()
    c1, c2 = (C1.tolist(), C2.tolist()) if g.coin(.3) else (C1, C2)
    keep = [m1.copy(), m2.copy(), C1.copy(), C2.copy()]
    t.pure('multivariate_multiply', lambda: fs.multivariate_multiply(x1, c1, x2, c2), lambda r: dict(ret=[M(r[0]), M(r[1])]),
           dict(m1=M(m1), C1=C1, m2=M(m2), C2=C2))
    t.add('owned', dict(before=[M(k) for k in keep]), dict(after=[M(k) for k in (m1, m2, C1, C2)]))


def products(c):
    for i in range(c.n(300)):
        c.run('T_ST', 'product %d' % i, products_case, c.rng('products', i))
    for i in range(c.n(120)):
        c.run('T_ST', 'multivariate product %d' % i, mvmul_case, c.rng('mv', i))


def density_case(t, g):
    k = g.choice(['gaussian', 'gaussian', 'mvg', 'logpdf', 'line', 'lik', 'cdf', 'maha', 'reject'])
    s = scale(g)
    if k == 'gaussian':
        m, v = g.u(-5, 5), g.u(.1, 5) * g.choice([1, 1, .01, 100])
        normed = g.coin()
        if g.coin(.4):
            x = m + g.u(-4, 4) * v ** .5
            t.pure('gaussian', lambda: fs.gaussian(x, m, v, normed=normed), lambda r: dict(ret=[r]), dict(x=[x], m=m, v=v, normed=False))
        else:
            x = m + g.vec(g.i(1, 6), 2.) * v ** .5
            xa = list(x) if g.coin() else x
            kw = {} if normed and g.coin() else {'normed': normed}
            t.pure('gaussian', lambda: fs.gaussian(xa, m, v, **kw), lambda r: dict(ret=V(r)), dict(x=V(x), m=m, v=v, normed=normed))
        return
    if k == 'cdf':
        m, v = g.u(-5, 5), g.u(.1, 9)
        a, b = m + g.u(-4, 4) * v ** .5, m + g.u(-4, 4) * v ** .5
        kw = g.choice([dict(var=v), dict(std=v ** .5), dict(std=v ** .5, var=3.)])
        if 'std' in kw:
            v = float(kw['std'])
            t.call('norm_cdf', lambda: fs.norm_cdf((a, b), m, **kw), lambda r: dict(ret=float(r)), dict(a=a, b=b, m=m, v=v * v))
        else:
            t.call('norm_cdf', lambda: fs.norm_cdf((a, b), m, **kw), lambda r: dict(ret=float(r)), dict(a=a, b=b, m=m, v=v))
        return
    n = g.dim([1, 2, 2, 3, 4], (5, 8))
    m = g.vec(n, 3.)
    C = g.spd(n, s)
    x = m + np.round(g.vec(n, 1.5) * s ** .5, 12)
    Ca = C
    if g.coin(.25):
        q = g.u(.2, 3) * s
        C, Ca = np.eye(n) * q, q
    elif g.coin(.2):
        Ca = C.tolist()
    a = dict(x=M(x), m=M(m), C=C)
    if k == 'mvg':
        t.call('multivariate_gaussian', lambda: fs.multivariate_gaussian(vecform(g, x), vecform(g, m), Ca), lambda r: dict(ret=float(r)), a)
    elif k == 'logpdf':
        mm = vecform(g, m)
        if g.coin(.15) and np.ndim(Ca) > 0:
            a['m'], mm = np.zeros((n, 1)), None
            a['x'] = M(x)
        t.pure('logpdf', lambda: fs.logpdf(vecform(g, x), mm, Ca), lambda r: dict(ret=float(r)), a)
    elif k == 'line':
        n = max(n, 2)
        v, q, tt = np.round(g.vec(n) + .3, 2), g.u(.5, 3), g.u(-2, 2)
        m = g.vec(n, 1.)
        t.call('logpdf.line', lambda: fs.logpdf(m + tt * v, m, q * np.outer(v, v)), lambda r: dict(ret=float(r)), dict(t=tt, a=q, v=V(v)))
    elif k == 'maha':
        if np.ndim(Ca) == 0 and n > 1:
            Ca = C
        t.call('s.mahalanobis', lambda: fs.mahalanobis(vecform(g, x), vecform(g, m), Ca), lambda r: dict(ret=float(r)), a)
    elif k == 'lik':
        k = g.choice([1, 1, 2])
        H, P, R = g.H(k, n), g.spd(n), g.spd(k)
        xx = g.vec(n, 1.)
        z = np.round(H @ xx + g.vec(k) * g.far(.2, 30.), 6)
        if g.coin(.3):                           # where the density nears the least of the numbers, or passes it
            d = g.vec(k)
            Sk = H @ P @ H.T + R
            z = np.round(H @ xx + d * (2 * g.u(600, 760) / (d @ np.linalg.solve(Sk, d))) ** .5, 6)
        Ra = R
        if k == 1 and g.coin():
            Ra = float(R[0, 0])
        zz, xa = (z.reshape(-1, 1), xx.reshape(-1, 1)) if g.coin() else (z, xx)
        f = g.choice(['log_likelihood', 'likelihood'])
        t.call(f, lambda: getattr(fs, f)(zz, xa, P, H, Ra), lambda r: dict(ret=float(r)), dict(z=M(z), x=M(xx), P=P, H=H, R=R))
    else:
        bad = g.choice(['len', 'neg', 'notpd'])
        f = {'len': lambda: fs.mahalanobis(np.zeros(2), np.zeros(3), np.eye(3)),
             'neg': lambda: fs.multivariate_gaussian(1., 2., -g.u(.1, 2)),
             'notpd': lambda: fs.multivariate_gaussian([1., 2], [2., 2], [[1., 2.], [2., 1.]])}[bad]
        _, e = guarded(f)
        t.add('rejects', dict(what=bad), dict(raised=e.startswith('ValueError')))


def density(c):
    for i in range(c.n(420)):
        c.run('T_ST', 'density %d' % i, density_case, c.rng('density', i))


def nees_case(t, g):
    n, k = g.choice([1, 2, 3, 4]), g.i(1, 6)
    xs, es, Ps = g.mat(k, n, 3.), g.mat(k, n, 3.), [g.spd(n, g.choice([1., 1e-2, 1e2])) for _ in range(k)]
    form = g.i(0, 2)
    xa, ea = (xs, es) if form == 0 else (list(xs), list(es)) if form == 1 else (xs.reshape(k, n, 1), es.reshape(k, n, 1))
    Pa = np.array(Ps) if g.coin() else Ps
    t.pure('NEES', lambda: fs.NEES(xa, ea, Pa), lambda r: dict(ret=[float(np.ravel(v)[0]) for v in r]),
           dict(xs=[M(v) for v in xs], es=[M(v) for v in es], Ps=Ps))


def ellipse_case(t, g):
    C = g.spd(2, scale(g))
    k = g.i(0, 4)
    if k == 0:
        C = np.diag([g.u(.1, 1), g.u(1.5, 9)])
    if k == 1:
        C = np.diag([g.u(1.5, 9), g.u(.1, 1)])
    if k == 2:
        C = np.eye(2) * g.u(.1, 4)
    if k == 3:
        C = np.array([[2., -1.5], [-1.5, 2.]]) * g.u(.5, 2)
    d = g.choice([1, 1, 2, 3, .5])
    kw = {} if d == 1 and g.coin() else dict(deviations=d)
    t.pure('covariance_ellipse', lambda: fs.covariance_ellipse(C, **kw), lambda r: dict(ret=[float(v) for v in r]), dict(C=C, d=d))


def plot_case(t, g):
    import matplotlib.pyplot as plt
    plt.close('all')
    k = g.choice(['cov', 'cov', 'pdf', 'cdf', 'old', 'dcdf', '3d'])
    if k == 'cov':
        C, m = g.spd(2, g.choice([1., .01, 50.])), g.vec(2, 3.)
        how = g.choice(['none', 'std', 'stds', 'var', 'vars', 'int', 'ellipse'])
        s = [g.u(.5, 3) for _ in range(g.i(1, 3))]
        kw = dict(none={}, std=dict(std=s[0]), stds=dict(std=s), var=dict(variance=s[0] ** 2), vars=dict(variance=np.array(s) ** 2),
                  int=dict(interval=.95), ellipse=dict(std=s))[how]
        sds = dict(none=[1.], std=s[:1], stds=s, var=[(s[0] ** 2) ** .5], vars=s, int=[1.959963984540054], ellipse=s)[how]
        args = dict(cov=C)
        if how == 'ellipse':
            args = dict(ellipse=fs.covariance_ellipse(C))
        draw = fs.plot_covariance_ellipse if how != 'int' and g.coin(.25) else fs.plot_covariance
        t.call('plot_covariance', lambda: draw(m, show_semiaxis=g.coin(.3), **args, **kw),
               lambda r: dict(ret=[dict(xy=V(p.center), w=float(p.width), h=float(p.height), angle=float(p.angle)) for p in plt.gca().patches]),
               dict(m=V(m), C=C, sds=sds))
    elif k in ('pdf', 'cdf', 'old'):
        m, v = g.u(-3, 3), g.u(.2, 5)
        lim = None if g.coin() else [m - g.u(1, 3), m + g.u(1, 3)]
        kw = {} if lim is None else dict(xlim=lim)
        if k == 'pdf' and g.coin():
            kw.update(std=v)
            if g.coin():
                kw['variance'] = None
            vv = float(np.float64(v) * v)
        elif g.coin(.1):
            vv = 1.
        else:
            kw['variance'] = vv = v
        ax = plt.gca()
        if g.coin(.5):
            if g.coin():
                plt.figure()            # not the current axes
                plt.gca()
            kw['ax'] = ax
        mean = k != 'cdf' and g.coin(.3)
        if mean:
            kw['mean_line'] = True
        pick = sorted(g.p.sample(range(1000), 9))

        def look(r):
            x, y = [np.asarray(q, float) for q in ax.lines[0].get_data()]
            n = len(x)
            i = [p * n // 1000 for p in pick]
            o = dict(x=V(x[i]), y=V(y[i]), x0=x[0], x1=x[-1], same=r is ax, mean=None)
            if len(ax.lines) > 1:
                o['mean'] = V(np.asarray(ax.lines[1].get_xdata(), float))
            return o
        f = dict(pdf=fs.plot_gaussian_pdf, cdf=fs.plot_gaussian_cdf, old=fs.plot_gaussian)[k]
        t.call('plot_line', lambda: f(mean=m, **kw), look,
               dict(what='cdf' if k == 'cdf' else 'pdf', m=m, v=vv, lim=lim, line=mean))
    elif k == 'dcdf':
        ys = g.r.rand(g.i(1, 7))
        xs = None if g.coin() else V(np.cumsum(g.r.rand(len(ys)) + .1))
        t.call('plot_discrete_cdf', lambda: fs.plot_discrete_cdf(xs, ys),
               lambda ax: dict(x=V(ax.lines[0].get_xdata()), y=V(ax.lines[0].get_ydata())), dict(xs=xs, ys=V(ys)))
    else:
        C, m, std = g.spd(3, g.choice([1., .01, 50.])), g.vec(3, 2.), g.choice([1., 2., .5])
        got = {}
        from mpl_toolkits.mplot3d import Axes3D
        old = Axes3D.plot_surface

        def spy(self, X, Y, Z, *a, **kw):
            got['p'] = [V(X), V(Y), V(Z)]
            return old(self, X, Y, Z, *a, **kw)
        Axes3D.plot_surface = spy
        try:
            pts = lambda: [[got['p'][j][i] for j in range(3)] for i in range(0, len(got['p'][0]), 37)]
            t.call('plot_3d', lambda: fs.plot_3d_covariance(m if g.coin() else m.reshape(-1, 1), C, std=std, N=16),
                   lambda r: dict(pts=pts()), dict(m=M(m), C=C, std=std))
        finally:
            Axes3D.plot_surface = old
    plt.close('all')


def student_case(t, g, n):
    df, mu, std = g.choice([2, 4]), g.u(-3, 3), g.u(.5, 3)
    ts = [-2., -1., -.3, 0., .5, 1., 2.5]
    random.seed(g.i(0, 10 ** 9))
    np.random.seed(g.i(0, 10 ** 9))
    t.call('rand_student_t', lambda: np.array([fs.rand_student_t(df, mu, std) for _ in range(n)]),
           lambda r: dict(ret=[float(np.mean(r <= mu + q * std)) for q in ts]), dict(df=Raw(df), ts=ts, n=Raw(n)))


def summary(c):
    for i in range(c.n(120)):
        c.run('T_ST', 'NEES %d' % i, nees_case, c.rng('nees', i))
    for i in range(c.n(140)):
        c.run('T_ST', 'ellipse %d' % i, ellipse_case, c.rng('ellipse', i))
    for i in range(c.n(60, 300)):
        c.run('T_ST', 'plot %d' % i, plot_case, c.rng('plot', i))
    for i in range(c.n(6, 30)):
        c.run('T_ST', 'student %d' % i, student_case, c.rng('student', i), c.n(4000, 40000))
