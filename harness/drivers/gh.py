"""g-h and g-h-k filters, least squares and fading memory filters (specs GH, T_GH)."""
import numpy as np
import filterpy.gh as gh
from filterpy.gh import GHFilter, GHKFilter, GHFilterOrder
from filterpy.leastsq import LeastSquaresFilter
from filterpy.memory import FadingMemoryFilter
from filterpy.common import Saver
from rec import M, V, Raw, twin


def stable(g):
    """gains of a stable filter"""
    th = g.u(.1, .9)
    return 1 - th ** 2, (1 - th) ** 2


def stable3(g):
    th = g.u(.1, .85)
    return 1 - th ** 3, 1.5 * (1 - th ** 2) * (1 - th), .5 * (1 - th) ** 3


def gh_obs(f, k3):
    o = dict(x=M(f.x), dx=M(f.dx), xp=M(f.x_prediction), dxp=M(f.dx_prediction), y=M(f.y), z=M(f.z), g=f.g, h=f.h, dt=f.dt)
    if k3:
        o.update(ddx=M(f.ddx), ddxp=M(f.ddx_prediction), k=f.k)
    return o


def gh_case(t, g, k3, only=None, copies=0):
    t.scope = only
    pre = 'ghk' if k3 else 'gh'
    n = g.choice([0, 0, 0, 2, 3])
    mk = lambda s=2.: g.num(s) if n == 0 else g.vec(n, s) * g.far()
    dt = g.dt()
    G, H = stable(g) if not k3 else stable3(g)[:2]
    K = stable3(g)[2]
    if k3:
        G, H, K = stable3(g)
    x, dx, ddx = mk(), mk(), mk()
    if n == 0 and g.coin(.2):
        x = g.i(-3, 3)
    a = dict(x=M(x), dx=M(dx), g=G, h=H, dt=dt)
    if k3:
        a.update(ddx=M(ddx), k=K)
    f = t.call(pre + '.new', lambda: GHKFilter(x, dx, ddx, dt, G, H, K) if k3 else GHFilter(x, dx, dt, G, H), lambda r: gh_obs(r, k3), a, chk=True)
    if f is None:
        return
    ops = ['update', 'update', 'update:g', 'batch', 'vrf', 'set'] + (['bias'] if k3 else [])
    turns = g.coin(.3)                  # a long life of two operations in turn
    if turns:
        ops = [g.choice(ops), g.choice(ops)]
    for _ in range(g.i(10, 16) if turns else g.i(1, 6)):
        op = g.choice(ops)
        if copies and g.coin(copies):
            f = t.call(pre + '.copied', lambda: twin(f, g), lambda r: gh_obs(r, k3))
            if f is None:
                return
        if op.startswith('update'):
            z = mk()
            a, kw = dict(z=M(z), g=None, h=None, k=None), {}
            for nm in ('g', 'h', 'k')[:3 if k3 else 2]:
                if op == 'update:g' and g.coin(.7):
                    kw[nm] = a[nm] = g.choice([g.u(.1, .9), 0.])
            t.call(pre + '.update', lambda: f.update(z, **kw), lambda r: dict(gh_obs(f, k3), ret=[M(r[0]), M(r[1])]), a)
        elif op == 'batch' and n == 0:
            zs = [g.num() for _ in range(g.choice([g.i(0, 6), g.i(0, 6), g.i(7, 25)]))]
            kw = {}
            if g.coin():
                kw['save_predictions'] = True
            if g.coin(.3) and not k3:
                kw['saver'] = sv = Saver(f)
            data = np.array(zs) if g.coin() else zs

            def look(r):
                o = gh_obs(f, k3)
                if kw.get('save_predictions'):
                    o['pred'] = V(r[1])
                    r = r[0]
                o['ret'] = np.asarray(r)
                if 'saver' in kw:
                    o['saved'] = Raw(len(sv))
                return o
            t.call(pre + '.batch', lambda: f.batch_filter(data, **kw), look, dict(zs=zs, save='save_predictions' in kw, saver='saver' in kw))
        elif op == 'vrf':
            t.call(pre + '.vrf', lambda: (f.VRF(), f.VRF_prediction()), lambda r: dict(gh_obs(f, k3), ret=[list(r[0]), r[1]]))
        elif op == 'bias':
            j = g.u(-2, 2)
            t.call('ghk.bias', lambda: f.bias_error(j), lambda r: dict(gh_obs(f, k3), ret=r), dict(j=j))
        elif op == 'set':
            f.dt = g.dt()
            f.g, f.h = stable(g)
            if k3:
                f.g, f.h, f.k = stable3(g)
            t.call(pre + '.new', lambda: None, lambda r: gh_obs(f, k3), {}, chk=True)


def gho_case(t, g, copies=0):
    p = g.i(0, 2)
    dt = g.dt()
    x0 = g.num(3.) if g.coin() else g.vec(p + 1, 2.)
    if np.ndim(x0) and g.coin(.3):
        x0 = np.round(x0).astype(int)
    G, H, K = stable3(g)
    args = (G, H, K)[:p + 1]
    full = np.zeros(p + 1)
    full[0:1] = np.ravel(x0)[0]
    if np.ndim(x0):
        full = np.array(x0, float)
    keep = np.array(x0, float)
    ob = lambda f: dict(x=M(f.x), y=f.y if np.ndim(f.y) == 0 else V(f.y), z=f.z if np.ndim(f.z) == 0 else V(f.z), g=f.g, h=f.h, k=f.k, dt=f.dt, order=f.order)
    f = t.call('gho.new', lambda: GHFilterOrder(x0, dt, p, *args), lambda r: ob(r), dict(x=M(full), g=G, dt=dt, order=p))
    if f is None:
        return
    for _ in range(g.choice([g.i(1, 6), g.i(1, 6), g.i(8, 20)])):
        z = g.num(3.)
        if copies and g.coin(copies):
            f = t.call('gho.copied', lambda: twin(f, g), ob)
            if f is None:
                return
        if g.coin(.15):
            f.dt = g.dt()
            f.g, f.h, f.k = (stable3(g) + (None,))[:3] if p == 2 else (stable(g) + (None,))[:3] if p else (g.u(.1, .9), None, None)
            t.call('gho.new', lambda: None, lambda r: ob(f), {})
        a, kw = dict(z=z, g=None, h=None, k=None), {}
        if g.coin(.4):
            for nm in ('g', 'h', 'k')[:p + 1]:
                if g.coin(.7):
                    kw[nm] = a[nm] = g.choice([g.u(.1, .9), 0.])
        t.call('gho.update', lambda: f.update(z, **kw), lambda r: ob(f), a)
    if np.any(keep != np.array(x0, float)):
        t.add('driver', {}, {}, "caller's x0 changed")


def ghs(c):
    up = ('gh.update', 'ghk.update', 'gho.update', 'gh.batch', 'ghk.batch', 'gh.new', 'ghk.new')
    for i in range(c.n(130)):
        c.run('T_GH', 'gh %d' % i, gh_case, c.rng('gh', i), False, up)
    for i in range(c.n(130)):
        c.run('T_GH', 'ghk %d' % i, gh_case, c.rng('ghk', i), True, up)
    for i in range(c.n(130)):
        c.run('T_GH', 'g-h order %d' % i, gho_case, c.rng('gho', i))


def batch(c):
    for i in range(c.n(30)):
        c.run('T_GH', 'gh batch %d' % i, gh_case, c.rng('ghb', i), False, ('gh.batch',))
        c.run('T_GH', 'ghk batch %d' % i, gh_case, c.rng('ghkb', i), True, ('ghk.batch',))


def copies(c):
    for i in range(c.n(15)):
        c.run('T_GH', 'copies gh %d' % i, gh_case, c.rng('cpg', i), False, None, .5)
        c.run('T_GH', 'copies ghk %d' % i, gh_case, c.rng('cpk', i), True, None, .5)
        c.run('T_GH', 'copies g-h order %d' % i, gho_case, c.rng('cpo', i), .5)
        c.run('T_GH', 'copies least squares %d' % i, lsq_case, c.rng('cpq', i), .2)
        c.run('T_GH', 'copies fading memory %d' % i, fm_case, c.rng('cpf', i), .5)


def design_case(t, g):
    n = g.i(0, 60)
    call = lambda nm, f, a: t.call(nm, f, lambda r: dict(ret=list(r)), a)
    call('least_squares_parameters', lambda: gh.least_squares_parameters(n), dict(n=Raw(n)))
    th, o = g.choice([g.u(0, 1), g.u(0, 1), 0., 1.]), g.choice([2, 3])
    call('critical_damping_parameters', lambda: gh.critical_damping_parameters(th, o) if o == 3 or g.coin() else gh.critical_damping_parameters(th),
         dict(theta=th, order=Raw(o)))
    gg, cr = g.u(.05, .99), g.coin()
    call('benedict_bornder_constants', lambda: gh.benedict_bornder_constants(gg, critical=True) if cr else gh.benedict_bornder_constants(gg),
         dict(g=gg, critical=cr))
    g2 = g.choice([g.u(.02, .92), g.u(.9, .999)])
    call('optimal_noise_smoothing', lambda: gh.optimal_noise_smoothing(g2), dict(g=g2))


def vrf_case(t, g, k3):
    G, H, K = stable3(g)
    if not k3:
        G, H = stable(g)
    dt = g.dt()
    f = GHKFilter(0., 0., 0., dt, G, H, K) if k3 else GHFilter(0., 0., dt, G, H)
    pre = 'ghk' if k3 else 'gh'
    t.call(pre + '.new', lambda: None, lambda r: gh_obs(f, k3))
    t.call(pre + '.vrf', lambda: (f.VRF(), f.VRF_prediction()), lambda r: dict(gh_obs(f, k3), ret=[list(r[0]), r[1]]))
    if k3:
        j = g.u(-2, 2)
        t.call('ghk.bias', lambda: f.bias_error(j), lambda r: dict(gh_obs(f, k3), ret=r), dict(j=j))


def ls_gain_case(t, g):
    dt, n = g.dt(), g.i(2, 9)
    zs = list(g.vec(n, 3.))
    f = GHFilter(0., 0., dt, 0., 0.)

    def go():
        for i, z in enumerate(zs):
            f.update(z, *gh.least_squares_parameters(i))
        return [f.x, f.dx]
    t.call('ls_gains', go, lambda r: dict(ret=r), dict(zs=zs, dt=dt))


def design(c):
    for i in range(c.n(120)):
        c.run('T_GH', 'gain design %d' % i, design_case, c.rng('design', i))
    for i in range(c.n(60)):
        c.run('T_GH', 'variance reduction %d' % i, vrf_case, c.rng('vrf', i), i % 2 == 1)
    for i in range(c.n(30)):
        c.run('T_GH', 'least squares gains %d' % i, ls_gain_case, c.rng('lsg', i))


def lsq_case(t, g, copies=0):
    p, dt, s = g.i(0, 2), g.dt(), g.choice([0., 1., g.u(0, 3)])
    f = LeastSquaresFilter(dt, p, s) if g.coin(.8) or s else LeastSquaresFilter(dt, p)
    a = dict(order=p, dt=dt, sigma=s)
    fresh = lambda r: dict(zero=[V(f.x), V(f.K), V(f.y), f.n], lens=[Raw(len(f.x)), Raw(len(f.K))])
    t.call('lsq.new', lambda: None, fresh, a)
    for rep in range(g.choice([1, 1, 2])):
        for _ in range(g.choice([g.i(1, 12), g.i(1, 12), g.i(1, 40), g.i(1, 40), g.i(60, 140) if g.coin(.2) else 20])):
            z = g.num(4.)
            if copies and g.coin(copies):
                f = t.call('lsq.copied', lambda: twin(f, g), lambda r: dict(x=V(r.x), n=Raw(r.n)))
                if f is None:
                    return
            t.call('lsq.update', lambda: f.update(z), lambda r: dict(x=V(f.x), n=Raw(f.n), ret=V(r)), dict(z=z))
            if g.coin(.3):
                t.call('lsq.errors', lambda: f.errors(), lambda r: dict(error=V(r[0]), std=V(r[1])))
        if rep == 0 and g.coin(.5):
            t.call('lsq.errors', lambda: f.errors(), lambda r: dict(error=V(r[0]), std=V(r[1])))
        if g.coin(.3):
            f.dt, f.sigma = g.dt(), g.u(0, 3)
            a = dict(a, dt=f.dt, sigma=f.sigma)
        t.call('lsq.reset', lambda: f.reset(), fresh, a)


def lsq(c):
    for i in range(c.n(130)):
        c.run('T_GH', 'least squares %d' % i, lsq_case, c.rng('lsq', i))


def fm_case(t, g, copies=0):
    p, dt, b = g.i(0, 2), g.dt(), g.choice([g.u(.02, .95), .5, 0., 0])
    x0 = g.num(3.) if g.coin() else g.vec(p + 1, 2.)
    k = g.i(0, 3)
    if k == 0:
        x0 = np.round(x0).astype(int) if np.ndim(x0) else int(x0)
    elif k == 1 and np.ndim(x0):
        x0 = list(x0)
    full = np.zeros(p + 1)
    full[0] = np.ravel(x0)[0]
    if np.ndim(x0):
        full = np.array(x0, float)
    keep = np.array(x0, float)
    ob = lambda f: dict(x=M(f.x), P=V(f.P), err=V(f.e), order=f.order, beta=f.beta, dt=f.dt)
    f = t.call('fm.new', lambda: FadingMemoryFilter(x0, dt, p, b), lambda r: ob(r), dict(p=Raw(p), b=b, dt=dt, x=M(full)))
    if f is None:
        return
    changing = g.coin(.3)
    for _ in range(g.choice([g.i(1, 8), g.i(1, 8), g.i(9, 30)])):
        z = g.num(3.)
        if copies and g.coin(copies):
            f = t.call('fm.copied', lambda: twin(f, g), ob)
            if f is None:
                return
        if changing and g.coin(.2):
            if g.coin():
                f.dt = g.dt()
            else:
                f.beta = g.u(.02, .95)
            t.call('fm.set', lambda: None, lambda r: ob(f), dict(beta=f.beta, dt=f.dt))
        t.call('fm.update', lambda: f.update(z), lambda r: ob(f), dict(z=z))
    if np.any(keep != np.array(x0, float)):
        t.add('driver', {}, {}, "caller's x0 changed")


def fm(c):
    for i in range(c.n(200)):
        c.run('T_GH', 'fading memory %d' % i, fm_case, c.rng('fm', i))
