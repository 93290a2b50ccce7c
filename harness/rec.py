"""Recording executions of filterpy as traces for TLC.

Numbers are written exactly: a double is the rational float.as_integer_ratio
gives, so the specification sees precisely what the code computed."""
import copy, json, math, os, pickle, random, signal, sys, warnings
import numpy as np
from units import Units, units, fn
np.seterr(all='ignore')
warnings.simplefilter('ignore')


class Raw:
    """a structural integer (a length, an index), not a measured number"""
    def __init__(self, v):
        self.v = v


def num(x):
    if isinstance(x, (complex, np.complexfloating)):
        return '#nan' if abs(x.imag) > 0 else num(x.real)
    if isinstance(x, (bool, np.bool_)):
        return '#1' if x else '#0'
    if isinstance(x, (int, np.integer)):
        return '#%d' % int(x)
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        return '#nan'
    n, d = x.as_integer_ratio()
    return '#%d' % n if d == 1 else '#%d/%d' % (n, d)


def enc(v):
    """any Python value -> JSON, keeping the shape it has"""
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, Raw):
        return int(v.v)
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, float, np.integer, np.floating, complex, np.complexfloating)):
        return num(v)
    if isinstance(v, dict):
        return {str(k): enc(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        if v.ndim == 0:
            return enc(v.item())
        return [enc(x) for x in v]
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    return '?' + type(v).__name__


def M(v):
    """matrix view: scalar -> 1x1, vector -> column; anything else as it is"""
    if v is None:
        return None
    try:
        a = np.asarray(v)
        if a.dtype == object:
            a = np.array([[(np.nan if e is None else e) for e in np.atleast_1d(r)] for r in np.atleast_1d(a)])
            if a.dtype == object:
                return '?object'
            if np.all([e != e for e in a.ravel()]):
                return 'ALLNONE'
    except Exception:
        return '?' + type(v).__name__
    if a.ndim == 0:
        a = a.reshape(1, 1)
    elif a.ndim == 1:
        a = a.reshape(-1, 1)
    return a


def V(v):
    """vector view: flattened, as a tuple"""
    return None if v is None else list(np.asarray(v).ravel())


def shape(v):
    if v is None:
        return None
    try:
        return [Raw(s) for s in np.shape(v)]
    except Exception:
        return '?'


class Inv:
    """an inverse of the user's own: that of A + b I"""
    def __init__(self, b):
        self.b = b

    def __call__(self, A):
        return np.linalg.inv(A + self.b * np.eye(len(A)))


def ivof(f):
    return getattr(f.inv, 'b', 0.)


def assign(f, name, v, inplace):
    """f.name = v, or f.name[...] = v where that attribute is an array one can write into"""
    if isinstance(f, Units):
        return assign(f.f_, name, f.raw_(name, v), inplace)
    if inplace:
        cur = getattr(f, name, None)
        if isinstance(cur, np.ndarray) and cur is getattr(f, name) and cur.dtype == float and cur.flags.writeable and cur.shape == np.shape(v):
            cur[...] = v
            return
    setattr(f, name, v)


def _spoil(f):
    """nothing of f is what it was"""
    for k, v in list(vars(f).items()):
        if isinstance(v, np.ndarray) and v.dtype == float and v.flags.writeable:
            v[...] = 99.
        elif isinstance(v, list):
            for e in v:
                if isinstance(e, np.ndarray) and e.dtype == float and e.flags.writeable:
                    e[...] = 99.
                elif hasattr(e, '__dict__') and not callable(e):
                    _spoil(e)
        elif isinstance(v, float) and not isinstance(getattr(type(f), k, None), property):
            try:
                setattr(f, k, 99.)
            except Exception:
                pass
        elif hasattr(v, '__dict__') and type(v).__module__.startswith('filterpy'):
            _spoil(v)


def twin(f, g):
    """a copy of f, or f after it was copied; the other of the two has been ruined"""
    if isinstance(f, Units):
        return Units(twin(f.f_, g), f.kind_, f.ux_, f.uz_)
    how = g.i(0, 2)
    c = None
    if how == 0:
        try:
            c = pickle.loads(pickle.dumps(f))
        except Exception:          # the functions of some filters cannot be pickled
            pass
    c = c or copy.deepcopy(f)
    a, b = (c, f) if g.coin(.7) else (f, c)
    _spoil(b)
    return a


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout('timeout')


def guarded(f, *a, _tb=False, _secs=20, **k):
    """call f; returns (value, '') or (None, 'ExceptionName: text')"""
    old = signal.signal(signal.SIGALRM, _alarm)
    left = signal.alarm(_secs if not _tb else 60)
    try:
        return f(*a, **k), ''
    except Timeout:
        return None, 'Timeout'
    except BaseException as ex:  # noqa -- any failure of the code is an observation
        if isinstance(ex, KeyboardInterrupt):
            raise
        where = ''
        if _tb:
            import traceback
            where = ' @ ' + ' < '.join('%s:%d' % (os.path.basename(q.filename), q.lineno)
                                       for q in reversed(traceback.extract_tb(ex.__traceback__)[-3:]))
        return None, ('%s: %s%s' % (type(ex).__name__, str(ex)[:200], where)).replace('"', "'")
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.alarm(left)


class Trace:
    """the events recorded on one object; scope: the operations whose events are
    checked (the others only bring the object into a state)"""
    def __init__(self, label, scope=None):
        self.label, self.ev, self.scope, self.dead = label, [], scope, False

    def add(self, ev, a=None, o=None, x='', chk=None):
        if self.dead:
            return
        if chk is None:
            chk = self.scope is None or ev in self.scope or ev == 'driver'
        if x and not chk:
            self.dead = True
            return
        self.ev.append({'ev': ev, 'a': enc(a or {}), 'o': enc(o or {}), 'x': x, 'chk': chk})
        if x:
            self.dead = True

    def call(self, ev, f, observe, a=None, chk=None):
        """run f(), then record observe(result)"""
        if self.dead:
            return None
        r, x = guarded(f)
        o, x2 = guarded(observe, r) if not x else ({}, '')
        self.add(ev, a, o if o is not None else {}, x or x2, chk)
        return r

    def pure(self, ev, f, observe, a=None, chk=None):
        """a function that keeps nothing: what it returned is the caller's, who overwrites it, and asks again
        (an identical answer is the same event, and is not judged twice)"""
        r = self.call(ev, f, observe, a, chk)
        _ruin(r)
        n = len(self.ev)
        r = self.call(ev, f, observe, a, chk)
        if len(self.ev) > n and self.ev[n] == self.ev[n - 1]:
            self.ev.pop()
        return r


def _ruin(r):
    if isinstance(r, np.ndarray):
        if r.dtype == float and r.flags.writeable:
            r[...] = 99.
    elif isinstance(r, (list, tuple)):
        for e in r:
            _ruin(e)
    elif hasattr(r, '__dict__') and type(r).__module__.startswith('filterpy'):
        _spoil(r)


class Rng:
    """the numbers of one generated case: random, but well conditioned"""
    def __init__(self, seed):
        self.r = np.random.RandomState(seed % (2 ** 32))
        self.p = random.Random(seed)
        self.ints = False       # whole numbers, in integer arrays

    def vec(self, n, s=1.):
        if self.ints:
            return self.r.randint(-3, 4, n)
        return np.round(self.r.randn(n) * s, 4)

    def mat(self, n, m, s=1.):
        if self.ints and s >= .5:
            return self.r.randint(-2, 3, (n, m))
        return np.round(self.r.randn(n, m) * s, 4)

    def spd(self, n, s=1.):
        if self.ints and s >= .3:
            a = self.r.randint(-1, 2, (n, n))
            return a @ a.T + np.diag(self.r.randint(1, 4, n))
        a = self.r.randn(n, n) * .5
        p = a @ a.T + np.diag(self.r.uniform(.5, 1.5, n))
        p = np.round(p * s, 10)
        return (p + p.T) / 2

    def dim(self, small, big=(4, 8), p=.05):
        """a dimension: one of `small`, now and then a large one"""
        return self.i(*big) if self.coin(p) else self.choice(small)

    def F(self, n):
        if self.ints:
            return np.eye(n, dtype=int) + np.triu(self.r.randint(-1, 2, (n, n)), 1)
        return np.round(np.eye(n) * self.r.uniform(.6, 1.1) + self.r.randn(n, n) * (.3 if n < 4 else .12), 4)

    def H(self, m, n):
        if self.ints:
            return np.eye(m, n, dtype=int) + np.triu(self.r.randint(-1, 2, (m, n)), 1)
        return np.round(self.r.randn(m, n) + np.eye(m, n), 4)

    def u(self, a=0., b=1.):
        return round(float(self.r.uniform(a, b)), 4)

    def uz(self, a, b, ok=True):
        """a number in [a, b] or, now and then and where it is meaningful, zero"""
        return self.choice([0., 0]) if self.coin(.15) and ok else self.u(a, b)

    def far(self, p=.05, k=1000.):
        """a factor for a measurement: now and then one far out, or zero"""
        return self.choice([k, -k, 0.]) if self.coin(p) else 1.

    def num(self, s=2.):
        """a scalar measurement or state, as users hand them over"""
        k = self.r.rand()
        if k < .75:
            return self.u(-s, s)
        return self.choice([0., 0, self.i(-9, 9), np.float64(self.u(-s, s)), 1000. * self.u(-s, s), self.u(-s, s) / 512])

    def dt(self):
        """a step length"""
        return self.choice([1., .1, .5, 2., 1, self.u(.01, .1), self.u(.1, 3.), 10., 3])

    def i(self, a, b):
        return int(self.r.randint(a, b + 1))

    def choice(self, s):
        return s[int(self.r.randint(len(s)))]

    def coin(self, p=.5):
        return bool(self.r.rand() < p)


def write(traces, path):
    with open(path, 'w') as f:
        for t in traces:
            f.write(json.dumps(t.ev) + '\n')
