#!/usr/bin/env python3
"""Mutation analysis of the machinery (development aid; not a registered check).

    mutate.py OUT.jsonl [-n COUNT] [-j JOBS] [-s SEED] [-f FILE-REGEX] [-l LINES-FILE]

Generates small changes of filterpy's source in scratch copies, runs the checks of the
properties anchored in the changed file (traces only: the model checking does not depend
on the code) and records which check, if any, reports each.  Survivors are read by hand:
they are equivalent, outside every property, or a gap to close."""
import ast, json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue, argparse
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FILES = {
    'kalman/kalman_filter.py': 'C02 C01 C04 C05 C07 C06 C08 C03 C09 C14 C33 C36 C32 C37',
    'kalman/EKF.py': 'C10 C03 C09 C14 C33 C37',
    'kalman/UKF.py': 'C12 C06 C08 C03 C09 C14 C33 C37',
    'kalman/CubatureKalmanFilter.py': 'C13 C03 C09 C14 C33 C37',
    'kalman/sigma_points.py': 'C11 C12 C33 C36',
    'kalman/unscented_transform.py': 'C11 C12 C33',
    'kalman/ensemble_kalman_filter.py': 'C15 C03 C33',
    'kalman/fading_memory.py': 'C18 C06 C03 C09 C14 C33',
    'kalman/IMM.py': 'C20 C03 C33', 'kalman/mmae.py': 'C21 C03 C33',
    'kalman/square_root.py': 'C17 C03 C14 C33 C37', 'kalman/fixed_lag_smoother.py': 'C22 C33 C03',
    'kalman/information_filter.py': 'C16 C03 C09 C14 C33', 'stats/stats.py': 'C30 C29 C31 C33 C09',
    'discrete_bayes/discrete_bayes.py': 'C27 C33', 'gh/gh_filter.py': 'C23 C24 C06 C33',
    'common/helpers.py': 'C36 C32 C33', 'common/discretization.py': 'C34 C33', 'common/kinematic.py': 'C35 C33',
    'leastsq/least_squares.py': 'C25 C33', 'hinfinity/hinfinity_filter.py': 'C19 C03 C06 C33',
    'monte_carlo/resampling.py': 'C28 C33', 'memory/fading_memory.py': 'C26 C33',
}
PAIRS = [('x', 'x_prior'), ('P', 'P_prior'), ('x', 'x_post'), ('P', 'P_post'), ('x_prior', 'x'), ('P_prior', 'P'),
         ('x_post', 'x'), ('P_post', 'P'), ('y', 'z'), ('S', 'SI'), ('SI', 'S'), ('Q', 'R'), ('mu', 'cbar'), ('Wm', 'Wc'), ('Wc', 'Wm'),
         ('sigmas_f', 'sigmas_h'), ('F', 'H'), ('dt', '_dt'), ('_dim_x', '_dim_z'), ('dim_x', 'dim_z')]


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    tree = ast.parse(src)
    par = {}
    for p in ast.walk(tree):
        for ch in ast.iter_child_nodes(p):
            par[ch] = p
    out = []

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def emit(n, new, kind):
        s, e = pos(n)
        if not isinstance(new, str):
            new = ast.unparse(ast.fix_missing_locations(new))
            if not isinstance(n, ast.stmt):
                new = '(' + new + ')'
        out.append((n.lineno, kind, b[s:e].decode(), new, s, e))

    def skip(n):
        while n in par:
            n = par[n]
            if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
                return True
            if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', 'pretty_str'):
                return True
            if isinstance(n, ast.If) and '__main__' in ast.unparse(n.test):
                return True
        return False

    def fn(n):
        while n in par:
            n = par[n]
            if isinstance(n, ast.FunctionDef):
                return n

    def cls_attrs(n):
        while n in par:
            n = par[n]
            if isinstance(n, ast.ClassDef):
                return {a.attr for a in ast.walk(n) if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == 'self'}
        return set()

    cp = lambda n: ast.parse(ast.unparse(n), mode='eval').body
    for n in ast.walk(tree):
        if skip(n) or not hasattr(n, 'lineno'):
            continue
        if isinstance(n, ast.BinOp):
            m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op))
            if m and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                c = cp(n); c.op = m(); emit(n, c, 'op')
        elif isinstance(n, ast.Attribute) and n.attr == 'T' and isinstance(n.ctx, ast.Load):
            emit(n, cp(n).value, 'noT')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
                 ast.Gt: ast.GtE, ast.GtE: ast.Gt}.get(type(n.ops[0]))
            if m:
                c = cp(n); c.ops = [m()]; emit(n, c, 'cmp')
        elif isinstance(n, ast.BoolOp):
            c = cp(n); c.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); emit(n, c, 'bool')
        elif isinstance(n, ast.Constant) and n.value is not None and not isinstance(n.value, (str, bytes)):
            if isinstance(n.value, bool):
                emit(n, repr(not n.value), 'const')
            elif isinstance(n.value, int):
                emit(n, repr(n.value + 1), 'const')
                if n.value in (1, 2):
                    emit(n, repr(n.value - 1), 'const')
            else:
                emit(n, repr(n.value * 1.5 + (1 if n.value == 0 else 0)), 'const')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            emit(n, cp(n).operand, 'unary')
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f.split('.')[-1] in ('copy', 'deepcopy', 'asarray', 'array', 'atleast_2d', 'atleast_1d', 'reshape', 'ravel', 'flatten'):
                if n.args:
                    emit(n, cp(n).args[0], 'nocopy')
                elif isinstance(n.func, ast.Attribute):
                    emit(n, cp(n).func.value, 'nocopy')
            if f.split('.')[-1] in ('dot', 'outer') and len(n.args) == 2:
                c = cp(n); c.args = c.args[::-1]; emit(n, c, 'swap')
            for i in range(len(n.keywords)):
                if n.keywords[i].arg:
                    c = cp(n); del c.keywords[i]; emit(n, c, 'dropkw')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                continue
            emit(n, 'pass', 'del')
            if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
                t = b[slice(*pos(n))].decode()
                emit(n, t.replace('+=', '-=', 1) if '+=' in t else t.replace('-=', '+=', 1), 'aug')
        if isinstance(n, ast.If) and not n.orelse and len(n.body) == 1 and isinstance(n.test, ast.Compare) and \
                isinstance(n.test.ops[0], ast.Is) and isinstance(n.test.left, ast.Name) and isinstance(n.body[0], ast.Assign) and \
                'self.' in ast.unparse(n.body[0].value):          # an argument that stays for later calls
            ind = ' ' * n.col_offset
            src = [w.attr for w in ast.walk(n.body[0].value) if isinstance(w, ast.Attribute) and isinstance(w.value, ast.Name) and w.value.id == 'self']
            emit(n, b[slice(*pos(n))].decode() + '\n%selse:\n%s    self.%s = %s' % (ind, ind, src[0], n.test.left.id), 'leak')
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and \
                isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == 'self' and fn(n) and fn(n).name != '__init__' \
                and not isinstance(n.value, ast.Constant):
            t, v = ast.unparse(n.targets[0]), ast.unparse(n.value)
            ind = ' ' * n.col_offset
            emit(n, 'try: %s[...] = %s\n%sexcept Exception: %s = %s' % (t, v, ind, t, v), 'inplace')
            emit(n, 'if not hasattr(self, "_once%d"): self._once%d = %s\n%s%s = self._once%d' % (n.lineno, n.lineno, v, ind, t, n.lineno), 'once')
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in cls_attrs(n) and fn(n) and \
                n.id in [a.arg for a in fn(n).args.args] and n.id not in ('self',) and fn(n).name != '__init__':
            emit(n, 'self.' + n.id, 'self')
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' and isinstance(n.ctx, ast.Load):
            at = cls_attrs(n)
            for a, c in PAIRS:
                if n.attr == a and c in at:
                    emit(n, 'self.' + c, 'pair')
            if fn(n) and n.attr in [a.arg for a in fn(n).args.args]:
                emit(n, n.attr, 'unself')
    # the same changes, of effect only for an object used often, or of three states or more
    for n in list(ast.walk(tree)):
        if not isinstance(n, ast.expr) or skip(n) or not fn(n) or fn(n).name == '__init__' or not isinstance(par.get(n), (ast.Assign, ast.Return)):
            continue
        if [a.arg for a in fn(n).args.args][:1] != ['self']:
            continue
        if isinstance(n, (ast.Tuple, ast.Constant)) or n is not par[n].value:
            continue
        old = b[slice(*pos(n))].decode()
        c = 'self.__dict__.__setitem__("_u%d", self.__dict__.get("_u%d", 0) + 1) or self._u%d' % ((n.lineno,) * 3)
        emit(n, '(%s if (%s) < 5 else (%s)*1.01)' % (old, c, old), 'late')
        emit(n, '(%s if len(self.x) < 3 else (%s)*1.01)' % (old, old), 'big')
    res = []
    for ln, kind, old, new, s, e in out:
        if old.strip('()') == new.strip('()'):
            continue
        t = b[:s] + new.encode() + b[e:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append((ln, kind, old, new, t))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('-n', type=int, default=100); ap.add_argument('-j', type=int, default=4)
    ap.add_argument('-s', type=int, default=1); ap.add_argument('-f', default='.'); ap.add_argument('-k', default='.*')
    ap.add_argument('--redo')             # survivors of an earlier run, again
    ap.add_argument('--list', action='store_true')
    o = ap.parse_args()
    al = []
    for f in sorted(FILES):
        if re.search(o.f, f):
            FILES[f] += ' C38' * ('kalman' in f or f[:2] in ('gh', 'hi', 'le', 'me'))
            al += [(f,) + m for m in mutants(os.path.join(REPO, 'filterpy', f))]
    al = [a for a in al if re.fullmatch(o.k, a[2])]
    random.Random(o.s).shuffle(al)
    if o.redo:
        want = {(d['file'], d['line'], d['old'], d['new']) for d in map(json.loads, open(o.redo)) if not d['by']}
        al = [a for a in al if (a[0], a[1], a[3], a[4]) in want]
        o.n = len(al)
    if o.list:
        print(len(al))
        return
    done = set()
    if os.path.exists(o.out):
        done = {(d['file'], d['line'], d['old'], d['new']) for d in map(json.loads, open(o.out))}
    q = queue.Queue()
    for a in al[:o.n]:
        if (a[0], a[1], a[3], a[4]) not in done:
            q.put(a)
    lock = threading.Lock()

    def work(i):
        d = tempfile.mkdtemp(prefix='mut-')
        shutil.copytree(REPO + '/filterpy', d + '/filterpy', ignore=shutil.ignore_patterns('tests', '__pycache__'))
        env = dict(os.environ, VERIF_REPO=d, VERIF_NOMC='1', VERIF_EVIDENCE=d + '/ev', VERIF_SEED='1', VERIF_TIER='quick')
        while True:
            try:
                f, ln, kind, old, new, text = q.get_nowait()
            except queue.Empty:
                break
            p = os.path.join(d, 'filterpy', f)
            orig = open(p, 'rb').read()
            open(p, 'wb').write(text)
            by, note = None, ''
            for pid in FILES[f].split():
                r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), pid], env=env, cwd=VERIF,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1:
                    by = pid
                    break
                if r.returncode:
                    note += pid + ' rc%d: ' % r.returncode + r.stdout[-300:]
            open(p, 'wb').write(orig)
            with lock, open(o.out, 'a') as fh:
                fh.write(json.dumps(dict(file=f, line=ln, kind=kind, old=old, new=new, by=by, note=note)) + '\n')
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(o.j)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    rs = [json.loads(l) for l in open(o.out)]
    print('%d mutants, %d reported' % (len(rs), sum(bool(r['by']) for r in rs)))


if __name__ == '__main__':
    main()
