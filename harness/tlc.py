"""Running TLC: compile the Java operator bodies when needed, run modules."""
import os, subprocess, hashlib, fcntl, re, tempfile, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, 'specs')
BUILD = os.path.join(VERIF, 'build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


def classes():
    """directory with the compiled operator bodies (built on demand)"""
    src = sorted(os.path.join(VERIF, 'java', f) for f in os.listdir(os.path.join(VERIF, 'java')) if f.endswith('.java'))
    h = hashlib.sha256(b''.join(open(f, 'rb').read() for f in src)).hexdigest()[:16]
    out = os.path.join(BUILD, 'java-' + h)
    if os.path.exists(os.path.join(out, 'ok')):
        return out
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, 'ok')):
            os.makedirs(out, exist_ok=True)
            subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', out] + src, check=True,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            open(os.path.join(out, 'ok'), 'w').close()
    return out


class TLCError(Exception):
    pass


class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated, self.distinct = (int(x.replace(',', '')) for x in m[-1]) if m else (0, 0)
        self.ok = 'Model checking completed. No error has been found' in out
        self.prints = [x for x in out.splitlines() if x.startswith('<<') or x.startswith('"')]


def start(module, cfg=None, env=None, workers=2, args=(), heap='2g', cwd=None):
    """start TLC; returns (process, metadir)"""
    meta = tempfile.mkdtemp(prefix='tlc-')
    cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Xmx' + heap, '-Xss64m', '-XX:+UseSerialGC' if workers <= 2 else '-XX:+UseParallelGC',
           '-XX:TieredStopAtLevel=4',
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:FpOverrides',
           '-cp', classes() + ':' + JARS, 'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE',
           '-workers', str(workers), '-config', cfg or module + '.cfg'] + list(args) + [module]
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd or SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p.meta = meta
    return p


def finish(p, timeout=800):
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise TLCError('TLC timed out')
    finally:
        shutil.rmtree(p.meta, ignore_errors=True)
    out = '\n'.join(x for x in out.splitlines() if not x.startswith('Loading '))
    return Result(p.returncode, out)


def run(*a, timeout=800, **k):
    return finish(start(*a, **k), timeout)
