"""Drives filterpy for one property: executes the histories the specification
generates (and the driver's own cases) on the real code, recording traces.

    drive.py <property> <outdir>     (VERIF_SEED, VERIF_TIER in the environment)
"""
import importlib, json, os, re, sys, traceback, zlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
os.environ.setdefault('MPLBACKEND', 'Agg')
import rec, tlc


# how many times the drivers' base number of cases the quick check of a property runs
SCALE = dict(C06=1, C12=1, C13=1, C14=1, C15=1, C34=1, C38=1, C08=2, C33=2, C03=2, C20=2, C21=2, C22=2, C32=3, C10=3, C16=3, C18=3, C19=3, C09=3, C37=3, C28=3, C04=3)


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.thorough = os.environ.get('VERIF_TIER') == 'thorough'
        self.traces, self.histories, self.hist_states = [], 0, 0

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 12) if self.thorough else quick * (1 if thorough is not None else SCALE.get(self.pid, 6))

    def rng(self, *key):
        return rec.Rng(zlib.crc32(repr((self.seed, self.pid) + key).encode()))

    def trace(self, spec, label):
        t = rec.Trace(label)
        t.spec = spec
        self.traces.append(t)
        return t

    def turns(self, comp, depth):
        """histories that repeat two operations in turn, such that each operation occurs"""
        out, done = [], set()
        hs = self.hist(comp, depth, alt=True)
        self.rng('turns', comp).p.shuffle(hs)
        for h in hs:
            if not set(h) <= done:
                out.append(h)
                done |= set(h)
        return out

    def hist(self, comp, depth, sample=None, sim=None, alt=False):
        """histories of the component: all of length `depth` (or `sample` of them),
        plus `sim` = (count, length) random longer ones"""
        out = []
        for args, d, keep in (((), depth, sample),) + ((((('-simulate', 'num=%d' % sim[0], '-depth', str(sim[1] + 1),
                              '-seed', str(self.seed))), sim[1], sim[0]),) if sim else ()):
            cfg = os.path.join(self.out, 'Hist_%s_%d_%d.cfg' % (comp, d, alt))
            with open(cfg, 'w') as f:
                f.write('CONSTANT Depth = %d\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % d)
            r = tlc.run('Hist', cfg=cfg, env={'COMP': comp, 'ALT': '1' if alt else '0'}, args=args, workers=1, heap='1g')
            hs = [json.loads(json.loads(x)) for x in r.out.splitlines() if x.startswith('"[')]
            hs = [list(x) for x in sorted(set(map(tuple, hs)))]
            if not hs:
                raise RuntimeError('no histories for %s: %s' % (comp, r.out[-800:]))
            self.hist_states += r.distinct
            if keep is not None and len(hs) > keep:
                hs = self.rng('hist', comp, d).p.sample(hs, keep)
            out += hs
        self.histories += len(out)
        return out

    def run(self, spec, label, f, *a):
        """one trace; whatever escapes the code under test is an observation"""
        t = self.trace(spec, label)
        _, x = rec.guarded(f, t, *a, _tb=True)
        if x:
            t.add('driver', {}, {}, x)
        t.ev = t.ev[:getattr(t, 'stop', None)]
        return t


def main():
    pid, out = sys.argv[1], sys.argv[2]
    import props
    c = Ctx(pid)
    c.out = out
    for mod, fn in props.PROPS[pid]['drive']:
        getattr(importlib.import_module('drivers.' + mod), fn)(c)
    specs, counts = {}, {}
    for t in c.traces:
        if t.ev:
            specs.setdefault(t.spec, []).append(t)
            for e in t.ev:
                if e['chk']:
                    counts[e['ev']] = counts.get(e['ev'], 0) + 1
    meta = {'histories': c.histories, 'hist_states': c.hist_states, 'counts': counts, 'specs': {}}
    for s, ts in specs.items():
        rec.write(ts, os.path.join(out, s + '.ndjson'))
        meta['specs'][s] = {'labels': [t.label for t in ts], 'lens': [len(t.ev) for t in ts]}
    with open(os.path.join(out, 'meta.json'), 'w') as f:
        json.dump(meta, f)


if __name__ == '__main__':
    main()
