#!/usr/bin/env python3
"""Decides one property:  check.py <property id>     (VERIF_SEED, VERIF_TIER)

 1. TLC checks the property's invariants and laws on the specification (mc modules);
 2. drive.py runs the histories generated from the specification, and the driver's
    cases, on the code in /repo, recording what it does;
 3. TLC checks every recorded trace against the specification (T_* modules).

Exit 0 when everything holds, 1 with a VIOLATION line when the code does not
conform, 2 when the machinery itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'harness'))
import tlc
from props import PROPS, ASSUME

T0 = time.time()
PID = sys.argv[1]
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
BUDGET = 840 if TIER != 'thorough' else 6 * 3600


def left():
    return max(5, BUDGET - (time.time() - T0))


def known():
    """known-findings entries of this property: (regex over '<spec>/<label> <event> <clauses>', text)"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)', line.strip())
            if m and m.group(1) == PID:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def invariants(m):
    with open(os.path.join(tlc.SPECS, '%s_%s.cfg' % (m, PID))) as f:
        return [x.split()[1] for x in f if x.startswith(('INVARIANT', 'PROPERTY'))]


def brief(v, n=1500):
    s = json.dumps(v)
    s = re.sub(r'"#(-?\d+)(?:/(\d+))?"', lambda m: '%.17g' % (int(m.group(1)) / int(m.group(2) or 1)), s)
    return s if len(s) <= n else s[:n] + '...'


def main():
    spec = PROPS[PID]
    work = tempfile.mkdtemp(prefix='verif-%s-' % PID)
    try:
        return run(spec, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(spec, work):
    tlc.classes()
    mcs = []
    for m in [] if os.environ.get('VERIF_NOMC') else spec.get('mc', []):     # (tools/mutate.py)
        cfg = '%s_%s%s.cfg' % (m, PID, '_thorough' if TIER == 'thorough' else '')
        mcs.append((m, tlc.start(m, cfg=cfg, workers=3 if TIER == 'quick' else 6, heap='4g')))
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
               PYTHONPATH=REPO, VERIF_REPO=REPO, VERIF_SEED=str(SEED), VERIF_TIER=TIER, PYTHONHASHSEED='0')
    env.pop('PYTHONSTARTUP', None)
    d = subprocess.run([PY, os.path.join(VERIF, 'harness', 'drive.py'), PID, work], env=env, cwd=work,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=left())
    fails = []                 # dict(spec, label, event index, ev, clauses)
    if d.returncode:
        # the package cannot even be imported and used: that is an observation too
        if 'filterpy' in d.stdout and ('ImportError' in d.stdout or 'SyntaxError' in d.stdout or 'filterpy/' in d.stdout):
            fails.append(dict(spec='import', label='filterpy', i=0, ev='import', why=d.stdout[-1500:]))
            meta = dict(histories=0, hist_states=0, counts={}, specs={})
        else:
            print(d.stdout[-3000:])
            print('machinery error: the driver failed')
            return 2
    else:
        meta = json.load(open(os.path.join(work, 'meta.json')))
    tvs = []
    for s in meta['specs']:
        f = os.path.join(work, s + '.ndjson')
        tvs.append((s, f, tlc.start(s, env={'TRACE': f}, workers=4, heap='6g')))
    states = trans = 0
    ntraces = 0
    err = []
    for s, f, p in tvs:
        r = tlc.finish(p, left())
        ms = meta['specs'][s]
        total = sum(ms['lens']) + len(ms['lens'])
        states += r.distinct
        trans += sum(ms['lens'])
        ntraces += len(ms['lens'])
        here = []
        for line in r.out.splitlines():
            m = re.match(r'"?<<\\?"FAIL\\?", (\d+), (\d+), \\?"(.*?)\\?", (.*)>>"?$', line.strip())
            if m:
                here.append((int(m.group(1)), int(m.group(2)), m.group(3), m.group(4).replace('\\"', "'").replace('"', "'")))
        if not r.ok:
            # the specification could not interpret what was observed (e.g. a matrix where it has a number)
            m = re.findall(r'^/\\ tr = (\d+)', r.out, re.M)
            k = re.findall(r'^/\\ l = (-?\d+)', r.out, re.M)
            e = re.search(r'^Error: .*(?:\n.*){0,4}', r.out, re.M)
            if m and k:
                here.append((int(m[-1]), int(k[-1]) + 1, '?', 'uninterpretable observation: ' + (e.group(0) if e else '')[:300]))
            else:
                err.append('%s: %s' % (s, r.out[-2500:]))
                continue
        elif not here and r.distinct != total:
            err.append('%s: %d states, %d expected' % (s, r.distinct, total))
            continue
        if here:
            lines = open(f).read().splitlines()
            for tr, l, ev, why in here:
                tv = json.loads(lines[tr - 1])
                e = tv[l - 1] if 0 < l <= len(tv) else {'ev': ev, 'a': {}, 'o': {}, 'x': ''}
                fails.append(dict(spec=s, label=ms['labels'][tr - 1], i=l, ev=e['ev'], why=why, event=e, trace=tv[:l]))
    mcinfo = []
    for m, p in mcs:
        r = tlc.finish(p, left())
        if not r.ok:
            err.append('%s: %s' % (m, r.out[-2500:]))
        states += r.distinct
        trans += r.generated
        mcinfo.append(dict(module=m, invariants=invariants(m), distinct_states=r.distinct, states_generated=r.generated))
    kn = known()
    new = []
    shown = set()
    for x in fails:
        key = '%s/%s %s %s' % (x['spec'], x['label'], x['ev'], x['why'])
        hit = [t for rx, t in kn if rx.search(key)]
        if hit:
            if hit[0] not in shown:
                shown.add(hit[0])
                print('KNOWN-FINDING: property=%s %s' % (PID, hit[0]))
        else:
            new.append(x)
    if err and not new:
        for e in err:
            print('machinery error:', e)
        return 2
    ev = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    samples = []
    for s, f, _ in tvs:
        with open(f) as fh:
            for i, line in zip(range(200), fh):
                if i % 97 == 0:
                    tv = json.loads(line)
                    samples.append(dict(spec=s, trace=meta['specs'][s]['labels'][i], events=[t['ev'] for t in tv],
                                        last=brief({'a': tv[-1]['a'], 'o': tv[-1]['o']}, 600)))
    out = dict(property=PID, tier=TIER, seed=SEED, level='model_checking',
               coverage=dict(states=states, transitions=trans, traces_validated_against_impl=ntraces,
                             checked_events=meta['counts'], histories_from_spec=meta['histories'],
                             history_states=meta['hist_states'], model_checking=mcinfo,
                             trace_specs={s: len(meta['specs'][s]['lens']) for s in meta['specs']}, samples=samples[:6]),
               assumptions=ASSUME, wall_s=round(time.time() - T0, 2), violations=len(new))
    with open(os.path.join(ev, PID + '.json'), 'w') as fh:
        json.dump(out, fh, indent=1)
    if new:
        rp = os.path.join(ev, PID + '.replay.json')
        with open(rp, 'w') as fh:
            json.dump(new[:20], fh, indent=1)
        for x in new[:5]:
            print('%s trace "%s", event %d (%s): %s' % (x['spec'], x['label'], x['i'], x['ev'], x['why']))
            if x.get('event'):
                print('   ', (x['event']['x'] or brief({'a': x['event']['a'], 'o': x['event']['o']}, 700)))
        print('%d of %d traces do not conform' % (len(new), ntraces))
        print('VIOLATION property=%s replay=%s' % (PID, rp))
        return 1
    print('property %s: %d traces of the code conform, %d model states, %.1f s' % (PID, ntraces, states, time.time() - T0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
