"""python -m mc.main Cxx [--replay FILE]   (tier and seed from VERIF_TIER / VERIF_SEED)"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(pid):
    path = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get('findings', []) if e['property'] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int)
    a = ap.parse_args()
    # Own the hash order: one fixed value per run, so that a recorded execution reproduces.
    want = str(int(os.environ.get('VERIF_HASHSEED', '0')))
    if os.environ.get('PYTHONHASHSEED') != want or os.environ.get('PYTHONPYCACHEPREFIX') != '/nonexistent-pycache':
        env = dict(os.environ, PYTHONHASHSEED=want, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPYCACHEPREFIX='/nonexistent-pycache', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                   MKL_NUM_THREADS='1')
        os.execve(sys.executable, [sys.executable, '-W', 'ignore', '-m', 'mc.main'] + sys.argv[1:], env)
    from mc import core
    core.JOB_TIMEOUT = 300 if a.tier == 'quick' else 5000
    t0 = time.time()
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        core.load_sut()
        import importlib
        mod = importlib.import_module('mc.checks.' + rec['property'].lower())
        r = core.run_one(mod, getattr(mod, 'unjson', core.detuple)(rec['job']))
        if r is None:
            print('replay: the property held')
            return 0
        print('replay: %s\n%s' % (r['msg'], json.dumps(r, indent=1)[:6000]))
        return 1
    seed = int(os.environ.get('VERIF_SEED') or 1)
    viol, st, mod, njobs = core.run_check(a.pid, a.tier, a.workers)
    known = {e['signature']: e for e in known_findings(a.pid)}
    seen_known, fresh = {}, []
    for v in viol:
        if v['sig'] in known:
            seen_known[v['sig']] = v
        else:
            fresh.append(v)
    wall = round(time.time() - t0, 2)
    cov = {
        'states': len(st.states),
        'transitions': int(st.c.get('transitions', 0)),
        'traces_validated_against_impl': int(st.c.get('traces', 0)),
        'distinct_outcomes': len(st.outcomes),
        'jobs': int(st.c.get('jobs', 0)), 'jobs_planned': njobs,
        'exhaustive': not fresh and int(st.c.get('jobs', 0)) == njobs,
        'bounds': getattr(mod, 'BOUNDS', {}).get(a.tier, ''),
        'counters': {k: int(v) for k, v in sorted(st.c.items())},
        'samples': core.jsonable(st.samples) or ['(none)'],
    }
    ev = {'property': a.pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed,
          'level': 'model_checking', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': wall, 'violations': len(fresh)}
    out = os.environ.get('MC_DEV_OUT', HERE)
    os.makedirs(os.path.join(out, 'evidence'), exist_ok=True)
    with open(os.path.join(out, 'evidence', a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: jobs=%d/%d states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs' % (
        a.pid, a.tier, cov['jobs'], njobs, cov['states'], cov['transitions'],
        cov['traces_validated_against_impl'], cov['distinct_outcomes'], wall))
    for s in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (a.pid, known[s]['what']))
    if not fresh:
        return 0
    fresh.sort(key=lambda v: len(json.dumps(v['job'])))
    d = os.path.join(out, 'replays')
    os.makedirs(d, exist_ok=True)
    for i, v in enumerate(fresh[:5]):
        p = os.path.join(d, '%s-%d.json' % (a.pid, i))
        v['property'] = a.pid
        v['how'] = 'cd /verif && ./check %s --replay %s' % (a.pid, p)
        with open(p, 'w') as f:
            json.dump(v, f, indent=1)
        print('VIOLATION property=%s replay=%s' % (a.pid, p))
        print('   ' + v['msg'][:600])
    return 1


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
