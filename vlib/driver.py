"""Runs one property's check: builds libacados from /repo, fans out workers, merges, replays, reports.

usage: driver.py <ID> [--replay FILE] [--seed N] [--tier quick|thorough] [--n N] [--jobs J]
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
"""
import argparse
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build  # noqa: E402

PY = build.PY


def worker_env(overlay):
    e = dict(os.environ)
    e.update(PATH='/opt/acados-env/venv/bin:/usr/local/bin:/usr/bin:/bin', PYTHONDONTWRITEBYTECODE='1',
             PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LANG='C.UTF-8')
    e['PYTHONPATH'] = os.path.join(build.REPO, 'interfaces', 'acados_template')
    e['HOME'] = os.environ.get('HOME', '/root')
    if overlay:
        e['ACADOS_SOURCE_DIR'] = e['ACADOS_INSTALL_DIR'] = overlay
    return e


def start(job, scratch, name, env):
    job = dict(job)
    job['out'] = os.path.join(scratch, name + '.json')
    job['log'] = os.path.join(scratch, name + '.log')
    job['workdir'] = os.path.join(scratch, name)
    jf = os.path.join(scratch, name + '.job')
    with open(jf, 'w') as f:
        json.dump(job, f)
    env = dict(env)
    env['MPLCONFIGDIR'] = os.path.join(scratch, 'mpl')
    if job.get('extra_env'):
        env.update(job['extra_env'])
    p = subprocess.Popen([PY, '-u', os.path.join(HERE, 'worker.py'), jf], env=env, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    return p, job


def wait(procs, timeout):
    t0 = time.time()
    for p, _ in procs:
        left = max(0.1, timeout - (time.time() - t0))
        try:
            p.wait(left)
        except subprocess.TimeoutExpired:
            pass
    for p, _ in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            p.timed_out = True
        else:
            p.timed_out = False


def load(job):
    try:
        with open(job['out']) as f:
            return json.load(f)
    except Exception:
        return None


def tail(path, n=1500):
    try:
        with open(path, errors='replace') as f:
            return f.read()[-n:]
    except OSError:
        return ''


def replay_fails(base, case, scratch, env, times, tag):
    """Run a case in fresh processes; True iff it fails every time (crash counts as failure)."""
    msgs = []
    for k in range(times):
        j = dict(base, mode='replay', case=case)
        p, j = start(j, scratch, '%s-r%d' % (tag, k), env)
        wait([(p, j)], 300)
        if p.timed_out:
            return False, 'replay timed out'
        r = load(j)
        shutil.rmtree(j['workdir'], ignore_errors=True)
        if r is None or p.returncode != 0:
            msgs.append('process died with status %s on this case\n%s' % (p.returncode, tail(j['log'])))
        elif r['failure']:
            msgs.append(r['failure']['msg'])
        else:
            return False, 'case passed on replay'
    return True, msgs[0]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick') or 'quick')
    ap.add_argument('--n', type=int)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    with open(os.path.join(VERIF, 'checks', 'config.json')) as f:
        allcfg = json.load(f)
    cfg = allcfg[a.prop]
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % a.prop)
    rc = 2
    try:
        rc = run(a, cfg, scratch, t0)
    finally:
        if a.keep:
            print('scratch kept: ' + scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def violation(prop, seed, case, msg, module):
    d = os.path.join(VERIF, 'out')
    os.makedirs(d, exist_ok=True)
    import hashlib
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'module': module, 'case': case, 'message': msg,
                   'replay_cmd': 'python3 vlib/driver.py %s --replay %s' % (prop, path)}, f, indent=1)
    print('--- minimal failing case:\n%s\n--- %s' % (json.dumps(case)[:3000], msg[:3000]))
    print('VIOLATION property=%s replay=%s' % (prop, path))


def run(a, cfg, scratch, t0):
    prop, tier = a.prop, a.tier
    overlay = None
    buildmsg = None
    if cfg.get('lib', True):
        try:
            overlay = build.build(cfg.get('variant', 'opt'))
        except RuntimeError as e:
            # a tree that does not build is not this check's business to call a violation
            print('ERROR: libacados could not be built: %s' % e)
            return 2
    env = worker_env(overlay)
    base = {'module': cfg['module'], 'overlay': overlay, 'tier': tier, 'prop': prop, 'extra_env': {k: v.replace('{ov}', overlay or '') for k, v in cfg.get('env', {}).items()}}

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        fails, msg = replay_fails(base, rep['case'], scratch, env, 1, 'replay')
        if fails:
            violation(prop, a.seed, rep['case'], msg, cfg['module'])
            return 1
        print('replay: property held (%s)' % msg)
        return 0

    n_total = a.n or cfg[tier]['n']
    budget = cfg[tier].get('budget', 420 if tier == 'quick' else 3600)
    jobs = min(a.jobs, cfg.get('jobs', 8))
    per = max(1, -(-n_total // jobs))
    procs = []
    for w in range(jobs):
        j = dict(base, mode='search', seed=a.seed * 1000 + w, n=per, budget=budget,
                 shrink_budget=cfg.get('shrink_budget', 45), widx=w, nw=jobs)
        procs.append(start(j, scratch, 'w%d' % w, env))
    wait(procs, budget + 240)

    ev = {'evaluations': 0, 'skipped': {}, 'labels': {}}
    nontriv, samples, fails, known, errors = set(), [], [], {}, []
    for p, j in procs:
        r = load(j)
        cur = None
        try:
            with open(j['out'] + '.cur') as f:
                cur = json.load(f)
        except Exception:
            pass
        if r:
            ev['evaluations'] += r['evaluations']
            nontriv |= set(r['nontrivial'])
            for k in ('skipped', 'labels'):
                for x, c in r[k].items():
                    ev[k][x] = ev[k].get(x, 0) + c
            samples += r['samples']
            if r.get('failure'):
                fails.append((r['failure']['case'], r['failure']['msg']))
            if r.get('error'):
                errors.append(r['error'])
            for fid, inf in r['known'].items():
                known.setdefault(fid, inf)
        if not getattr(p, 'timed_out', False) and p.returncode != 0:
            if cur is not None:
                fails.append((cur, 'process died (status %s) on this case\n%s' % (p.returncode, tail(j['log']))))
            elif not r or 'wall' not in r:
                errors.append('worker died with status %s\n%s' % (p.returncode, tail(j['log'])))
        elif getattr(p, 'timed_out', False):
            print('note: worker reached its time limit; its case is inconclusive: %s' % (json.dumps(cur)[:300],))

    # smallest failures first; each is replayed three times in fresh processes
    fails.sort(key=lambda x: len(json.dumps(x[0])))
    confirmed = None
    for k, (case, msg) in enumerate(fails[:4]):
        ok, m = replay_fails(base, case, scratch, env, 3, 'f%d' % k)
        if ok:
            confirmed = (case, m)
            break
        print('note: failure did not reproduce (%s): %s' % (m, msg[-1800:]))

    rule = cfg.get('rule', '')
    doc = {'property': prop, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
           'coverage': {'evaluations': ev['evaluations'], 'distinct_nontrivial': len(nontriv), 'rule': rule,
                        'samples': samples[:4], 'skipped': ev['skipped'],
                        'classes': dict(sorted(ev['labels'].items(), key=lambda kv: -kv[1]))},
           'assumptions': cfg.get('assumptions', []),
           'wall_s': round(time.time() - t0, 2), 'violations': 1 if confirmed else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1)

    kf = {}
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f:
            kf = {x['id']: x for x in json.load(f)['findings'] if x['property'] == prop}
    except OSError:
        pass
    for fid, x in sorted(kf.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, x['what']))
    print('%s: %d cases, %d distinct non-trivial, skipped %s, %.1f s' % (
        prop, ev['evaluations'], len(nontriv), ev['skipped'], time.time() - t0))
    if confirmed:
        violation(prop, a.seed, confirmed[0], confirmed[1], cfg['module'])
        return 1
    if errors:
        print('ERROR in the harness:\n' + errors[0])
        return 2
    if ev['evaluations'] < max(1, min(n_total, cfg.get('min_cases', 8))):
        print('ERROR: too few cases were explored (%d)' % ev['evaluations'])
        return 2
    return 0


if __name__ == '__main__':
    main()
