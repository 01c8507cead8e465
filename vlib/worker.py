"""One worker process of a check.

argv: module mode(json file with job description).  Runs Hypothesis over the
check's strategy, memoises outcomes, shrinks a failure within a time budget and
writes the result as JSON.
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'checks'))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import common  # noqa: E402
import acenv   # noqa: E402


def evaluate(mod, case):
    """-> (outcome, info): outcome in ok / skip / fail."""
    try:
        info = mod.run(json.loads(json.dumps(case)))
        return 'ok', info or {}
    except common.Skip as e:
        return 'skip', {'reason': str(e)[:200]}
    except common.Violation as e:
        return 'fail', {'msg': str(e)}
    except MemoryError:
        raise
    except Exception:
        return 'fail', {'msg': 'exception on a valid case:\n' + traceback.format_exc()[-3000:]}


def main():
    job = json.load(open(sys.argv[1]))
    if not os.environ.get('VERIF_DEBUG'):
        log = os.open(job['log'], os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(log, 1)
        os.dup2(log, 2)
    os.makedirs(job['workdir'], exist_ok=True)
    os.chdir(job['workdir'])
    if job.get('overlay'):
        acenv.setup(job['overlay'])
    mod = importlib.import_module(job['module'])
    if hasattr(mod, 'init'):
        mod.init(job)
    res = {'evaluations': 0, 'nontrivial': {}, 'skipped': {}, 'labels': {}, 'samples': [], 'failure': None, 'known': {}}

    def flush():
        tmp = job['out'] + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(res, f)
        os.replace(tmp, job['out'])

    if job['mode'] == 'replay':
        case = job['case']
        out, info = evaluate(mod, case)
        res['failure'] = {'case': case, 'msg': info['msg']} if out == 'fail' else None
        res['outcome'] = out
        flush()
        return

    import hypothesis
    from hypothesis import given, settings, seed, HealthCheck, Phase

    memo = {}
    t0 = time.time()
    state = {'fail_t': None, 'stop': False}
    budget = job['budget']
    shrink_budget = job.get('shrink_budget', 60)
    cur = job['out'] + '.cur'

    class Fail(Exception):
        pass

    def body(case):
        key = common.digest(case)
        if key in memo:
            if memo[key]:
                raise Fail(memo[key])
            return
        if state['fail_t'] is None:
            if time.time() - t0 > budget:
                state['stop'] = True
                return
        elif time.time() - state['fail_t'] > shrink_budget:
            return
        with open(cur, 'w') as f:
            json.dump(case, f)
        out, info = evaluate(mod, case)
        os.unlink(cur)
        if state['fail_t'] is None:
            res['evaluations'] += 1
        if out == 'skip':
            res['skipped'][info['reason']] = res['skipped'].get(info['reason'], 0) + 1
            memo[key] = None
            return
        if out == 'fail':
            fid = mod.known(case, info['msg']) if hasattr(mod, 'known') else None
            if fid:
                res['known'].setdefault(fid, {'count': 0, 'case': case, 'msg': info['msg'][:400]})['count'] += 1
                memo[key] = None
                return
            memo[key] = info['msg']
            if state['fail_t'] is None:
                state['fail_t'] = time.time()
            res['failure'] = {'case': case, 'msg': info['msg']}
            flush()
            raise Fail(info['msg'])
        memo[key] = None
        if state['fail_t'] is None:
            for l in info.get('labels', []):
                res['labels'][l] = res['labels'].get(l, 0) + 1
            if info.get('nontrivial', True):
                res['nontrivial'][key] = 1
                n = len(res['nontrivial'])
                if n & (n - 1) == 0:      # the most recent of the cases 1, 2, 4, 8, ...
                    res['samples'] = (res['samples'] + [case])[-2:]
            if res['evaluations'] % 20 == 0:
                flush()

    strat = mod.strategy(job['tier'])
    test = given(strat)(body)
    test = seed(job['seed'])(test)
    test = settings(max_examples=job['n'], database=None, deadline=None, derandomize=False, print_blob=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink))(test)
    try:
        test()
    except Fail:
        pass
    except BaseException as e:   # e.g. hypothesis.errors.Flaky: the recorded failure is replayed by the driver
        if res['failure'] is None:
            res['error'] = traceback.format_exc()[-3000:]
    res['wall'] = time.time() - t0
    res['budget_hit'] = state['stop']
    flush()


if __name__ == '__main__':
    main()
    os._exit(0)
