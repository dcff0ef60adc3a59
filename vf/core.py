"""Registry of sub-checks, Hypothesis driver, parallel runner, evidence and replay files."""
import vf.env as env  # first
import argparse
import collections
import concurrent.futures as cf
import hashlib
import importlib
import inspect
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

VERIF = env.VERIF
REPLAYS = os.path.join(VERIF, 'evidence', 'replays')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')


class Violation(Exception):
    """The property is violated by the code under test."""


class Stop(BaseException):
    """Ends a Hypothesis run from the inside (shrinking budget used up)."""


def fail(msg):
    raise Violation(msg)


def ensure(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def sut(fn, *args, **kwargs):
    """Call the code under test: on a valid input, an exception is a violation."""
    try:
        return fn(*args, **kwargs)
    except Violation:
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        tb = traceback.format_exc(limit=-6)
        raise Violation(f'unexpected {type(e).__name__}: {str(e)[:600]}\n{tb[-1500:]}') from e


SUBS = {}


class Sub:
    def __init__(self, name, body, strategy, quick, thorough, shards, tshards, x64, cases):
        self.name, self.body, self.strategy = name, body, strategy
        self.quick, self.thorough, self.shards, self.tshards = quick, thorough, shards, tshards
        self.x64, self.cases = x64, cases


def sub(strategy=None, quick=20, thorough=None, shards=1, tshards=None, x64=False, cases=None):
    """Register `body(case) -> info or None`.

    quick/thorough: number of generated cases over all shards. info: dict(nontrivial=bool, labels=[...], runs=int).
    cases: fixed cases instead of a strategy; a fixed sub-check whose cases are listed as known findings only reports
    KNOWN-FINDING lines for those.
    """

    def deco(body):
        s = Sub(body.__name__, body, strategy, quick, thorough or quick * 8, shards, tshards or 8, x64, cases)
        SUBS[s.name] = s
        return body

    return deco


def load(prop):
    SUBS.clear()
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    importlib.import_module(prop)
    import fbs
    root = os.path.realpath(list(fbs.__path__)[0])
    assert root.startswith(os.path.realpath(env.REPO)), f'fbs is imported from {root}'
    return dict(SUBS)


def key_of(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def run_body(s, case):
    import jax
    jax.config.update('jax_enable_x64', bool(s.x64))
    try:
        return s.body(case) or {}
    except (IndexError, ValueError, TypeError, ZeroDivisionError, OverflowError) as e:
        # a result that cannot even be compared with the oracle (wrong shape, rank, type or length); on a tree where
        # the property holds no case ends here (missing modules, names and files stay harness errors)
        tb = traceback.format_exc(limit=-4)
        raise Violation(f'the result cannot be compared with the specified one: {type(e).__name__}: {str(e)[:400]}\n'
                        f'{tb[-1200:]}') from e


def job(prop, name, shard, nshards, tier, seed, deadline, shrink_s):
    """One shard of one sub-check, in a worker process."""
    res = dict(sub=name, shard=shard, cases=0, skipped=0, nontrivial=[], labels={}, runs=0, samples=[], violation=None,
               error=None, truncated=False, wall=0.)
    t_start = time.time()
    try:
        import jax
        s = _loaded(prop)[name]
        labels = collections.Counter()
        seen = set()
        state = dict(fail=None, t_fail=None)

        def account(case, info):
            res['cases'] += 1
            res['runs'] += int(info.get('runs', 1))
            for lb in info.get('labels', ()):
                labels[lb] += 1
            if info.get('nontrivial', True):
                seen.add(key_of(case))
                if len(res['samples']) < 2:
                    res['samples'].append(dict(sub=name, case=case, **({'detail': info['detail']}
                                                                      if 'detail' in info else {})))

        if s.cases is not None:
            for case in [c for i, c in enumerate(s.cases) if i % nshards == shard]:
                try:
                    account(case, run_body(s, case))
                except Violation as e:
                    state['fail'] = (case, str(e))
                    break
        else:
            from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
            n_total = s.quick if tier == 'quick' else s.thorough
            n = n_total // nshards + (1 if shard < n_total % nshards else 0)
            jobseed = int(hashlib.sha1(f'{seed}/{prop}/{name}/{shard}/{tier}'.encode()).hexdigest()[:12], 16)

            # Hypothesis starts with the simplest case: one shard runs it, the others go straight to generated ones
            skip = nshards > 1 and (shard > 0 or n < 2)
            first = []

            @hseed(jobseed)
            @settings(max_examples=max(n, 1) + skip, database=None, deadline=None, print_blob=False,
                      suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                      report_multiple_bugs=False)
            @given(make_strategy(s, shard, nshards))
            def test(case):
                if skip and not first:
                    first.append(case)
                    return
                if first and state['t_fail'] is None and case == first[0]:
                    return
                now = time.time()
                if state['t_fail'] is None:
                    if now > deadline:
                        res['skipped'] += 1
                        res['truncated'] = True
                        return
                elif now - state['t_fail'] > shrink_s or now > deadline + 60:
                    raise Stop()
                try:
                    info = run_body(s, case)
                except Violation as e:
                    if state['t_fail'] is None:
                        state['t_fail'] = now
                    state['fail'] = (case, str(e))
                    raise
                if state['t_fail'] is None:
                    account(case, info)

            try:
                test()
                if first and res['cases'] < max(n, 1) and not res['truncated']:
                    try:
                        account(first[0], run_body(s, first[0]))
                    except Violation as e:
                        state['fail'] = (first[0], str(e))
            except Violation:
                pass
            except Stop:
                pass
            except Exception:
                if state['fail'] is None:
                    raise
                # e.g. Hypothesis reporting flakiness after a recorded violation: the recorded case decides
        if state['fail'] is not None:
            case, msg = state['fail']
            res['violation'] = dict(case=case, message=msg, x64=s.x64)
        res['nontrivial'] = sorted(seen)
        res['labels'] = dict(labels)
    except Violation as e:
        res['error'] = 'violation outside of a case: ' + str(e)
    except BaseException:
        res['error'] = traceback.format_exc()
    res['wall'] = time.time() - t_start
    return res


def make_strategy(s, shard, nshards):
    """A strategy with an argument `part` lets every shard take its own part of the static configurations (each one is
    a compilation); together the shards cover all."""
    if 'part' in inspect.signature(s.strategy).parameters:
        return s.strategy(part=(lambda xs: xs[shard % len(xs)::nshards]))
    return s.strategy()


_CACHE = {}


def _loaded(prop):
    if prop not in _CACHE:
        _CACHE[prop] = load(prop)
    return _CACHE[prop]


def _init():
    sys.stdout = open(os.devnull, 'w')
    import warnings
    import numpy as np
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


def read_findings(prop):
    """Lines 'known: property=<id> sub=<name> case=<json> | <what>'."""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith(f'known: property={prop} '):
                head, what = line.split(' | ', 1)
                name = head.split(' sub=')[1].split(' ')[0]
                case = json.loads(head.split(' case=', 1)[1])
                out.append((name, key_of(case), what))
    return out


def replay_cmd(prop, path):
    with open(path) as f:
        r = json.load(f)
    subs = _loaded(r['property'])
    s = subs[r['sub']]
    try:
        run_body(s, r['case'])
    except Violation as e:
        print(f'{r["property"]}/{r["sub"]}: {e}')
        print(f'VIOLATION property={r["property"]} replay={path}')
        return 1
    print('the replayed case holds')
    return 0


def write_replay(prop, r):
    v = r['violation']
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f'{prop}-{r["sub"]}-{key_of(v["case"])}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=prop, sub=r['sub'], case=v['case'], message=v['message'], run=f'./check {prop} --replay {path}'), f, indent=1)
    return path


def confirmed(prop, r):
    """The failing case once more in a fresh process, without the limits on threads of the workers: a failure of the numerical libraries that
    depends on the state of a worker is not one of the code under test."""
    path = write_replay(prop, r)
    try:
        p = subprocess.run([sys.executable, '-B', os.path.join(VERIF, 'run.py'), prop, '--replay', path], cwd=VERIF, timeout=150,
                           env=dict({k: v for k, v in os.environ.items() if k not in env.THREADS + ('XLA_FLAGS',)}, VERIF_PLAIN='1'), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        return True
    if p.returncode == 0:
        os.remove(path)
    return p.returncode != 0


def in_time(futs, hard):
    """The futures as they complete; None once the time is over."""
    try:
        yield from cf.as_completed(futs, timeout=max(1., hard - time.time()))
    except cf.TimeoutError:
        yield None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 8))))
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay_cmd(a.prop, a.replay))
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 420 if tier == 'quick' else 780
    deadline = t0 + budget
    hard = t0 + (720 if tier == 'quick' else 840)  # cases that are still running then are given up, unjudged
    shrink_s = float(os.environ.get('VERIF_SHRINK', 40 if tier == 'quick' else 90))
    subs = load_names(prop)
    findings = read_findings(prop)
    jobs = []
    for name, (ncases, shards, tshards) in subs.items():
        if a.only and name not in a.only.split(','):
            continue
        ns = max(1, min(ncases[tier], shards if tier == 'quick' else tshards))
        if ncases['fixed']:
            ns = ncases['fixed']
        jobs += [(name, i, ns) for i in range(ns)]
    results, violation, errors, known, unconfirmed = [], None, [], [], []
    ex = cf.ProcessPoolExecutor(max_workers=min(a.jobs, len(jobs)), mp_context=mp.get_context('spawn'),
                                initializer=_init)
    try:
        # interleave: shard 0 of every sub-check first, so that every sub-check starts early
        jobs.sort(key=lambda j: j[1])
        futs = {ex.submit(job, prop, n, i, ns, tier, seed, deadline, shrink_s): (n, i) for n, i, ns in jobs}
        unfinished = 0
        for f in in_time(futs, hard):
            if f is None:
                unfinished = len(futs) - len(results)
                break
            r = f.result()
            results.append(r)
            if r['error']:
                errors.append(r)
                break
            if r['violation']:
                hit = [w for (n, k, w) in findings if n == r['sub'] and k == key_of(r['violation']['case'])]
                if hit:
                    known.append(hit[0])
                    r['known'] = True
                elif confirmed(prop, r):
                    violation = r
                    break
                else:
                    unconfirmed.append(r)
    finally:
        procs = list((getattr(ex, '_processes', None) or {}).values())
        stop = violation is not None or errors or unfinished
        ex.shutdown(wait=not stop, cancel_futures=True)
        if stop:
            for pr in procs:
                try:
                    pr.kill()
                except Exception:
                    pass
    for r in errors:
        print(f'HARNESS ERROR in {prop}/{r["sub"]}:\n{r["error"]}', file=sys.stderr)
    for r in unconfirmed:
        print(f'note: {prop}/{r["sub"]} failed in a worker but holds in a fresh process: ' + json.dumps(r['violation']['case']))
    for w in known:
        print(f'KNOWN-FINDING: property={prop} {w}')
    path = None
    if violation is not None:
        v = violation['violation']
        path = write_replay(prop, violation)
        print(f'{prop}/{violation["sub"]}: {v["message"]}')
        print('minimal case: ' + json.dumps(v['case']))
    write_evidence(prop, tier, seed, results, time.time() - t0, violation, known, len(jobs), len(unconfirmed))
    if unfinished:
        print(f'note: {unfinished} of {len(jobs)} jobs were given up after {hard - t0:.0f} s: '
              + ', '.join(sorted({futs[f][0] for f in futs if not f.done() or f.cancelled()})))
    if violation is not None:
        print(f'VIOLATION property={prop} replay={path}')
        sys.stdout.flush()
        os._exit(1)
    if errors:
        os._exit(3)
    n = sum(r['cases'] for r in results)
    print(f'{prop}: held on {n} generated cases ({sum(r["runs"] for r in results)} runs of the code), '
          f'{time.time() - t0:.1f} s' + (' [truncated by the time budget]' if any(r['truncated'] for r in results)
                                         else ''))
    sys.stdout.flush()
    os._exit(0)


def load_names(prop):
    """Names and sizes of the sub-checks (loads the check module in this process; it must be cheap to import)."""
    return {n: ({'quick': s.quick, 'thorough': s.thorough, 'fixed': len(s.cases) if s.cases is not None else 0},
                s.shards, s.tshards) for n, s in _loaded(prop).items()}


def write_evidence(prop, tier, seed, results, wall, violation, known, njobs, unconfirmed=0):
    mod = sys.modules.get(prop)
    per = {}
    nt = set()
    samples = []
    for r in sorted(results, key=lambda r: (r['sub'], r['shard'])):
        d = per.setdefault(r['sub'], dict(cases=0, distinct_nontrivial=0, runs_of_the_code=0, classes={},
                                          skipped_by_time_budget=0, worker_seconds=0.))
        d['cases'] += r['cases']
        d['runs_of_the_code'] += r['runs']
        d['skipped_by_time_budget'] += r['skipped']
        d['worker_seconds'] = round(d['worker_seconds'] + r['wall'], 1)
        for k, v in r['labels'].items():
            d['classes'][k] = d['classes'].get(k, 0) + v
        new = {(r['sub'], k) for k in r['nontrivial']} - nt
        d['distinct_nontrivial'] += len(new)
        nt |= new
        if d['cases'] and r['shard'] == 0:
            samples += r['samples']
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=sum(r['cases'] for r in results), distinct_nontrivial=len(nt),
                            rule=(getattr(mod, 'RULE', None) or (mod.__doc__ or prop)).strip(),
                            samples=samples[:12], runs_of_the_code=sum(r['runs'] for r in results),
                            sub_checks=per, jobs_finished=len(results), jobs=njobs,
                            known_findings_reported=known, failed_only_in_a_worker=unconfirmed),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(wall, 2), violations=int(violation is not None))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
