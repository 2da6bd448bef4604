"""Driving a property over generated cases; evidence; replay.

A property is a `Prop`: a Hypothesis strategy producing JSON-able cases, and
`check(case, rec)` which raises `core.Violation` if the property is broken by
the case.  The parent process splits the case budget among worker processes
with seeds derived from VERIF_SEED.
"""
import hashlib
import json
import os
import resource
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_PKG = os.path.realpath(os.path.join(
    os.environ.get('TB_REPO', '/repo'), 'timeboard'))
WORKERS = int(os.environ.get('TBV_WORKERS', '8'))
CASE_CPU_S = 150
SHRINK_S = int(os.environ.get('TBV_SHRINK', '40'))
MEM_BYTES = 3 << 30


class Prop(object):
    def __init__(self, id, strategy, check, quick, rule, thorough=None,
                 assumptions=(), history=False, plain=False):
        self.id = id
        self.strategy = strategy
        self.check = check
        self.quick = quick * 2
        self.thorough = thorough or quick * 14
        self.rule = rule
        self.assumptions = list(assumptions)
        # several objects / several calls per case: replay needs the case only
        self.history = history
        # only labels and containers whose representation is code
        self.plain = plain


class Hang(BaseException):
    pass


def _on_prof(signum, frame):
    raise Hang()


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def run_case(prop, case, rec):
    """None, or a message describing how the property is violated."""
    from . import build, core
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        prop.check(build.decode(case, prop.plain), rec)
        return None
    except core.Violation as e:
        return str(e)[:2000]
    except Hang:
        return 'the call does not terminate ({} s of CPU)'.format(CASE_CPU_S)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inside = [f for f in tb
                  if os.path.realpath(f.filename).startswith(REPO_PKG + os.sep)]
        if not inside and isinstance(e, (LookupError, AttributeError,
                                         TypeError, ValueError)):
            # what the package returned does not have the promised shape
            f = tb[-1]
            return 'unusable result: {}: {} (at {}:{})'.format(
                type(e).__name__, str(e)[:300],
                os.path.basename(f.filename), f.lineno)
        if not inside:
            raise
        f = inside[-1]
        return 'unexpected {}: {} (raised through timeboard/{}:{})'.format(
            type(e).__name__, str(e)[:300], os.path.basename(f.filename),
            f.lineno)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


# -------------------------------------------------------------------- worker
def worker(prop, seed, n, out):
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis import seed as hseed
    from . import core
    signal.signal(signal.SIGPROF, _on_prof)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_BYTES, MEM_BYTES))
    st = {'evaluations': 0, 'tags': Counter(), 'nt': set(), 'samples': [],
          'distinct': set(), 'best': None, 'first_fail': None, 'harness': None,
          'slowest': 0}
    t0 = time.time()

    def flush():
        res = {'evaluations': st['evaluations'], 'tags': dict(st['tags']),
               'nt': sorted(st['nt']), 'distinct': len(st['distinct']),
               'samples': st['samples'], 'failure': st['best'],
               'slowest': st['slowest'],
               'harness': st['harness'], 'wall': time.time() - t0}
        tmp = out + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(res, f, default=str)
        os.rename(tmp, out)

    class Found(Exception):
        pass

    @hseed(seed)
    @settings(max_examples=n, database=None, deadline=None,
              suppress_health_check=list(HealthCheck), print_blob=False,
              phases=[Phase.generate, Phase.shrink],
              report_multiple_bugs=False)
    @given(prop.strategy())
    def test(case):
        if st['first_fail'] and time.time() - st['first_fail'] > SHRINK_S:
            flush()
            os._exit(0)
        text = canon(case)
        rec = core.Rec()
        t1 = time.process_time()
        msg = run_case(prop, case, rec)
        st['slowest'] = max(st['slowest'], time.process_time() - t1)
        st['evaluations'] += 1
        if msg is None:
            if st['first_fail'] is None:
                h = hashlib.sha1(text.encode()).hexdigest()[:14]
                st['distinct'].add(h)
                for t in rec.tags:
                    st['tags'][t] += 1
                if rec.nontrivial:
                    if h not in st['nt'] and len(st['samples']) < 3 and \
                            len(text) < 4000 and len(st['nt']) % 7 == 0:
                        st['samples'].append(text)
                    st['nt'].add(h)
            return
        if st['first_fail'] is None:
            st['first_fail'] = time.time()
        if st['best'] is None or len(text) <= st['best']['len']:
            st['best'] = {'len': len(text), 'case': json.loads(text),
                          'message': msg}
        raise Found(msg)

    try:
        test()
    except Exception:
        if st['best'] is None:
            st['harness'] = traceback.format_exc()[-4000:]
    flush()


# -------------------------------------------------------------------- parent
def env():
    e = dict(os.environ)
    e['HYPOTHESIS_NO_PLUGINS'] = '1'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e['PYTHONWARNINGS'] = 'ignore'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
        e[k] = '1'
    return e


def seed_for(base, prop, i):
    d = hashlib.sha256('{}:{}:{}'.format(base, prop, i).encode()).digest()
    return int.from_bytes(d[:6], 'big')


def replay_confirms(prop_id, path):
    """Re-run a replay file in a fresh process: True if it still violates."""
    r = subprocess.run([sys.executable, '-m', 'tbv', prop_id, '--replay',
                        path], cwd=VERIF, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=300)
    return r.returncode == 1, r.stdout.decode(errors='replace')


def parent(prop, tier, base_seed):
    import shutil
    import tempfile
    total = prop.quick if tier == 'quick' else prop.thorough
    scale = float(os.environ.get('TBV_SCALE', '1'))
    total = max(WORKERS, int(total * scale))
    per = (total + WORKERS - 1) // WORKERS
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='tbv_')
    procs = []
    try:
        for i in range(WORKERS):
            out = os.path.join(tmp, 'w{}.json'.format(i))
            log = open(os.path.join(tmp, 'w{}.log'.format(i)), 'wb')
            procs.append((subprocess.Popen(
                [sys.executable, '-m', 'tbv', prop.id, '--worker',
                 str(seed_for(base_seed, prop.id, i)), str(per), out],
                cwd=VERIF, env=env(), stdout=log, stderr=log), out))
        stopped = False
        while any(p.poll() is None for p, _ in procs):
            time.sleep(0.05)
            if not stopped and any(
                    os.path.exists(o) and json.load(open(o))['failure']
                    for _, o in procs):
                stopped = True
                for p, _ in procs:
                    if p.poll() is None:
                        p.terminate()
        results, problems = [], []
        for i, (p, out) in enumerate(procs):
            if os.path.exists(out):
                results.append(json.load(open(out)))
                if results[-1]['harness']:
                    problems.append(results[-1]['harness'])
            elif not stopped:
                with open(os.path.join(tmp, 'w{}.log'.format(i)), 'rb') as f:
                    problems.append('worker {} ended with {}:\n{}'.format(
                        i, p.returncode, f.read()[-3000:].decode(
                            errors='replace')))
        return finish(prop, tier, base_seed, results, problems, t0, per)
    finally:
        for p, _ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)


def finish(prop, tier, base_seed, results, problems, t0, per):
    tags, nt, samples = Counter(), set(), []
    evals = 0
    for r in results:
        evals += r['evaluations']
        tags.update(r['tags'])
        nt.update(r['nt'])
        samples.extend(r['samples'])
    failures = sorted((r['failure'] for r in results if r['failure']),
                      key=lambda f: f['len'])
    violations = []
    rc = 0
    for f in failures[:1]:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '{}-{}.json'.format(prop.id, hashlib.sha1(
            canon(f['case']).encode()).hexdigest()[:10]))
        with open(path, 'w') as fh:
            json.dump({'property': prop.id, 'message': f['message'],
                       'seed': base_seed, 'case': f['case']}, fh, indent=1,
                      default=str)
        ok, text = replay_confirms(prop.id, path)
        print('violated: {}'.format(f['message']))
        print('minimal case: {}'.format(canon(f['case'])[:3000]))
        if not ok:
            # observed against the real code during the run, yet dependent on
            # what the same process had done before
            print('note: the single case does not fail in a fresh process; '
                  'the failure depends on the preceding calls (re-run with '
                  'VERIF_SEED={})'.format(base_seed))
        print('VIOLATION property={} replay={}'.format(prop.id, path))
        violations.append({'replay': path, 'message': f['message'],
                           'reproduced_in_fresh_process': ok})
        rc = 1
    if problems:
        sys.stderr.write('{} worker(s) broke; the first:\n{}\n'.format(
            len(problems), problems[0]))
        if rc == 0:
            rc = 2
    seen, uniq = set(), []
    for s in samples:
        if s not in seen and len(uniq) < 6:
            seen.add(s)
            uniq.append(s)
    evidence = {
        'property': prop.id, 'tier': tier, 'seed': base_seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': evals,
            'distinct_nontrivial': len(nt),
            'rule': prop.rule,
            'samples': uniq,
            'distribution': dict(sorted(tags.items())),
            'cases_per_worker': per,
            'slowest_case_cpu_s': round(max(
                [r['slowest'] for r in results] or [0]), 2),
            'workers': WORKERS,
        },
        'wall_s': round(time.time() - t0, 2),
        'assumptions': prop.assumptions,
        'violations': len(violations),
    }
    if violations:
        evidence['coverage']['violations'] = violations
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    print('{} {} tier={} seed={}: {} cases, {} distinct non-trivial, '
          '{} violation(s), {:.1f} s'.format(
              'FAIL' if rc == 1 else 'ERROR' if rc else 'ok', prop.id, tier,
              base_seed, evals, len(nt), len(violations), time.time() - t0))
    return rc


def replay(prop, path):
    from . import core
    signal.signal(signal.SIGPROF, _on_prof)
    with open(path) as f:
        case = json.load(f)['case']
    rec = core.Rec()
    msg = run_case(prop, case, rec)
    if msg is None:
        print('no violation: the property holds on {}'.format(path))
        return 0
    print('violated: {}'.format(msg))
    print('VIOLATION property={} replay={}'.format(prop.id, path))
    return 1
