#!/usr/bin/env python3-vt
"""Runs the check of one property:  run.py C01   (see DESIGN.md)"""
import glob
import importlib
import json
import os
import pickle
import random
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)
START = time.time()

from pydv import instrument, vc   # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
MAXV = int(os.environ.get("VERIF_MAXV", "5"))
WORKERS = int(os.environ.get('VERIF_WORKERS', '6'))
# for z3 and for code under test that does not end
HARD_LIMIT = 600 if TIER == 'quick' else 4 * 3600
ONE_LIMIT = 330 if TIER == 'quick' else 2000
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Bounded:
    """Collects the bounded checks of a run."""

    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.rng = random.Random(seed)
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.failures = []      # (sig, message, replay dict)
        self.parts = {}
        self.part = None
        self.skipped = []

    def thorough(self):
        return self.tier == 'thorough'

    def begin(self, name, bound):
        self.part = {'bound': bound, 'evaluations': 0}
        self.parts[name] = self.part

    def case(self, key=None, sample=None):
        self.evaluations += 1
        if self.part is not None:
            self.part['evaluations'] += 1
        if key is not None and len(self.distinct) < 2000000:
            self.distinct.add(hash(key))
        if sample is not None and len(self.samples) < 6:
            self.samples.append(sample)

    def fail(self, sig, message, **replay):
        if len(self.failures) < 200:
            self.failures.append((sig, message, replay))

    def skip(self, what):
        self.skipped.append(what)


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p, encoding='utf-8') as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k['status'] == 'known']


def write_replay(pid, name, data):
    d = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (pid, name))
    with open(p, 'w', encoding='utf-8') as f:
        json.dump(data, f, indent=1, ensure_ascii=True, default=repr)
    return p


def explore_one(pid, index):
    c = importlib.import_module('checks.' + pid.lower()).CONTRACTS[index]
    try:
        r = vc.explore(c.__name__, c, timeout=getattr(c, 'timeout', 300 if TIER == 'quick' else 1800))
    except Exception as e:           # an engine error never counts as a proof
        traceback.print_exc()
        r = vc.Result(c.__name__)
        r.unsupported = 'engine error: %s' % e
    r.doc = (c.__doc__ or '').strip()
    return r


def start_workers(pid, todo, tmp):
    """processes that explore the contracts (plain forks: no helper threads, so nothing is inherited by accident)"""
    pids = []
    sys.stdout.flush()
    for k in range(min(WORKERS, len(todo))):
        p = os.fork()
        if p:
            pids.append(p)
            continue
        code = 0
        try:
            for i in todo[k::min(WORKERS, len(todo))]:
                q = os.fork()
                if not q:
                    r = explore_one(pid, i)
                    with open(os.path.join(tmp, '%d.tmp' % i), 'wb') as f:
                        pickle.dump(r, f)
                    os.rename(os.path.join(tmp, '%d.tmp' % i), os.path.join(tmp, '%d' % i))
                    sys.stdout.flush()
                    os._exit(0)
                begin = time.time()
                while os.waitpid(q, os.WNOHANG)[0] == 0:
                    if time.time() - START > HARD_LIMIT or time.time() - begin > ONE_LIMIT:     # inside z3, where explore() can't stop it
                        os.kill(q, signal.SIGKILL)
                        os.waitpid(q, 0)
                        break
                    time.sleep(.02)
        except BaseException:        # pylint: disable=broad-except
            traceback.print_exc()
            code = 1
        os._exit(code)
    return pids


def collect(pids, module, todo, tmp):
    for p in pids:
        os.waitpid(p, 0)
    results = []
    for i in todo:
        try:
            with open(os.path.join(tmp, '%d' % i), 'rb') as f:
                results.append(pickle.load(f))
        except OSError:
            r = vc.Result(module.CONTRACTS[i].__name__)
            r.unsupported = 'the exploring process ended or exceeded the time limit'
            r.doc = (module.CONTRACTS[i].__doc__ or '').strip()
            results.append(r)
    return results


def crosscheck():
    """the instrumented modules against the original ones (pydv/selftest.py), in a process of its own; None if it can't run"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(120 if TIER == 'quick' else 1200)
        try:
            from pydv import selftest
            os.write(w, json.dumps(selftest.compare(40 if TIER == 'thorough' else 4, SEED)).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return dict(zip(('evaluations', 'with a value', 'different'), json.loads(text))) if text else None


def run_bounded(module, b):
    """bounded() or each function of BOUNDED; an exception of the code under test is a failure, one of the
    harness is reported as skipped"""
    class TimeLimit(BaseException):
        pass

    def stop(_signal, _frame):
        raise TimeLimit

    signal.signal(signal.SIGALRM, stop)
    for f in getattr(module, 'BOUNDED', None) or [module.bounded]:
        signal.alarm(max(1, int(START + HARD_LIMIT - time.time())))
        try:
            f(b)
        except TimeLimit:
            b.skip('%s: the time limit is exceeded' % f.__name__)
        except Exception as e:       # pylint: disable=broad-except
            frames = traceback.extract_tb(e.__traceback__)
            traceback.print_exc()
            if frames[-1].filename.startswith(os.path.join(instrument.REPO, 'crazy_complete')) and \
                    any(fr.filename.startswith(HERE) for fr in frames) and not isinstance(e, ImportError):
                b.fail('crash:%s' % type(e).__name__, 'the code under test raised %s: %s' % (type(e).__name__, e),
                       where='%s:%s' % (frames[-1].filename, frames[-1].lineno))
            else:
                b.skip('%s: %s: %s' % (f.__name__, type(e).__name__, e))
        finally:
            signal.alarm(0)


def main():
    pid = sys.argv[1]
    os.dup2(os.open(os.devnull, os.O_RDONLY), 0)
    t0 = time.time()
    module = importlib.import_module('checks.' + pid.lower())
    instrument.install()
    only = sys.argv[2] if len(sys.argv) > 2 else None
    chosen = [c for c in getattr(module, 'CONTRACTS', []) if not only or only in c.__name__]
    b = Bounded(TIER, SEED)
    # every contract is explored in its own process, the bounded part in this one
    todo = [i for i, c in enumerate(getattr(module, 'CONTRACTS', [])) if c in chosen]
    with tempfile.TemporaryDirectory(prefix='verif-run-') as tmp:
        workers = start_workers(pid, todo, tmp)
        if (hasattr(module, 'bounded') or hasattr(module, 'BOUNDED')) and only in (None, '@'):
            run_bounded(module, b)
        results = collect(workers, module, todo, tmp)
    cross = crosscheck() if results else None
    if cross and cross['different']:
        for r in results:            # the verified text is not what runs: nothing is proved
            r.failed, r.unsupported = [], 'the instrumented modules differ from the original ones'
    for r in results:
        print('  contract %-42s %-11s paths=%-4d obligations=%d/%d %.2fs %s' % (
            r.name, r.status, r.paths, r.discharged, r.obligations, r.wall, r.unsupported or ''), flush=True)
        for f in r.failed[:5]:
            print('      failed:', f[0][:300], str(f[1])[:200], f[2])
    for n, p in b.parts.items():
        print('  bounded  %-42s %d evaluations (%s)' % (n, p['evaluations'], p['bound']))
    for s in b.skipped:
        print('  bounded  skipped:', s)

    for old in glob.glob(os.path.join(HERE, 'evidence', 'replay', pid + '-*')):
        os.unlink(old)
    known = known_findings(pid)
    lines, seen_known, nviol = [], set(), 0

    def report(sig, message, data, concrete=True):
        nonlocal nviol
        for k in known:
            if k['sig'] == sig:
                if sig not in seen_known:
                    seen_known.add(sig)
                    lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
                return
        nviol += 1
        if nviol > MAXV:
            return
        data = dict(data, property=pid, failing=sig, message=message)
        path = write_replay(pid, str(nviol), data)
        print('  ', sig, '--', message[:1500])
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if concrete else ' no-failing-input-found'))

    for sig, message, replay in b.failures:
        report(sig, message, {'kind': 'concrete input', 'input': replay})
    for r in results:
        if r.status != 'refuted':
            if r.failed and not r.unsupported:
                r.unsupported = 'undecided: %s (%s)' % (r.failed[0][0], r.failed[0][2])
            continue
        done = False
        # replay the solver's counterexamples against the real code
        rep = getattr(module, 'replay', None)
        if rep is not None:
            for name, hints, why in r.failed:
                try:
                    got = rep(r.name, hints)
                except Exception:      # pylint: disable=broad-except
                    traceback.print_exc()
                    got = None
                if got:
                    report(got[0], got[1], {'kind': 'concrete input from the counterexample',
                                            'input': got[2] if len(got) > 2 else hints,
                                            'obligation': name, 'contract': r.name})
                    done = True
                    break
        if not done and not any(s for s in b.failures):
            report('obligation:%s' % r.name, r.failed[0][0],
                   {'kind': 'failed obligation', 'contract': r.name, 'contract_text': r.doc,
                    'failed': [{'obligation': n, 'model': h, 'verdict': w} for n, h, w in r.failed[:20]]},
                   concrete=False)

    proved = [r for r in results if r.status == 'proved']
    cov = {
        'obligations': sum(r.obligations for r in results if r.status != 'unsupported'),
        'discharged': sum(r.discharged for r in results if r.status != 'unsupported'),
        'checker_cmd': 'python3-vt run.py %s' % pid,
        'back_end': 'z3 %s' % '.'.join(map(str, __import__('z3').get_version()[:3])),
        'solver_seconds': round(sum(r.solver_s for r in results), 3),
        'solver_queries': sum(r.checks for r in results),
        'contracts': [{'name': r.name, 'status': r.status, 'states': r.doc, 'paths': r.paths,
                       'obligations': r.obligations, 'discharged': r.discharged,
                       'functions': sorted(r.functions), 'assumed': r.assumed,
                       'reason': r.unsupported} for r in results],
        'functions_under_contract': sorted({f for r in proved for f in r.functions}),
        'trusted_base': getattr(module, 'TRUSTED', []) + [
            'pydv: the syntactic instrumentation (pydv/instrument.py) and its models of Python built-ins (pydv/vc.py)',
            'z3', 'CPython executes the instrumented text as the original (cross-checked by pydv/selftest.py)'],
        'instrumentation_crosscheck': cross,
        'bounded': b.parts,
        'bounded_note': 'bounded parts are never counted as proved',
        'evaluations': b.evaluations,
        'distinct_nontrivial': len(b.distinct),
        'rule': getattr(module, 'RULE', 'distinct inputs of the bounded parts'),
        'samples': b.samples,
        'skipped': b.skipped,
    }
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': getattr(module, 'LEVEL', 'proof'),
          'coverage': cov, 'assumptions': getattr(module, 'ASSUMPTIONS', []) + sorted({a for r in results for a in r.assumed}),
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, default=repr)
    print('%s: %d contracts proved of %d, %d/%d obligations, %d bounded evaluations, %.1fs' % (
        pid, len(proved), len(results), cov['discharged'], cov['obligations'], b.evaluations, time.time() - t0))
    for l in lines:
        print(l)
    if nviol:
        sys.exit(1)
    undecided = [r.name for r in results if r.status in ('unsupported', 'vacuous')]
    if undecided:
        print('UNDECIDED contracts (decided by the bounded part only):', ', '.join(undecided))
    if not proved and not b.evaluations:
        print('nothing was checked')
        sys.exit(3)
    sys.exit(0)


if __name__ == '__main__':
    main()
