"""Runner: executes monitored workloads and turns what they saw into a verdict.

A check is a module in ``checks/`` that defines

``PROP``      property id
``RULE``      how cases are made and what makes one non-trivial
``CASES``     {'quick': n, 'thorough': n}
``run_case(ctx)``
    run one workload; ``ctx.rng`` is its only source of randomness. A broken
    property is reported with ``ctx.fail(message)``.

and optionally ``directed()`` (a list of functions taking ``ctx`` which are run
first, in every run), ``ASSUMPTIONS``, ``known(ctx)`` (probes of the known
findings) and ``MIN_EVENTS`` (counters which have to be non-zero).
"""
import collections
import gc
import hashlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import traceback

from lib import model

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DSCH_REPO', '/repo')
DSCH_DIR = os.path.join(os.path.realpath(REPO), 'dsch') + os.sep

CASE_TIMEOUT = 180
TIME_CAP = {'quick': 240, 'thorough': 780}


class Violation(Exception):
    """The monitor saw the property broken."""

    def __init__(self, message, mechanism=None):
        super().__init__(message)
        self.message = message
        self.mechanism = mechanism


class Inconclusive(Exception):
    """The case could not be decided (e.g. a watchdog fired)."""


class Ctx:
    """Context of one case: randomness, scratch directory, event counters."""

    def __init__(self, prop, seed, case, tier, scratch):
        self.prop = prop
        self.seed = seed
        self.case = case
        self.tier = tier
        self.scratch = scratch
        self.rng = random.Random('%s:%s:%s' % (seed, prop, case))
        self.events = collections.Counter()
        self.states = set()
        self.log_lines = []
        self.sample = None
        self._files = 0
        model.reset_forms()

    def log(self, text):
        if len(self.log_lines) < 3000:
            self.log_lines.append(text)

    def event(self, name, n=1):
        self.events[name] += n

    def state(self, key):
        """Register a distinct, non-trivial observed state."""
        self.states.add(hashlib.blake2b(repr(key).encode(
            'utf8', 'backslashreplace'), digest_size=8).digest())

    def path(self, ext):
        self._files += 1
        return os.path.join(self.scratch, 'f%d.%s' % (self._files, ext))

    def dir(self):
        self._files += 1
        path = os.path.join(self.scratch, 'd%d' % self._files)
        os.mkdir(path)
        return path

    def fail(self, message, mechanism=None):
        raise Violation(message, mechanism)

    def check(self, condition, message):
        if not condition:
            raise Violation(message)


def in_dsch(tb):
    """Whether a traceback passes through the code under test."""
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if os.path.realpath(name).startswith(DSCH_DIR):
            return True
        tb = tb.tb_next
    return False


# Raised by the oracles themselves if a result has not the promised form, e.g.
# None in place of a data node.
UNUSABLE = (TypeError, AttributeError, LookupError, ValueError)


def classify(exc):
    """('violation'|'inconclusive'|'error', message, mechanism)."""
    if isinstance(exc, Violation):
        return 'violation', exc.message, exc.mechanism
    if isinstance(exc, Inconclusive):
        return 'inconclusive', str(exc), None
    text = ''.join(traceback.format_exception(type(exc), exc,
                                              exc.__traceback__))
    if in_dsch(exc.__traceback__):
        return ('violation', 'unexpected %s: %s\n%s' % (
            type(exc).__name__, safe_str(exc), text), None)
    if isinstance(exc, UNUSABLE):
        # The oracles only handle what the code under test gave them.
        return ('violation', 'unusable result: %s: %s\n%s' % (
            type(exc).__name__, safe_str(exc), text), None)
    return 'error', text, None


def safe_str(exc):
    try:
        return str(exc)
    except Exception as err:  # pylint: disable=broad-except
        return '<str() failed: %r>' % err


def _on_alarm(signum, frame):
    raise Inconclusive('case ran for more than %d s' % CASE_TIMEOUT)


def run_one(module, ctx, fn=None):
    """Run one case and return its verdict."""
    try:
        (fn or module.run_case)(ctx)
    except Exception as exc:  # pylint: disable=broad-except
        return classify(exc)
    return None


def _scratch_base():
    for base in ('/dev/shm', None):
        if base is None or (os.path.isdir(base) and os.access(base, os.W_OK)):
            return tempfile.mkdtemp(prefix='dschcheck-', dir=base)


def _clean(path):
    for name in os.listdir(path):
        full = os.path.join(path, name)
        if os.path.isdir(full) and not os.path.islink(full):
            shutil.rmtree(full, ignore_errors=True)
        else:
            try:
                os.unlink(full)
            except OSError:
                pass


def case_list(module, tier):
    directed = module.directed() if hasattr(module, 'directed') else []
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    n = max(1, int(module.CASES[tier] * scale))
    return directed, len(directed) + n


def case_function(module, directed, idx):
    return directed[idx] if idx < len(directed) else None


def _worker(module, seed, tier, cases, scratch, deadline, progress, out):
    """Run the given cases and send the collected results."""
    signal.signal(signal.SIGALRM, _on_alarm)
    directed, _ = case_list(module, tier)
    res = {'events': collections.Counter(), 'states': set(), 'done': 0,
           'bad': [], 'samples': [], 'skipped': 0}
    for idx in cases:
        if time.time() > deadline:
            res['skipped'] += 1
            continue
        progress.value = idx
        ctx = Ctx(module.PROP, seed, idx, tier, scratch)
        signal.alarm(CASE_TIMEOUT)
        try:
            bad = run_one(module, ctx, case_function(module, directed, idx))
        except Inconclusive as exc:
            bad = ('inconclusive', str(exc), None)
        finally:
            signal.alarm(0)
        res['done'] += 1
        res['events'].update(ctx.events)
        res['states'] |= ctx.states
        if ctx.sample and len(res['samples']) < 2:
            res['samples'].append('case %d: %s' % (idx, ctx.sample))
        _clean(scratch)
        if bad:
            res['bad'].append((idx,) + bad + (ctx.log_lines[-60:],))
            if sum(b[1] == 'violation' and b[3] is None
                   for b in res['bad']) >= 3 or len(res['bad']) > 50:
                break
    progress.value = -1
    out.send(res)
    out.close()


def run_check(module, tier, seed, jobs=None):
    """Run a whole check and return the exit code."""
    start = time.time()
    sys.setrecursionlimit(5000)
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or min(
        8, os.cpu_count() or 1)
    directed, total = case_list(module, tier)
    deadline = start + TIME_CAP[tier]
    base = _scratch_base()
    merged = {'events': collections.Counter(), 'states': set(), 'done': 0,
              'bad': [], 'samples': [], 'skipped': 0}
    try:
        mp = multiprocessing.get_context('fork')
        gc.collect()
        gc.freeze()
        workers = []
        for w in range(jobs):
            cases = list(range(w, total, jobs))
            if not cases:
                continue
            workers.append(_start(mp, module, seed, tier, cases, base, w,
                                  deadline))
        for proc, conn, progress, cases, w in workers:
            res = _collect(proc, conn, deadline)
            if res is None:
                res = _after_crash(mp, module, seed, tier, base, w, proc,
                                   progress, cases, deadline)
            for key in ('events', ):
                merged[key].update(res[key])
            merged['states'] |= res['states']
            merged['done'] += res['done']
            merged['skipped'] += res['skipped']
            merged['bad'] += res['bad']
            merged['samples'] += res['samples']
        known = []
        if hasattr(module, 'known'):
            ctx = Ctx(module.PROP, seed, 'known', tier, os.path.join(
                base, 'known'))
            os.mkdir(ctx.scratch)
            known = run_known(module, ctx)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return report(module, tier, seed, merged, known, time.time() - start)


def _start(mp, module, seed, tier, cases, base, w, deadline):
    scratch = tempfile.mkdtemp(prefix='w%d-' % w, dir=base)
    recv, send = mp.Pipe(duplex=False)
    progress = mp.Value('q', -1)
    proc = mp.Process(target=_worker, args=(
        module, seed, tier, cases, scratch, deadline, progress, send))
    sys.stdout.flush()
    proc.start()
    send.close()
    return proc, recv, progress, cases, w


def _collect(proc, conn, deadline):
    """Results of a worker, or None if it died."""
    limit = deadline + CASE_TIMEOUT + 20
    while True:
        try:
            if conn.poll(min(5.0, max(0.1, limit - time.time()))):
                res = conn.recv()
                proc.join(20)
                if proc.is_alive():
                    proc.kill()
                return res
        except EOFError:
            proc.join(20)
            return None
        if time.time() > limit:
            proc.kill()
            proc.join()
            return None


def _after_crash(mp, module, seed, tier, base, w, proc, progress, cases,
                 deadline):
    """A worker died: run its last case alone to see whether it does again."""
    idx = progress.value
    empty = {'events': collections.Counter(), 'states': set(), 'done': 0,
             'bad': [], 'samples': [], 'skipped': 0}
    code = proc.exitcode
    if idx < 0:
        empty['bad'].append((-1, 'error', 'worker ended with %s' % code, None,
                             []))
        return empty
    again = _start(mp, module, seed, tier, [idx], base, w, time.time() + 60)
    res = _collect(again[0], again[1], time.time() + 60)
    if res is None:
        code2 = again[0].exitcode
        kind = ('violation' if code == code2 and code2 in
                (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS,
                 -signal.SIGFPE) else 'error')
        empty['bad'].append((idx, kind, 'the process running the case died '
                             'twice with exit code %s' % code2, None, []))
        return empty
    # Not reproducible: go on with the remaining cases of this worker.
    rest = cases[cases.index(idx) + 1:]
    if rest:
        more = _start(mp, module, seed, tier, rest, base, w, deadline)
        res2 = _collect(more[0], more[1], deadline)
        if res2 is not None:
            res2['events'].update(res['events'])
            res2['states'] |= res['states']
            res2['done'] += res['done']
            res2['bad'] += res['bad']
            res = res2
    res['bad'].append((idx, 'inconclusive', 'worker died once with exit code '
                       '%s' % code, None, []))
    return res


# ------------------------------------------------------------ known findings

def load_findings():
    path = os.path.join(VERIF, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)['findings']


def run_known(module, ctx):
    """Probe the listed findings; returns [(mechanism, text, bad)]."""
    out = []
    listed = {f['mechanism']: f for f in load_findings()
              if f['property'] == module.PROP}
    for mechanism, fn in module.known():
        bad = run_one(module, ctx, fn)
        _clean(ctx.scratch)
        if bad is None:
            continue
        if mechanism in listed and bad[0] == 'violation':
            out.append(('known', mechanism, listed[mechanism]['what']))
        else:
            out.append((bad[0], mechanism, bad[1]))
    return out


# ------------------------------------------------------------ reporting

def report(module, tier, seed, merged, known, wall):
    prop = module.PROP
    violations, errors, inconclusive = [], [], []
    listed = {f['mechanism'] for f in load_findings()
              if f['property'] == prop}
    known_seen = collections.Counter()
    for idx, kind, message, mechanism, log in sorted(
            merged['bad'], key=lambda b: str(b[0])):
        if kind == 'violation' and mechanism in listed:
            known_seen[mechanism] += 1
        elif kind == 'violation':
            violations.append((idx, message, log))
        elif kind == 'error':
            errors.append((idx, message))
        else:
            inconclusive.append((idx, message))
    for kind, mechanism, text in known:
        if kind == 'known':
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
        elif kind == 'violation':
            violations.append(('known:' + mechanism, text, []))
        else:
            errors.append(('known:' + mechanism, text))

    need = getattr(module, 'MIN_EVENTS', ())
    missing = [name for name in need if not merged['events'].get(name)]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed,
        'level': getattr(module, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': merged['done'],
            'distinct_nontrivial': len(merged['states']),
            'rule': module.RULE,
            'samples': (merged['samples'] or ['(none)'])[:6],
            'observed': dict(sorted(merged['events'].items())),
            'skipped_for_time': merged['skipped'],
            'inconclusive_cases': len(inconclusive),
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', ())),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write('\n')

    print('%s %s: %d cases, %d distinct non-trivial states, %.1f s; %s' % (
        prop, tier, merged['done'], len(merged['states']), wall,
        ', '.join('%s=%d' % kv for kv in sorted(merged['events'].items()))))
    if violations:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for n, (idx, message, log) in enumerate(violations[:3]):
            name = os.path.join('replays', '%s-%s-%s.json' % (
                prop, seed, str(idx).replace(':', '-')))
            with open(os.path.join(VERIF, name), 'w') as f:
                json.dump({'property': prop, 'tier': tier, 'seed': seed,
                           'case': idx, 'message': message, 'log': log,
                           'replay_cmd': './check %s --tier %s --seed %s '
                           '--case %s' % (prop, tier, seed, idx)}, f, indent=1)
            print('case %s: %s' % (idx, '\n    '.join(
                message.strip().splitlines()[:30])))
            for line in log[-25:]:
                print('    | ' + line[:300])
        first = violations[0][0]
        print('VIOLATION property=%s replay=%s' % (
            prop, os.path.join('replays', '%s-%s-%s.json' % (
                prop, seed, str(first).replace(':', '-')))))
        return 1
    if errors:
        for idx, message in errors[:3]:
            print('ERROR of the check in case %s:\n%s' % (idx, message))
        return 2
    if missing or not merged['done'] or not merged['states']:
        print('INCONCLUSIVE: nothing observed for %s' % (missing or 'any'))
        return 2
    if inconclusive:
        print('inconclusive cases: %s' % inconclusive[:3])
        if len(inconclusive) * 20 > merged['done']:
            return 2
    return 0


def replay(module, tier, seed, case):
    """Run a single case in this process, printing its log."""
    directed, _ = case_list(module, tier)
    base = _scratch_base()
    ctx = Ctx(module.PROP, seed, case if isinstance(case, str) else int(case),
              tier, base)
    try:
        if isinstance(case, str):
            fn = dict(module.known())[case.split(':')[1]]
        else:
            fn = case_function(module, directed, case)
        bad = run_one(module, ctx, fn)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    for line in ctx.log_lines:
        print('    | ' + line[:1000])
    if bad:
        print(bad[0], ':', bad[1])
        return 1 if bad[0] == 'violation' else 2
    print('held')
    return 0
