"""
Shared runner of the property checks.

Each module of pbt.checks states one property as executable checks ("subs"): a generator of plain JSON cases, and a
function deciding a case, which raises Violation when the code under test breaks the property. The runner drives the
generators with Hypothesis (seeded by VERIF_SEED), shrinks a failure, writes it as a replay file and records what was
explored in evidence/<id>.json.
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import resource
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEMREC_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
EVIDENCE = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')

# Backward jumps that one case may execute in the code under test, seconds of processor that it may take, and memory of
# the process. The largest case stays far below: half a million, about one second, and some hundreds of MB
STEP_BUDGET = 20_000_000
CPU_BUDGET = 45
MEMORY_BUDGET = 12 << 30
SHRINKING_SECONDS = 90


def setup_paths():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # After everything else, so the libraries the repository runs with keep precedence
    if VT not in sys.path:
        sys.path.append(VT)
    import warnings
    warnings.filterwarnings('ignore')


class Violation(Exception):
    """The code under test breaks the property"""


class HarnessError(Exception):
    """The machinery itself failed: never reported as a violation"""


class Hang(BaseException):
    """The code under test exceeded the step budget in one case"""


def require(cond, msg, *args):
    if not cond:
        try:
            raise Violation(msg.format(*args) if args else msg)
        except (KeyError, IndexError, ValueError):
            # The text of an instruction may have braces
            raise Violation('{} {}'.format(msg, args))


def equal(actual, expected, what):
    if actual != expected:
        raise Violation('{}: got {!r}, expected {!r}'.format(what, _short(actual), _short(expected)))


def _short(x, n=600):
    s = repr(x)
    return x if len(s) <= n else s[:n] + '...'


def raises(fn, what, exc=Exception):
    """fn has to be rejected"""
    try:
        r = fn()
    except exc:
        return
    raise Violation('{}: expected to be rejected, returned {!r}'.format(what, _short(r)))


class Sub(object):
    """
    One generator and its oracle. Either `strategy` (a callable building a Hypothesis strategy of JSON cases) with the
    number of examples per tier, or `sweep` (a callable giving the cases of a tier, from small to large).
    """

    def __init__(self, name, fn, strategy=None, quick=200, thorough=4000, sweep=None):
        self.name, self.fn, self.strategy, self.sweep = name, fn, strategy, sweep
        self.count = {'quick': quick, 'thorough': thorough}


class Ctx(object):
    def __init__(self, prop):
        self.prop = prop
        self.known_ids = load_findings(prop)
        self.known_seen = {}
        self.labels = {}
        self.counts = {}

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def note(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def known(self, fid, msg):
        """A deviation matching exactly a listed finding. If it is not listed, it is a violation"""
        if fid not in self.known_ids:
            raise Violation(msg)
        self.known_seen[fid] = self.known_seen.get(fid, 0) + 1


def load_findings(prop):
    """Ids of the findings listed for a property: 'KNOWN-FINDING: property=<id> finding=<fid> <what>'"""
    result = {}
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            if line.startswith('KNOWN-FINDING: property={} '.format(prop)):
                fid = line.split('finding=')[1].split()[0]
                result[fid] = line.strip()
    return result


class Steps(object):
    """Counts backward jumps executed by the code under test: a deterministic way of noticing endless loops"""
    TOOL = 4

    def __init__(self):
        self.left = 0
        self.code = {}
        self.prefix = os.path.realpath(REPO) + os.sep
        self.mon = getattr(sys, 'monitoring', None)
        if self.mon:
            try:
                self.mon.use_tool_id(self.TOOL, 'semrec-steps')
            except ValueError:
                self.mon = None
                return
            self.mon.register_callback(self.TOOL, self.mon.events.JUMP, self._jump)
            self.mon.set_events(self.TOOL, self.mon.events.JUMP)

    def _jump(self, code, src, dst):
        tested = self.code.get(code)
        if tested is None:
            # Frozen modules have no absolute name, and are not the ones tested whatever the working directory is
            tested = os.path.isabs(code.co_filename) and os.path.realpath(code.co_filename).startswith(self.prefix)
            self.code[code] = tested
        if not tested or dst > src:
            return self.mon.DISABLE
        self.left -= 1
        if self.left < 0:
            self.left = STEP_BUDGET
            raise Hang('step budget exceeded')

    def reset(self):
        self.left = STEP_BUDGET


class Clock(object):
    """Interrupts a case which takes too long without many jumps"""

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, self._expired)
        # Again each second, as the code under test may catch the first one
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_BUDGET, 1)

    def _expired(self, *args):
        raise Hang('processor budget exceeded')

    def __exit__(self, *args):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def case_key(sub, case):
    return hashlib.sha1((sub.name + json.dumps(case, sort_keys=True)).encode()).digest()[:10]


def evaluate(sub, case, ctx, steps):
    """
    Decide one case. Returns None or the description of the violation. Any exception of the code under test on a case
    of the domain is a violation: the generators only make inputs that the code has to handle.
    """
    steps.reset()
    out = io.StringIO()
    orig = sys.stdout
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), Clock():
            nontrivial = sub.fn(ctx, case)
        return None, bool(nontrivial)
    except Violation as v:
        return str(v), True
    except HarnessError:
        raise
    except Hang as e:
        return 'does not terminate: ' + str(e), True
    except MemoryError:
        return 'does not terminate: out of memory', True
    except Exception as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        frames = traceback.extract_tb(e.__traceback__)
        where = [f for f in frames if os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)]
        # The results of the code have a wrong shape if the oracle itself cannot go through them
        f = (where or frames)[-1]
        return 'raises {}: {} at {}:{}'.format(type(e).__name__, str(e)[:300], f.filename, f.lineno), True
    finally:
        sys.stdout = orig


class Found(Exception):
    """Carries a violation through Hypothesis. The message is constant so the shrinker sees one failure"""


def run_sub(sub, prop, tier, seed, idx, ctx, steps, stats):
    last = {}

    def one(case):
        case = json.loads(json.dumps(case))
        stats['evaluations'] += 1
        msg, nontrivial = evaluate(sub, case, ctx, steps)
        if msg is not None:
            last['case'], last['msg'] = case, msg
            raise Found()
        if nontrivial:
            k = case_key(sub, case)
            if k not in stats['seen']:
                stats['seen'].add(k)
                s = stats['samples'].setdefault(sub.name, [])
                n = stats['per_sub'].setdefault(sub.name, [0, 0])
                n[1] += 1
                # Keep samples spread over the run: 1st, 10th, 100th...
                if n[1] in (1, 10, 100, 1000) and len(json.dumps(case)) < 1500:
                    s.append(case)
        stats['per_sub'].setdefault(sub.name, [0, 0])[0] += 1

    if sub.sweep is not None:
        for case in sub.sweep(tier):
            try:
                one(case)
            except Found:
                return last['case'], last['msg']
        return None

    strategy = sub.strategy()
    key = int(hashlib.sha1('{}/{}/{}'.format(prop, sub.name, seed).encode()).hexdigest()[:12], 16)
    n = sub.count[tier]
    try:
        # What Hypothesis prints about the failure is replaced by the replay file
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            # Independent random cases, of any size, and then the ones of the engine, which are smaller and
            # combine parts of one another
            random_cases(strategy, one, n, key, stats)
            engine_cases(strategy, one, max(min(30, n), n // 4), key)
    except Found:
        return last['case'], last['msg']
    except HarnessError:
        raise
    except BaseException as e:
        from hypothesis.errors import HypothesisException
        if last and (isinstance(e, (HypothesisException, BaseExceptionGroup))):
            # e.g. the failure depends on state the code keeps between cases
            return last['case'], last['msg'] + ' (not on every execution)'
        raise
    return None


def draw_case(data, strategy):
    from hypothesis.control import BuildContext
    with BuildContext(data, is_final=False, wrapped_test=None):
        return data.draw(strategy)


def random_cases(strategy, one, n, key, stats):
    """Hypothesis draws every choice at random, without guiding them. A failure is shrunk by its engine"""
    from random import Random
    from hypothesis.errors import StopTest
    from hypothesis.internal.conjecture.data import ConjectureData
    done = tries = 0
    while done < n and tries < 4 * n + 100:
        tries += 1
        data = ConjectureData(random=Random(key + tries))
        try:
            case = draw_case(data, strategy)
        except StopTest:
            stats['rejected'] = stats.get('rejected', 0) + 1
            continue
        done += 1
        start = time.time()
        try:
            one(case)
        except Found:
            # Too slow to be shrunk if it does not terminate
            if time.time() - start < CPU_BUDGET / 4:
                shrink(strategy, one, data.choices)
            raise
    if done < n // 2:
        raise HarnessError('only {} cases of {} could be generated'.format(done, n))


def shrink(strategy, one, choices):
    """The last case that `one` sees failing is the smallest one found"""
    from random import Random
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import settings, HealthCheck, Phase

    best = []

    def test(data):
        case = draw_case(data, strategy)
        try:
            one(case)
        except Found:
            best.append(case)
            data.mark_interesting('violation')

    runner = engine.ConjectureRunner(
        test, random=Random(0), settings=settings(max_examples=10 ** 6, database=None, deadline=None, phases=[Phase.shrink],
                                                  suppress_health_check=list(HealthCheck), report_multiple_bugs=False))
    try:
        runner.cached_test_function(choices)
        runner.shrink_interesting_test_cases()
    except engine.RunIsComplete:
        pass
    for result in runner.interesting_test_cases.values():
        # Leaves the smallest one as the last one seen
        data = engine.ConjectureData.for_choices(result.choices)
        try:
            one(draw_case(data, strategy))
        except Found:
            pass


def engine_cases(strategy, one, n, key):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase

    @hypothesis.seed(key)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink])
    @given(strategy)
    def test(case):
        one(case)

    test()


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, path)


def load_check(prop):
    return importlib.import_module('pbt.checks.' + prop.lower())


def run(prop, tier, seed):
    start = time.time()
    mod = load_check(prop)
    ctx, steps = Ctx(prop), Steps()
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = SHRINKING_SECONDS
    stats = {'evaluations': 0, 'seen': set(), 'samples': {}, 'per_sub': {}}
    violation = None
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='semrec-') as scratch:
        os.chdir(scratch)
        import hypothesis.configuration
        hypothesis.configuration.set_hypothesis_home_dir(os.path.join(scratch, '.hypothesis'))
        try:
            for idx, sub in enumerate(mod.SUBS):
                found = run_sub(sub, prop, tier, seed, idx, ctx, steps, stats)
                if found:
                    violation = (sub, found[0], found[1])
                    break
        finally:
            os.chdir(cwd)

    samples = [{'check': k, 'case': c} for k, v in stats['samples'].items() for c in v[:3]]
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': stats['evaluations'],
            'distinct_nontrivial': len(stats['seen']),
            'rule': mod.RULE,
            'samples': samples or [{'note': 'the run stopped before a non-trivial case'}],
            'per_check': {k: {'evaluations': v[0], 'distinct_nontrivial': v[1]} for k, v in stats['per_sub'].items()},
            'classes': dict(sorted(ctx.labels.items())),
            'known_findings_met': ctx.known_seen,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - start, 2),
        'violations': 1 if violation else 0,
    }
    if ctx.counts:
        evidence['coverage']['counts'] = ctx.counts
    write_json(os.path.join(EVIDENCE, prop + '.json'), evidence)

    for fid in sorted(ctx.known_seen):
        print(ctx.known_ids[fid])
    if violation:
        sub, case, msg = violation
        path = os.path.join(EVIDENCE, 'replay', '{}-{}.json'.format(prop, sub.name))
        write_json(path, {'property': prop, 'check': sub.name, 'case': case, 'message': msg, 'seed': seed,
                          'how': 'bash /verif/run.sh --replay <this file>'})
        print('{} [{}]: {}'.format(prop, sub.name, msg))
        print('minimal case: {}'.format(json.dumps(case)[:2000]))
        print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    print('{}: held on {} cases ({} distinct non-trivial) in {:.1f} s'.format(
        prop, stats['evaluations'], len(stats['seen']), time.time() - start))
    return 0


def replay(path):
    data = json.load(open(path))
    mod = load_check(data['property'])
    ctx, steps = Ctx(data['property']), Steps()
    sub = [s for s in mod.SUBS if s.name == data['check']][0]
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='semrec-') as scratch:
        os.chdir(scratch)
        try:
            msg, _ = evaluate(sub, data['case'], ctx, steps)
        finally:
            os.chdir(cwd)
    for fid in sorted(ctx.known_seen):
        print(ctx.known_ids[fid])
    if msg is None:
        print('{} [{}]: the case passes'.format(data['property'], data['check']))
        return 0
    print('{} [{}]: {}'.format(data['property'], data['check'], msg))
    print('VIOLATION property={} replay={}'.format(data['property'], path))
    return 1


def main(argv):
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('property', nargs='?')
    p.add_argument('--tier', choices=['quick', 'thorough'], default='quick')
    p.add_argument('--replay')
    args = p.parse_args(argv)
    setup_paths()
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    soft = MEMORY_BUDGET if hard == resource.RLIM_INFINITY else min(MEMORY_BUDGET, hard)
    resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 3000))
    try:
        if args.replay:
            return replay(os.path.abspath(args.replay))
        return run(args.property, args.tier, int(os.environ.get('VERIF_SEED') or 1))
    except (Exception, Hang):
        traceback.print_exc()
        print('ERROR of the check: no answer')
        return 2
