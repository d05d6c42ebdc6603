"""Runs a check: generates cases from the seed in forked workers, judges what enolib does on each, shrinks and stores
the first violation, and writes the evidence."""
import collections
import hashlib
import itertools
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

import real
from real import Hang

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = 8
CPU_LIMIT = 30          # CPU seconds for one case; far beyond anything a terminating run needs


class Violation(Exception):
    def __init__(self, what):
        super().__init__(what)
        self.what = what


class Check:
    """One property. Subclasses define generate() and judge()."""
    id = None
    level_note = ''
    rule = ''
    quick, thorough = 4000, 60000
    floors = {}                 # counter -> smallest acceptable number on a quick run (scaled for thorough)
    hang_is_violation = False
    assumptions = []

    def prepare(self):
        """Called in every worker before enolib is used for the first time."""

    def done(self):
        """Called at the end of every worker."""

    def enumerate(self, tier):
        """Exhaustive small-scope cases (iterable), shared out over the workers."""
        return ()

    def generate(self, rng, tier):
        raise NotImplementedError

    def judge(self, case, stats):
        """Raises Violation. Counts what was observed in stats. Returns a hashable signature when non-trivial."""
        raise NotImplementedError

    def shrinkable(self, case):
        return [k for k in ('ops', 'docs', 'doc') if k in case]

    def finish(self, tier, seed, stats):
        """Additional work in the parent; may raise Violation (with .case)."""


# --- watchdog ---------------------------------------------------------------------------------------------------
def _alarm(signum, frame):
    raise Hang()


def guarded(check, case, stats):
    """judge() under a CPU-time watchdog. Returns (signature, violation text or None)."""
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        return check.judge(case, stats), None
    except Violation as v:
        return None, v.what
    except MemoryError:
        raise
    except Exception:
        # the observation itself broke down: enolib handed out something no caller could use
        return None, 'what enolib returned could not be observed: ' + traceback.format_exc()[-1500:]
    except Hang:
        if check.hang_is_violation:
            return None, f"no outcome within {CPU_LIMIT} s of CPU time"
        stats['hung cases (not judged)'] += 1
        return None, None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


# --- line coverage of enolib as evidence that the workload reaches the code -----------------------------------------
class NodeLines:
    def stop(self):
        """{file: [executed lines, executable lines]} of what this worker's last node process did."""
        bridge = real.enolib.bridge
        if bridge.pid != os.getpid() or bridge.mode != 'cover':
            return {}
        return {f: [l['executed'], l['total']] for f, l in json.loads(bridge.request(op='covered')).items()}


class Lines:
    def __init__(self):
        self.hit = collections.defaultdict(set)
        self.prefix = os.path.realpath(real.ROOT) + os.sep
        mon = sys.monitoring
        try:
            mon.use_tool_id(mon.COVERAGE_ID, 'verif')
        except ValueError:
            return
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, self.line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def line(self, code, number):
        if code.co_filename.startswith(self.prefix):
            self.hit[code.co_filename[len(self.prefix):]].add(number)
        return sys.monitoring.DISABLE

    def stop(self):
        try:
            sys.monitoring.set_events(sys.monitoring.COVERAGE_ID, 0)
            sys.monitoring.free_tool_id(sys.monitoring.COVERAGE_ID)
        except ValueError:
            pass
        return {f: sorted(n) for f, n in self.hit.items()}


def executable_lines(path):
    lines = set()
    try:
        todo = [compile(open(path, encoding='utf-8').read(), path, 'exec')]
    except (OSError, SyntaxError):
        return lines
    while todo:
        code = todo.pop()
        if code.co_name != '<module>':
            lines |= {l for _, _, l in code.co_lines() if l and l != code.co_firstlineno}
        todo += [c for c in code.co_consts if hasattr(c, 'co_code')]
    return lines


# --- workers ----------------------------------------------------------------------------------------------------
def digest(x):
    return hashlib.blake2b(repr(x).encode('utf-8', 'surrogatepass'), digest_size=8).digest()


def worker(check, tier, seed, index, budget, deadline, queue, stop):
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    stats = collections.Counter()
    distinct, samples, found, cases = set(), [], None, 0
    check.prepare()
    lines = NodeLines() if real.IMPL == 'js' else Lines()
    try:
        rng = random.Random(f"{seed}/{check.id}/{index}")
        enumerated = itertools.islice(check.enumerate(tier), index, None, WORKERS)
        generated = (check.generate(rng, tier) for _ in range(budget))
        for source, stream in (('enumerated', enumerated), ('random', generated)):
            for case in stream:
                if stop.is_set() or time.monotonic() > deadline:
                    stats['stopped early'] += 1
                    break
                if real.IMPL == 'js':
                    case = real.portable(case)
                cases += 1
                stats[source + ' cases'] += 1
                signature, what = guarded(check, case, stats)
                if signature is not None:
                    distinct.add(digest(signature))
                    if source == 'random' and (len(samples) < 2 and rng.random() < 0.05 or not samples):
                        samples.append(case)
                if what:
                    found = (case, what)
                    stop.set()
                    break
            if found:
                break
        if found:
            found = shrink(check, *found)
        queue.put(('done', index, cases, dict(stats), distinct, samples, found, lines.stop()))
    except BaseException:
        trace = traceback.format_exc()
        if real.IMPL != 'js':
            lines.stop()
        queue.put(('crash', index, trace))
    finally:
        check.done()


def shrink(check, case, what, seconds=25):
    """Greedy reduction of documents, histories and lists inside a case."""
    end = time.monotonic() + seconds

    def fails(candidate):
        try:
            _, text = guarded(check, candidate, collections.Counter())
        except Exception:
            return None
        return text

    def candidates(value):
        if isinstance(value, str):
            if '\n' in value:
                lines = value.split('\n')
                size = max(1, len(lines) // 2)
                while size:
                    for i in range(0, len(lines), size):
                        yield '\n'.join(lines[:i] + lines[i + size:])
                    size //= 2
            if len(value) <= 400:
                size = max(1, len(value) // 2)
                while size:
                    for i in range(0, len(value), size):
                        yield value[:i] + value[i + size:]
                    size //= 2
        elif isinstance(value, list):
            size = max(1, len(value) // 2)
            while size:
                for i in range(0, len(value), size):
                    yield value[:i] + value[i + size:]
                size //= 2

    if not isinstance(case, dict) or what.startswith('no outcome'):
        return case, what
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for name in check.shrinkable(case):
            for value in candidates(case[name]):
                if time.monotonic() > end:
                    break
                if value == case[name]:
                    continue
                smaller = dict(case, **{name: value})
                text = fails(smaller)
                if text:
                    case, what, progress = smaller, text, True
                    break
    return case, what


# --- parent -----------------------------------------------------------------------------------------------------
def store_replay(check, case, what, name=None):
    folder = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{check.id}-{name or hashlib.sha1(repr(case).encode('utf-8', 'surrogatepass')).hexdigest()[:10]}.json")
    with open(path, 'w') as f:
        json.dump({'property': check.id, 'what': what, 'case': case}, f, indent=1)
    return path


def report(check, case, what):
    path = store_replay(check, case, what)
    print(f"property {check.id}: {what}", file=sys.stderr)
    print('case: ' + json.dumps(case)[:3000], file=sys.stderr)
    print(f"VIOLATION property={check.id} replay={path}", flush=True)


def known_findings(check):
    """Prints the KNOWN-FINDING lines of this property; each witness is replayed against the tree."""
    path = os.path.join(HERE, 'known_findings.json')
    with open(path) as f:
        entries = json.load(f)['findings']
    shown = []
    for entry in entries:
        if entry['property'] != check.id:
            continue
        outcome = check.witness(entry['case']) if 'case' in entry else witness(entry)
        if outcome == entry['observed']:
            print(f"KNOWN-FINDING: property={check.id} {entry['what']}")
            shown.append(entry['id'])
    return shown


def witness(entry):
    kind, v = real.outcome(lambda: real.parse(entry['document']).raw())
    return v if kind == 'ok' else v.text if kind == 'parse' else real.shown(v)


def run(check, tier, seed, workers=WORKERS):
    started = time.monotonic()
    budget = (check.quick if tier == 'quick' else check.thorough) // workers
    deadline = started + (420 if tier == 'quick' else 780)
    context = multiprocessing.get_context('fork')
    queue, stop = context.Queue(), context.Event()
    procs = [context.Process(target=worker, args=(check, tier, seed, i, budget, deadline, queue, stop)) for i in range(workers)]
    for p in procs:
        p.start()
    stats, distinct, samples, found, cases, crashed = collections.Counter(), set(), [], [], 0, []
    lines, executable = collections.defaultdict(set), collections.defaultdict(set)
    pending = workers
    while pending:
        try:
            message = queue.get(timeout=5)
        except Exception:
            if not any(p.is_alive() for p in procs) and queue.empty():
                crashed.append('a worker ended without an answer')
                break
            if time.monotonic() > deadline + 90:
                crashed.append('workers did not end in time')
                break
            continue
        pending -= 1
        if message[0] == 'crash':
            crashed.append(message[2])
            stop.set()
            continue
        _, index, n, s, d, smp, f, l = message
        cases += n
        stats.update(s)
        distinct |= d
        samples += smp[:2]
        if f:
            found.append((index, f))
        for name, numbers in l.items():
            if real.IMPL == 'js':
                executable[name] |= set(numbers[1])
                numbers = numbers[0]
            lines[name] |= set(numbers)
    for p in procs:
        if p.is_alive():
            p.kill()
        p.join()
    violations = [f for _, f in sorted(found, key=lambda x: x[0])]
    if not violations and not crashed:
        try:
            check.finish(tier, seed, stats)
        except Violation as v:
            violations.append((getattr(v, 'case', None), v.what))
    known = known_findings(check) if not crashed else []
    reached = {name: f"{len(lines[name])}/{len(total)}" for name, total in sorted(executable.items()) if total}
    for folder, _, files in os.walk(os.path.join(real.ROOT, 'enolib')):
        for name in files:
            if name.endswith('.py'):
                full = os.path.join(folder, name)
                rel = os.path.relpath(full, real.ROOT)
                total = executable_lines(full)
                if total:
                    reached[rel] = f"{len(total & lines.get(rel, set()))}/{len(total)}"
    short = []
    if tier == 'quick' or True:
        scale = 1
        for name, least in check.floors.items():
            if stats[name] < least * scale:
                short.append(f"{name}: {stats[name]} < {least}")
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f"{check.id}.json"), 'w') as f:
        json.dump({
            'property': check.id, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': cases, 'distinct_nontrivial': len(distinct), 'rule': check.rule,
                'samples': samples[:6] or ['no sample was kept'],
                'observed': dict(sorted(stats.items())),
                'enolib_lines_executed': reached, 'known_findings_reproduced': known,
            },
            'assumptions': check.assumptions or ['the reference specification in lib/model.py states the property correctly'],
            'wall_s': round(time.monotonic() - started, 2), 'violations': len(violations),
        }, f, indent=1)
        f.write('\n')
    if violations:
        report(check, *violations[0])
        return 1
    if crashed:
        print(f"check {check.id} gave no answer: {crashed[0]}", file=sys.stderr)
        return 2
    if short:
        print(f"check {check.id} is inconclusive, its monitor observed too little: {short}", file=sys.stderr)
        return 2
    print(f"{check.id} held on {cases} cases ({len(distinct)} distinct non-trivial) in {time.monotonic() - started:.1f} s: "
          + ', '.join(f"{k} {v}" for k, v in sorted(stats.items())))
    return 0


def replay(check, path):
    with open(path) as f:
        case = real.portable(json.load(f)['case'])
    check.prepare()
    _, what = guarded(check, case, collections.Counter())
    check.done()
    if what:
        print(f"property {check.id}: {what}", file=sys.stderr)
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    print(f"{check.id}: the replayed case holds")
    return 0
