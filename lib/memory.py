"""C39, C40: what stays in memory when the program has let go of its documents."""
import collections
import gc
import json
import os
import random
import re
import select
import subprocess
import sys
import tracemalloc

import checks
import effort as E
import gen as G
import ops as O
import real as R
from checks import register
from harness import Check, Violation


def salted(text, salt):
    """The same document in other words."""
    return re.sub('[A-Za-z]+', lambda m: m.group(0) + salt, text)


def salts(start):
    n = start
    while True:
        n += 1
        out, k = '', n
        while k:
            k, d = divmod(k, 20)
            out += 'bcdfghjklmnpqrstvwxz'[d]
        yield 'q' + out + 'y'


def call(obj, name, r, salt, keys):
    """A call with fitting arguments that mentions words nobody used before."""
    if name == 'repr':
        return lambda: repr(obj)
    f = getattr(obj, name)
    if name in O.LOADED:
        what = r.choice(['upper', 'fail', 'number'])
        return lambda: f({'upper': str.upper, 'fail': lambda v: {}[v + salt], 'number': int}[what])
    if name in checks.ERROR_METHODS:
        return r.choice([lambda: f('message ' + salt), lambda: f(lambda v: f"computed {v!r} {salt}")])
    if name in O.KEYED:
        key = r.choice(keys)
        return r.choice([lambda: f('gone' + salt), lambda: f(key), lambda: f(key), lambda: f()])
    if name in ('all_elements_required', 'all_entries_required'):
        return r.choice([lambda: f(True), lambda: f(False), lambda: f()])
    if name == 'assert_all_touched':
        key = r.choice(keys)
        return r.choice([lambda: f(), lambda: f('unread ' + salt), lambda: f(lambda e: f"unread {e!r} {salt}"), lambda: f(only=[key]), lambda: f(skip=[key, 'gone' + salt])])
    return f


def work(text, salt, case, depth, stats):
    """Uses a document in every way, keeping nothing."""
    r = random.Random(case['seed'])
    options = {'reporter': R.REPORTERS[case['reporter']], 'source': 'file' + salt}
    if case['locale']:
        options['locale'] = R.LOCALES[case['locale']]
    if case['way'] == 'lookup':
        at = [r.randint(0, len(text)) for _ in range(depth)]
        first = [R.outcome(lambda: R.enolib.lookup(text, index=i, **options)) for i in at]
        first = [o if o[0] != 'ok' else ('ok', o[1]['element']) for o in first]
    else:
        first = [R.outcome(lambda: R.enolib.parse(text, **options))]
    todo = [o[1] for o in first if o[0] == 'ok']
    for kind, v in first:
        if kind != 'ok':
            stats['errors dropped'] += 1
            str(v), repr(v), [getattr(v, a, None) for a in ('text', 'snippet', 'selection', 'cursor', 'message')]
    keys = sorted(set(re.findall(f"[A-Za-z]+{salt}", text))) or ['none' + salt]
    seen = 0
    while todo and seen < depth:
        obj = todo.pop(0)
        seen += 1
        names = [n for n in checks.KNOWN_NAMES if n == 'repr' or callable(getattr(obj, n, None))]
        r.shuffle(names)
        for name in names:
            kind, v = R.outcome(call(obj, name, r, salt, keys))
            stats['calls observed'] += 1
            if kind in ('validation', 'parse'):
                stats['errors dropped'] += 1
                str(v), [getattr(v, a, None) for a in ('text', 'snippet', 'selection', 'cursor', 'message')]
            elif kind == 'ok':
                for x in (v if isinstance(v, list) else [v])[:6]:
                    if callable(getattr(x, 'raw', None)) and len(todo) < depth:
                        todo.append(x)
    stats['objects dropped'] += seen
    stats['documents dropped'] += 1


# --- Python ---------------------------------------------------------------------------------------------------------
def settled():
    """(objects of enolib by class, blocks of memory) with nothing of the workload referenced."""
    re.purge()
    gc.collect()
    gc.collect()
    alive = collections.Counter()
    for o in gc.get_objects():
        t = type(o)
        if isinstance(t.__module__, str) and (t.__module__ == 'enolib' or t.__module__.startswith('enolib.')):
            alive[t.__name__] += 1
    return alive, sys.getallocatedblocks()


BASIC = '> c\na: v\n| w\nb:\nc:\n> d\n- i\nf:\nk = e\n\\ x\n-- m\ny\n-- m\nn < m\n`q`: z\n# s\na: v\n## u\nb < a\n# t << s\n# `w` < t'
REJECTED = ['bad', '`', 'a: v\nbad', 'a < b', '# a < a', 'a < a', '-- m', '### x', 'a: v\n- b', '- x', 'a: v\na = b', '| x', '# a << b\n## c', '# a << b\n# b << a', 'a:\n- b\nc = d']
ROUND, STAYS = 20, 0.6          # documents of a round; blocks of memory per document that count as growth
LINES = 3000                    # repetitions in a document that is big


def plain(parts):
    """The repeated units all alike, so that there are few different words."""
    return [p if isinstance(p, str) else [p[0].replace('{i}', ''), p[1]] for p in parts]


def kept(doc):
    """Plain data that a program may keep."""
    out = [R.outcome(doc.raw), R.outcome(lambda: repr(doc))]
    for e in doc.elements():
        out += [e.string_key(), R.outcome(e.raw), R.outcome(e.optional_string_comment)]
        if e.yields_list():
            out += [R.outcome(e.to_list().optional_string_values)]
        elif e.yields_field():
            out += [R.outcome(e.to_field().optional_string_value), R.outcome(lambda: e.to_field().optional_value(list))]
        elif e.yields_section():
            out += [R.outcome(lambda: [x.string_key() for x in e.to_section().elements()])]
        kind, error = R.outcome(lambda: e.error('m'))
        if kind == 'ok':
            out += [error.text, error.snippet, error.message, error.selection, error.cursor, str(error)]
    return [o[1] if isinstance(o, tuple) and o[0] == 'ok' else o if isinstance(o, (str, dict)) else None for o in out]


@register
class C39(Check):
    id = 'C39'
    quick, thorough = 1400, 40000
    floors = {'rounds of documents': 400, 'documents dropped': 8000, 'errors dropped': 100000, 'objects dropped': 30000, 'big documents dropped': 150, 'big errors dropped': 100, 'plain results kept': 1500,
              'peaks compared': 100, 'peaks of errors compared': 60}
    level_note = ('After every story observed - documents, lookups and errors of all kinds used in every way and dropped - no object of enolib was left, further rounds of documents with new words '
                  'took no further memory, big documents left nothing, plain results kept nothing alive, and the peak memory of growing documents stayed proportional to their size.')
    rule = ('documents and malformed texts in ever new words, parsed or looked up with all languages and reporters, every method called, errors read, everything dropped; big documents; growing '
            'documents. Oracle: live objects of enolib and allocated blocks after garbage collection, before and after; peak of traced memory at two sizes. Non-trivial = every story')
    assumptions = ['cyclic garbage counts as let go of once it has been collected', "what a bounded cache retains of single words is not a document's", 'caches of the re module are emptied before measuring']

    def prepare(self):
        self.salts = salts(0)
        for doc in [BASIC] + REJECTED:
            for locale in (None, *sorted(R.LOCALES)):
                for way in ('parse', 'lookup'):
                    for reporter in sorted(R.REPORTERS):
                        self.once({'doc': doc, 'seed': 1, 'locale': locale, 'reporter': reporter, 'way': way}, 12, collections.Counter())
        gc.collect()
        gc.freeze()
        self.base = settled()[0]

    def once(self, case, depth, stats):
        salt = next(self.salts)
        work(salted(case['doc'], salt), salt, case, depth, stats)

    def enumerate(self, tier):
        for i, doc in enumerate(checks.CHECKS['C20'].DOCS + [BASIC] + REJECTED):
            for way in ('parse', 'lookup'):
                yield {'mode': 'rounds', 'doc': doc, 'seed': i, 'locale': None, 'reporter': ('text', 'html', 'terminal')[i % 3], 'way': way}
            yield {'mode': 'kept', 'doc': doc, 'seed': i}
        works = ['parse', *E.WORK, *E.LOOKUPS]
        for i, parts in enumerate(E.stories()):
            yield {'mode': 'big', 'parts': parts, 'work': works[i % len(works)] if i % 2 else 'parse', 'reporter': ('text', 'html', 'terminal')[i % 3]}
            if i % 3 == 0 or tier != 'quick':
                yield {'mode': 'peak', 'parts': parts, 'work': works[i // 3 % len(works)], 'reporter': ('text', 'html', 'terminal')[i % 3]}
        for i, parts in enumerate(E.WIDE):
            for j, w in enumerate(('parse', 'walk', 'raw', 'walk and assert_all_touched', works[(7 * i) % len(works)])):
                yield {'mode': 'peak', 'parts': parts, 'work': w, 'reporter': ('text', 'html', 'terminal')[(i + j) % 3]}

    def generate(self, r, tier):
        k = r.random()
        g = G.Gen(r, odd=0.1)
        if k < 0.6:
            doc = checks.history_document(g, r) if r.random() < 0.6 else g.any()
            if k < 0.3:
                return {'mode': 'kept', 'doc': doc}
            return {'mode': 'rounds', 'doc': doc, 'seed': r.getrandbits(32), 'locale': r.choice([None, None, 'de', 'es']),
                    'reporter': r.choice(['text', 'html', 'terminal']), 'way': r.choice(['parse', 'parse', 'lookup'])}
        return {'mode': 'big' if k < 0.8 else 'peak', 'parts': r.choice(E.WIDE) if k > 0.95 else E.random_parts(r), 'work': 'parse' if r.random() < 0.3 else r.choice([*E.WORK, *E.LOOKUPS]), 'reporter': r.choice(['text', 'html', 'terminal'])}

    def shrinkable(self, case):
        return []

    def judge(self, case, stats):
        return getattr(self, case['mode'])(case, stats)

    def alive(self, what):
        left, blocks = settled()
        left -= self.base
        if sum(left.values()) > 3:
            raise Violation(f"{what}: still in memory after everything was let go of: {dict(left)}")
        return blocks

    def rounds(self, case, stats):
        what = f"documents like {case['doc']!r:.300} ({case['way']}, in ever new words)"
        taken, last, size = [], None, ROUND
        while True:
            blocks = self.alive(what)
            if last is not None:
                taken.append(blocks - last)
            last = blocks
            if len(taken) >= 3 and not all(t > STAYS * size for t in taken[-2:]):
                break
            if len(taken) == 4:
                stats['suspicions followed up'] += 1
                size = 10 * ROUND
            if len(taken) == 24:
                raise Violation(f"{what}: memory grows with every document let go of; blocks taken by the last rounds of {size} documents: {taken[-6:]}")
            for _ in range(size):
                self.once(case, 5, stats)
            stats['rounds of documents'] += 1
        return case['doc'], case['way']

    def kept(self, case, stats):
        what = f"the plain results of {case['doc']!r:.300}"
        held = [kept(o[1]) for o in [R.outcome(lambda: R.enolib.parse(case['doc'], source='x'))] if o[0] == 'ok']
        if not held:
            return None
        self.alive(what)
        stats['plain results kept'] += sum(map(len, held))
        return case['doc'], 'kept'

    def big(self, case, stats):
        parts, options = plain(case['parts']), {'reporter': R.REPORTERS[case['reporter']]}
        what = f"{case['work']} on a document like {E.grow(parts, 3)!r:.300}, with {LINES} repetitions"

        def use(n):
            call = E.job(parts, n, case['work'], options)
            return call and call()[0]
        kind = use(30)
        if kind is None:
            return None
        for attempt in range(3):
            before = self.alive(what)
            use(LINES)
            after = self.alive(what)
            if after - before < 0.4 * LINES:
                break
            # whatever is kept of the last document goes when another one comes: use a small one and try again
            use(30)
        else:
            raise Violation(f"{what}: leaves {after - before} blocks of memory behind")
        stats['big documents dropped' if kind == 'ok' else 'big errors dropped'] += 1
        return json.dumps([parts, case['work'], 'big'])

    def peak(self, case, stats):
        parts, work, options = case['parts'], case['work'], {'reporter': R.REPORTERS[case['reporter']]}

        def peak(n):
            re.purge()
            gc.collect()
            call = E.job(parts, n, work, options)
            if call is None:
                return None, None
            tracemalloc.start()
            try:
                o = call()
                return tracemalloc.get_traced_memory()[1], o[0]
            finally:
                tracemalloc.stop()
        small, kind = peak(120)
        if small is None:
            return None
        large, kind = peak(480)
        if large is None:
            return None
        growth = max(4, len(E.grow(parts, 480)) / len(E.grow(parts, 120)))
        if large > 1.5 * growth * small + 60000:
            raise Violation(f"{work} on a growing document like {E.grow(parts, 3)!r:.300}: at most {small} bytes in use for 120 repetitions, {large} for 480")
        stats['peaks compared' if kind == 'ok' else 'peaks of errors compared'] += 1
        stats['bytes at the peak'] += large
        return json.dumps([parts, work, 'peak'])


# --- JavaScript -----------------------------------------------------------------------------------------------------
JS_WORK = ['parse', 'walk', 'raw', 'print', 'assert', 'walk and assert', 'missing', 'ambiguous', 'wrong kind', 'error', 'values', 'entries', 0, 0.5, 1]
BYTES = 24                  # growth of the heap per document that counts


def js_work(name):
    return {'walk and assert_all_touched': 'walk and assert', 'by key': 'walk'}.get(name, name if name in JS_WORK else JS_WORK[sum(map(ord, name)) % len(JS_WORK)])


class Ended(Exception):
    pass


class Node:
    def __init__(self):
        self.node = subprocess.Popen(['node', '--expose-gc', '--no-flush-bytecode', '--single-threaded', '--jitless', '--max-old-space-size=2048', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'memory.js'),
                                      R.REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.buffer = b''

    def request(self, **r):
        try:
            self.node.stdin.write(json.dumps(r).encode('ascii') + b'\n')
            self.node.stdin.flush()
        except BrokenPipeError:
            raise Ended()
        while b'\n' not in self.buffer:
            ready, _, _ = select.select([self.node.stdout], [], [], 150)
            if not ready:
                self.stop()
                raise R.Hang()
            chunk = os.read(self.node.stdout.fileno(), 1 << 20)
            if not chunk:
                raise Ended()
            self.buffer += chunk
        line, self.buffer = self.buffer.split(b'\n', 1)
        return json.loads(line)

    def stop(self):
        self.node.kill()
        self.node.wait()


@register
class C40(Check):
    id = 'C40'
    quick, thorough = 600, 24000
    floors = {'rounds of documents': 400, 'documents dropped': 8000, 'errors dropped': 100000, 'objects dropped': 25000, 'big documents dropped': 100, 'big errors dropped': 120, 'plain results kept': 1500,
              'sizes compared': 100}
    level_note = ('After every story observed - documents, lookups and errors of all kinds used in every way and dropped - no object of the library was left in the heap, further rounds of documents '
                  'with new words took no further memory, big documents left nothing, plain results kept nothing alive, and growing documents took memory in proportion to their size.')
    rule = ('documents and malformed texts in ever new words, parsed or looked up with all languages and reporters, every method called, errors read, everything dropped; big documents; growing '
            'documents. Oracle: objects of the classes of the library and bytes used in the heap of node after garbage collection, before and after. Non-trivial = every story')
    assumptions = ["what a bounded cache retains of single words is not a document's", 'garbage counts as let go of once it has been collected']
    node = None

    def prepare(self):
        self.salts = salts(0)
        self.node = Node()
        for doc in [BASIC] + REJECTED:
            for way in ('parse', 'lookup'):
                for reporter in ('text', 'html', 'terminal'):
                    self.round({'doc': doc, 'seed': 1, 'locale': 'de', 'reporter': reporter, 'way': way}, 3, collections.Counter())
        self.base = self.node.request(op='count', count=True)['alive']

    def done(self):
        if self.node:
            self.node.stop()

    enumerate, generate, shrinkable = C39.enumerate, C39.generate, C39.shrinkable

    def round(self, case, size, stats):
        docs = []
        for _ in range(size):
            salt = next(self.salts)
            text = salted(case['doc'], salt)
            docs.append({'text': text, 'salt': salt, 'keys': sorted(set(re.findall(f"[A-Za-z]+{salt}", text))) or ['none' + salt]})
        return self.seen(self.node.request(op='use', docs=docs, seed=case['seed'], depth=5, locale=case['locale'], reporter=case['reporter'], way=case['way']), stats)

    def seen(self, answer, stats):
        for k, n in answer['told'].items():
            stats[{'documents': 'documents dropped', 'errors': 'errors dropped', 'objects': 'objects dropped', 'calls': 'calls observed'}[k]] += n
        return answer

    def counted(self, what):
        left = {k: n - self.base[k] for k, n in self.node.request(op='count', count=True)['alive'].items() if n > self.base[k]}
        if sum(left.values()) > 3:
            raise Violation(f"{what}: still in memory after everything was let go of: {left}")

    def judge(self, case, stats):
        for attempt in range(2):
            try:
                if self.node.node.poll() is not None:
                    self.done()
                    self.prepare()
                return getattr(self, case['mode'])(case, stats)
            except Ended:
                status = self.node.node.wait()
                stats['node ended'] += 1
        raise Violation(f"node ends (status {status}), twice, while it works on {case.get('doc') or E.grow(case['parts'], 3)!r:.300} ({case['mode']})")

    def rounds(self, case, stats):
        what = f"documents like {case['doc']!r:.300} ({case['way']}, in ever new words)"
        taken, last, size = [], None, ROUND
        while True:
            heap = self.round(case, size, stats)['heap']
            stats['rounds of documents'] += 1
            if last is not None:
                taken.append(heap - last)
            last = heap
            if len(taken) >= 2 and not all(t > BYTES * size for t in taken[-2:]):
                break
            if len(taken) == 4:
                stats['suspicions followed up'] += 1
                size = 10 * ROUND
            if len(taken) == 24:
                raise Violation(f"{what}: memory grows with every document let go of; bytes taken by the last rounds of {size} documents: {taken[-6:]}")
        self.counted(what)
        if os.environ.get('VERIF_SHOW'):
            print(taken, ascii(case['doc'][:20]))
        return case['doc'], case['way']

    def kept(self, case, stats):
        answer = self.seen(self.node.request(op='keep', text=case['doc']), stats)
        self.counted(f"the plain results of {case['doc']!r:.300}")
        self.node.request(op='drop')
        stats['plain results kept'] += answer['n']
        return (case['doc'], 'kept') if answer['n'] else None

    def big(self, case, stats):
        parts = plain(case['parts'])
        work = js_work(case['work'])
        what = f"{work} on a document like {E.grow(parts, 3)!r:.300}, with {LINES} repetitions"

        def use(n):
            return self.seen(self.node.request(op='big', text=E.grow(parts, n), work=work, reporter=case['reporter']), stats)
        before = use(30)['heap']
        taken = []
        for attempt in range(5):
            answer = use(LINES)
            taken.append(answer['heap'] - before)
            if taken[-1] < BYTES * LINES:
                break
            before = use(30)['heap']
        else:
            raise Violation(f"{what}: leaves memory behind, {taken} bytes")
        stats['big errors dropped' if answer['told']['errors'] else 'big documents dropped'] += 1
        if os.environ.get('VERIF_SHOW'):
            print(taken, work, ascii(E.grow(parts, 3))[:60])
        return json.dumps([parts, work, 'big'])

    def peak(self, case, stats):
        parts, work = case['parts'], js_work(case['work'])
        empty = self.node.request(op='drop')['heap']

        def takes(n):
            answer = self.seen(self.node.request(op='hold', text=E.grow(parts, n), work=work), stats)
            self.node.request(op='drop')
            return answer['heap'] - empty, answer['told']['documents']
        small, parsed = takes(500)
        if not parsed:
            return None
        large, _ = takes(2000)
        growth = max(4, len(E.grow(parts, 2000)) / len(E.grow(parts, 500)))
        if large > 1.5 * growth * max(small, 0) + 200000:
            raise Violation(f"{work} on a growing document like {E.grow(parts, 3)!r:.300}: takes {small} bytes for 500 repetitions, {large} for 2000")
        stats['sizes compared'] += 1
        return json.dumps([parts, 'peak'])
