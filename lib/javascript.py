"""The monitors of the JavaScript library: those of the Python library, which run.py has made observe /repo/javascript
(VERIF_IMPL=js), grouped, with the size of their workload adapted to the slower way of observing."""
import itertools
import json
import random

import checks
import effort as E
import real as R
from checks import CHECKS, register
from harness import Check, Violation


class Group(Check):
    parts = {}              # id of a Python check -> (share of the random cases, every how many enumerated cases)
    every = {}              # the latter on thorough runs, if different

    def __init__(self):
        self.rule = ('through a bridge to node: ' + '; '.join(f"{CHECKS[p].rule}" for p in self.parts))[:4000]
        self.assumptions = sorted({a for p in self.parts for a in CHECKS[p].assumptions}) + ['positions and lengths count UTF-16 units, blanks are those of ECMAScript']
        self.hang_is_violation = any(CHECKS[p].hang_is_violation for p in self.parts)

    def prepare(self):
        for p in self.parts:
            CHECKS[p].prepare()

    def done(self):
        for p in self.parts:
            CHECKS[p].done()

    def enumerate(self, tier):
        for p, (_, step) in self.parts.items():
            step = step if tier == 'quick' else self.every.get(p, max(1, step // 8))
            for case in itertools.islice(CHECKS[p].enumerate(tier if step < 2 else 'quick'), 0, None, step):
                yield dict(case, part=p)

    def generate(self, r, tier):
        p = r.choices(list(self.parts), [share for share, _ in self.parts.values()])[0]
        return dict(CHECKS[p].generate(r, tier), part=p)

    def judge(self, case, stats):
        p = case['part']
        signature = CHECKS[p].judge(case, stats)
        stats[f"cases of {checks.THEMES[p]}"] += 1
        return None if signature is None else (p, signature)

    def shrinkable(self, case):
        return CHECKS[case['part']].shrinkable(case)

    def finish(self, tier, seed, stats):
        for p in self.parts:
            CHECKS[p].finish(tier, seed, stats)


def group(id, parts, quick, thorough, floors, note, every={}):
    register(type(id, (Group,), {'id': id, 'parts': parts, 'quick': quick, 'thorough': thorough, 'floors': floors, 'level_note': note, 'every': every}))


group('C25', {'C01': (20, 4), 'C02': (20, 3), 'C03': (25, 6), 'C04': (20, 3), 'C05': (20, 5), 'C23': (20, 6)}, 24000, 1200000,
      {'parses observed': 6000, 'verdicts compared': 6000, 'elements compared': 20000, 'values compared': 10000, 'comments compared': 30000, 'variants compared': 2500, 'rejected': 4000, 'accepted': 4000, 'deep documents': 20},
      'Parsing terminates with a document or a parse error, diagnoses the first malformed line, and the document mirrors the written lines, values and comments, for every text observed, through node; insensitive to re-spacing.',
      {'C01': 1, 'C02': 1, 'C03': 1, 'C04': 1, 'C05': 1, 'C23': 1})
group('C26', {'C06': (20, 1), 'C07': (20, 1), 'C08': (20, 2)}, 12000, 240000,
      {'copies compared': 8000, 'deep merges compared': 300, 'chained copies compared': 2000, 'verdicts compared': 4000, 'inherited comments compared': 800, 'values compared': 40000, 'rejected': 3000},
      'Copied elements and merged sections, and the verdict on unresolvable copies, agree with declarative semantics for every document observed.')
group('C27', {'C09': (20, 2), 'C10': (10, 1), 'C12': (10, 1)}, 18000, 400000,
      {'calls compared': 60000, 'placeholder calls compared': 20000, 'switches': 3000, 'raised: expected_kind': 10000, 'raised: missing': 1500, 'queries for absent elements': 5000, 'raised only because required by default': 1500},
      'Queries, placeholders and requirement switches agree with a reference machine call by call in every history observed.')
group('C28', {'C11': (20, 1)}, 16000, 300000,
      {'assertions that fail': 10000, 'assertions that pass': 30000, 'assertions with filter': 20000, 'touches compared': 5000},
      'Assertions agree with a shadow ledger of touched elements in every history observed.')
group('C29', {'C13': (20, 2), 'C14': (20, 2), 'C21': (15, 2), 'C22': (20, 2)}, 5000, 60000,
      {'selections compared': 40000, 'reports compared': 60000, 'rows compared': 200000, 'requested errors compared': 80000, 'parse errors': 3000, 'reports with omissions': 20000, 'reports quoting markup': 10000},
      'Selections, snippets, requested errors and all three report formats of every error observed agree with the document and a reference.')
group('C30', {'C15': (50, 2), 'C16': (200, 3)}, 7500, 120000,
      {'positions compared': 40000, 'tokens found': 12000, 'objects compared': 80000, 'documents with copies': 2000},
      'Every position of the observed documents resolves to the element that owns the line and to the token below it; raw() reports what queries report.')
group('C31', {'C17': (20, 1)}, 5000, 100000,
      {'loader accesses compared': 12000, 'loader calls recorded': 4000, 'loader errors in place': 1000, 'loaders never called for absent text': 8000, 'registered accessors compared': 200000},
      'Loaders are called once with the exact text and their errors are reported in place, for every access observed, inline and registered.')
group('C32', {'C18': (20, 2)}, 1200, 24000,
      {'texts compared with the catalogue': 40000, 'catalogue wordings compared': 200, 'different messages reached': 55, 'headings compared': 60000},
      'Every text reported in each shipped language is the catalogued one with the same arguments, and languages change nothing else, in every history observed.')
group('C33', {'C20': (20, 1)}, 1800, 40000,
      {'calls observed': 200000, 'calls on lookup results': 80000, 'parents compared': 1500, 'errors inspected': 80000, 'objects reached through lookup': 4000},
      'Every public method of every object reached returned or threw a validation error (or refused a second kind).')
group('C34', {'C19': (20, 1)}, 700, 16000,
      {'answers compared': 8000, 'baselines from a pristine process': 1200, 'questions repeated': 5000, 'interleaved documents': 700, 'answers from within a loader or message function': 500, "answers after spoiling another document's results": 2500},
      'Every question got the answer a fresh node process gives, among other questions, repeated and with other documents in between.')
group('C35', {'C24': (20, 2)}, 1000, 20000,
      {'step counts compared': 1200, 'cpu times compared': 500, 'parse errors grown': 100, 'documents grown': 300},
      'Executions of blocks of the library (counted by the engine) and CPU time grow with the document, not faster, on every growing document observed.',
      {'C24': 1})
group('C37', {'C36': (20, 1)}, 4000, 80000,
      {'representations compared': 10000, 'placeholders compared': 1000, 'shortened values': 400, 'line feeds shown': 200, 'absent values': 100, 'answers compared with and without': 10000,
       'representations in between': 40000},
      'toString() of every object and placeholder reached gave the one line its kind, key and content call for, and taking it changed no later answer.')
