"""C15: key rate collections, in every history of operations."""
from datetime import date, timedelta

from hypothesis import strategies as st

from .. import refs
from ..core import Facet, Property, close, ensure, expect_error
from ..gens import floats, many
from ..refs import D
from ..yieldtools import key_rate, tents

from fixedIncome.src.risk.key_rate import KeyRate, KeyRateCollection

BASE = date(2024, 1, 31)
DAY = st.one_of(st.integers(0, 40).map(lambda n: 100 * n), st.integers(0, 4000))
BUMP = st.one_of(st.none(), st.none(), floats(-0.01, 0.01, 4))
LINKS = st.sampled_from([None, None, [30, 40], [None, 700], [500, None], [2000, 2000]])  # days to neighbours of its own
RATE = st.tuples(DAY, BUMP, LINKS).map(list)
WHICH = st.integers(0, 3)
OPS = st.lists(st.one_of(
    st.tuples(st.just('new'), st.lists(RATE, min_size=1, max_size=5)),
    st.tuples(st.just('add'), WHICH, WHICH), st.tuples(st.just('iadd'), WHICH, WHICH),
    st.tuples(st.just('iadd_rate'), WHICH, RATE), st.tuples(st.just('iadd_list'), WHICH, st.lists(RATE, max_size=3)),
    st.tuples(st.just('insert'), WHICH, RATE), st.tuples(st.just('append'), WHICH, RATE),
    st.tuples(st.just('set'), WHICH, st.integers(-6, 6), RATE), st.tuples(
        st.just('set_near'), WHICH, st.integers(-6, 6), st.sampled_from([-1, 0, 1]), st.integers(-1, 1), BUMP, LINKS), st.tuples(st.just('del'), WHICH, st.integers(-6, 6)),
    st.tuples(st.just('del_slice'), WHICH, st.one_of(st.none(), st.integers(-4, 4)), st.one_of(st.none(), st.integers(-4, 5))),
    st.tuples(st.just('slice'), WHICH, st.one_of(st.none(), st.integers(-5, 5)), st.one_of(st.none(), st.integers(-5, 6)), st.sampled_from([None, None, 2, -1])),
    st.tuples(st.just('pop'), WHICH, st.integers(-6, 6)), st.tuples(st.just('remove'), WHICH, DAY),
    st.tuples(st.just('extend'), WHICH, st.lists(RATE, max_size=3)), st.tuples(st.just('refused'), WHICH),
    st.tuples(st.just('bump'), WHICH, floats(-0.01, 0.01, 4)), st.tuples(st.just('look'), WHICH, DAY),
).map(list), min_size=2, max_size=14)


def day(n):
    return BASE + timedelta(days=n)


def rate_of(spec, convention):
    before, after = (spec[2] if len(spec) > 2 else None) or (None, None)
    return key_rate(day(spec[0]), convention, bump=spec[1], previous=None if before is None else day(spec[0] - before),
                    following=None if after is None else day(spec[0] + after))


def bump_of(spec):
    return 0.0001 if spec[1] is None else spec[1]


class Pair:
    """A real collection and the dictionary {day: bump} it has to behave as."""

    def __init__(self, real, model):
        self.real, self.model, self.asked = real, dict(model), None

    def days(self):
        return sorted(self.model)

    def check(self, convention, moment):
        real, days = self.real, self.days()
        ensure(len(real) == len(days), f'number of key rates {moment}', len(real), days)
        ensure([kr.key_rate_date for kr in real] == [day(d) for d in days], f'dates of the key rates {moment}',
               [kr.key_rate_date for kr in real], [day(d) for d in days])
        ensure(bool(real), f'truth of the collection {moment}')
        bumps = [self.model[d] for d in days]
        if self.asked is not None:     # the question asked last before the operation
            total = sum(f(day(self.asked)) for f in tents([day(d) for d in days], bumps, convention))
            close(real(day(self.asked)), total, f'adjustment on {day(self.asked)} {moment}', 1e-9, 1e-15)
        outer = []
        for kr in real:                # an inner loop, or a value, does not disturb the outer one
            outer.append(kr.key_rate_date)
            if len(outer) > len(days):
                break
            real(day(days[0]))
            inner = [other.key_rate_date for other, _ in zip(real, range(len(days) + 1))]
            ensure(inner == [day(d) for d in days], f'inner loop {moment}', inner)
        ensure(outer == [day(d) for d in days], f'outer loop {moment}', outer)
        functions = tents([day(d) for d in days], bumps, convention)
        queries = sorted({d + k for d in days for k in (-30, -1, 0, 1, 37)} | {(a + b) // 2 for a, b in zip(days, days[1:])})
        for i, kr in enumerate(real):
            ensure(isinstance(kr, KeyRate), 'element type', kr)
            for n in queries[max(0, 5 * i - 4):5 * i + 9]:
                close(kr(day(n)), functions[i](day(n)), f'key rate {i} on {day(n)} {moment}', 1e-9, 1e-15)
        for n in queries:
            total = sum(f(day(n)) for f in functions)
            close(real(day(n)), total, f'adjustment on {day(n)} {moment}', 1e-9, 1e-15)
            close(real.adjustment_fxcn(day(n)), total, f'adjustment function on {day(n)} {moment}', 1e-9, 1e-15)
            if len(set(bumps)) == 1:
                close(real(day(n)), bumps[0], f'equal bumps are a parallel shift on {day(n)} {moment}', 1e-9, 1e-15)
        if len(days) > 1:
            expect_error(lambda: real('2024-01-01'), TypeError, f'a collection called with a string {moment}')
        self.asked = queries[len(queries) // 2]
        real(day(self.asked))


def check_history(case, rec):
    convention = case['dcc']
    pairs = []

    def new(specs):
        unique = {s[0]: s for s in specs}
        pairs.append(Pair(KeyRateCollection([rate_of(s, convention) for s in unique.values()]),
                          {d: bump_of(s) for d, s in unique.items()}))

    def conflict(a, b):
        return any(a[d] != b[d] for d in a.keys() & b.keys())

    new(case['first'])
    pairs[-1].check(convention, 'when created')
    effective = 0
    for op in case['ops']:
        name = op[0]
        if name == 'new':
            new(op[1])
            pairs = pairs[-4:]
        else:
            p = pairs[op[1] % len(pairs)]
            n = len(p.model)
            if name == 'set_near':         # a new date at, just before or just after that of a neighbour
                i = min(max(op[2] % n + op[3], 0), n - 1)
                name, op = 'set', ['set', op[1], op[2] % n, [max(0, p.days()[i] + op[4]), *op[5:]]]
            if name == 'add':
                q = pairs[op[2] % len(pairs)]
                if conflict(p.model, q.model):
                    continue
                pairs = (pairs + [Pair(p.real + q.real, {**q.model, **p.model})])[-4:]
            elif name == 'iadd':
                q = pairs[op[2] % len(pairs)]
                if conflict(p.model, q.model):
                    continue
                before = p.real
                p.real += q.real
                ensure(p.real is before, 'in-place addition returned another object')
                p.model = {**q.model, **p.model}
            elif name in ('iadd_rate', 'insert', 'append'):
                if op[2][0] in p.model:
                    continue
                kr = rate_of(op[2], convention)
                if name == 'iadd_rate':
                    p.real += kr
                elif name == 'append':
                    p.real.append(kr)
                elif op[2][0] % 5 == 4:        # the position follows from the date in any case
                    p.real.insert(kr)
                else:
                    p.real.insert(op[2][0] % (n + 2), kr)
                p.model[op[2][0]] = bump_of(op[2])
            elif name == 'iadd_list':
                specs = {s[0]: s for s in op[2] if s[0] not in p.model}
                p.real += [rate_of(s, convention) for s in specs.values()]
                p.model.update({d: bump_of(s) for d, s in specs.items()})
            elif name == 'set':
                if not -n <= op[2] < n:
                    expect_error(lambda: p.real.__setitem__(op[2], rate_of(op[3], convention)), IndexError, 'index out of range')
                else:
                    i, days = op[2] % n, p.days()
                    left, right = (days[i - 1] if i else None), (days[i + 1] if i + 1 < n else None)
                    fits = (left is None or left < op[3][0]) and (right is None or op[3][0] < right)
                    if fits:
                        p.real[op[2]] = rate_of(op[3], convention)
                        del p.model[days[i]]
                        p.model[op[3][0]] = bump_of(op[3])
                    else:
                        expect_error(lambda: p.real.__setitem__(op[2], rate_of(op[3], convention)), ValueError,
                                     'a key rate out of order')
            elif name == 'del':
                if not -n <= op[2] < n:
                    expect_error(lambda: p.real.__delitem__(op[2]), IndexError, 'index out of range')
                elif n > 1:
                    del p.real[op[2]]
                    del p.model[p.days()[op[2]]]
                else:
                    expect_error(lambda: p.real.__delitem__(op[2]), ValueError, 'deleting the only key rate')
            elif name == 'del_slice':
                gone = p.days()[op[2]:op[3]]
                if len(gone) == n:
                    expect_error(lambda: p.real.__delitem__(slice(op[2], op[3])), ValueError, 'deleting all key rates')
                else:
                    del p.real[op[2]:op[3]]
                    for d in gone:
                        del p.model[d]
            elif name == 'pop':
                if not -n <= op[2] < n:
                    expect_error(lambda: p.real.pop(op[2]), IndexError, 'index out of range')
                elif n > 1:
                    gone = p.days()[op[2]]
                    ensure(p.real.pop(op[2]).key_rate_date == day(gone), 'popped key rate', day(gone))
                    del p.model[gone]
            elif name == 'remove':
                d = p.days()[op[2] % n] if op[2] % 3 else op[2]
                if d not in p.model:
                    expect_error(lambda: p.real.remove(key_rate(day(d), convention)), ValueError, 'removing an absent key rate')
                elif n > 1:
                    p.real.remove(key_rate(day(d), convention))
                    del p.model[d]
            elif name == 'extend':
                specs = {s[0]: s for s in op[2] if s[0] not in p.model}
                p.real.extend([rate_of(s, convention) for s in specs.values()])
                p.model.update({d: bump_of(s) for d, s in specs.items()})
            elif name == 'refused':
                def iadd():
                    p.real += 5
                expect_error(iadd, TypeError, 'adding a number in place')
                expect_error(lambda: p.real + 5, TypeError, 'adding a number')
                expect_error(lambda: 5 + p.real, (TypeError, RecursionError), 'adding to a number')
                expect_error(lambda: KeyRateCollection([]), ValueError, 'a collection without key rates')
            elif name == 'slice':
                section = slice(op[2], op[3], op[4] if len(op) > 4 else None)
                kept = p.days()[section]
                if not kept:
                    expect_error(lambda: p.real[section], ValueError, 'an empty slice')
                    continue
                piece = p.real[section]
                ensure(isinstance(piece, KeyRateCollection), 'type of a slice', piece)
                pairs = (pairs + [Pair(piece, {d: p.model[d] for d in kept})])[-4:]
            elif name == 'bump':
                p.real.set_bump_val(op[2])
                p.model = {d: op[2] for d in p.model}
            else:
                _look(p, op[2], convention)
                continue
        effective += 1
        for i, pair in enumerate(pairs):
            pair.check(convention, f'(collection {i} of {len(pairs)}) after {name}')
        rec.label(name)
    rec.nontrivial(effective >= 3 and any(len(p.model) >= 2 for p in pairs))


def _look(p, n, convention):
    days = p.days()
    for i in range(-len(days), len(days)):
        ensure(p.real[i].key_rate_date == day(days[i]), 'indexing', i, p.real[i].key_rate_date)
    iterator = p.real
    for turn in ('first', 'second'):
        ensure([next(iterator).key_rate_date for _ in days] == [day(d) for d in days], f'next() over the collection, {turn} time')
        try:
            next(iterator)
        except StopIteration:
            pass
        else:
            ensure(False, 'next() past the end did not stop')
    ensure([kr.key_rate_date for kr in reversed(p.real)] == [day(d) for d in reversed(days)], 'reversed()')
    ensure((key_rate(day(n), convention) in p.real) == (n in p.model), 'membership', day(n), days)
    ensure(p.real == KeyRateCollection([key_rate(day(d), convention) for d in reversed(days)]), 'equality of collections')
    ensure(not p.real == KeyRateCollection([key_rate(day(d + 1), convention) for d in days]), 'inequality of collections')


LARGE = st.tuples(many(10, 60, lambda rng, i: [rng.randint(1, 90), None if rng.random() < 0.5 else round(rng.uniform(-0.01, 0.01), 4)]), st.booleans()).map(
    lambda t: [[sum(g for g, _ in t[0][:i + 1]), b, None] for i, (_, b) in enumerate(t[0])][::1 if t[1] else -1])
PROPERTY = Property('C15', [
    Facet('large', lambda: st.fixed_dictionaries({'first': LARGE, 'ops': OPS, 'dcc': st.sampled_from(refs.ACT)}), check_history,
          'at least three effective operations and a collection of two key rates or more', 32, 600, 4, 8),
    Facet('history', lambda: st.fixed_dictionaries(
        {'first': st.lists(RATE, min_size=1, max_size=6), 'ops': OPS, 'dcc': st.sampled_from(refs.ACT)}), check_history,
        'at least three effective operations and a collection of two key rates or more', 1000, 16000, 8, 8),
], assumptions=['one day-count convention per collection, distinct key rate dates', 'key rates that are put into a '
                'collection belong to it (the caller does not put them into another one)'])
