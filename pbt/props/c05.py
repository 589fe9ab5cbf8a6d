"""C05: generated date sequences."""
from calendar import monthrange
from datetime import datetime, timedelta

from dateutil.relativedelta import relativedelta
from hypothesis import strategies as st

from ..core import Facet, Property, ensure, expect_error
from ..gens import dates, datetimes
from ..refs import D, clock, shift_months

from fixedIncome.src.scheduling_tools.scheduler import Scheduler


def run(start, end, increment, **kw):
    before = (start, end)
    got = Scheduler.generate_dates_by_increments(start, end, increment, **kw)
    ensure(isinstance(got, list), 'not a list', type(got).__name__)
    ensure((start, end) == before, 'arguments changed')
    return got


def reference(start, end, step_at, positive, limit):
    out, k = [], 0
    while True:
        t = step_at(k)
        if (t > end) if positive else (t < end):
            return out
        out.append(t)
        k += 1
        if k > limit:
            return out


def check_months(case, rec):
    start, months = D(case['start']), case['months'] or 1
    count = case['count']
    end = shift_months(start, months * count) + timedelta(days=case['extra'])
    absolute = case['day']        # "the 15th of the month", "the last day of the month" (31)
    def step_at(k):
        moved = shift_months(start, months * k)
        return moved if absolute is None or k == 0 else moved.replace(day=min(absolute, monthrange(moved.year, moved.month)[1]))
    got = run(start, end, relativedelta(months=months) if absolute is None else relativedelta(months=months, day=absolute))
    expected = reference(start, end, step_at, months > 0, 1000)
    ensure(got == expected, f'{start} to {end} by {months} months (day {absolute})', [str(d) for d in got][:6],
           [str(d) for d in expected][:6], len(got), len(expected))
    rec.nontrivial(len(expected) >= 3)
    rec.label('month-end' if start.day > 28 else 'plain', 'down' if months < 0 else 'up',
              'timestamps' if isinstance(start, datetime) else 'dates')


def check_timedelta(case, rec):
    start = D(case['start'])
    seconds = case['step'] if isinstance(start, datetime) else 86400 * max(1, case['step'] // 86400)
    sign = -1 if case['down'] else 1
    increment = timedelta(seconds=sign * seconds)
    end = start + increment * case['count'] + (timedelta(seconds=case['extra']) if isinstance(start, datetime)
                                               else timedelta(days=case['extra'] % 5))
    got = run(start, end, increment)
    expected = reference(start, end, lambda k: start + k * increment, sign > 0, 1000)
    ensure(got == expected, f'{start} to {end} by {increment}', got[:4], expected[:4], len(got), len(expected))
    rec.nontrivial(len(expected) >= 3)


def check_relative(case, rec):
    """relativedeltas of any unit, also mixed ones; months are shifted first, then the fixed lengths are added."""
    start = D(case['start'])
    sign = -1 if case['down'] else 1
    parts = dict(case['parts'])
    if not isinstance(start, datetime):
        parts = {u: n for u, n in parts.items() if u not in ('hours', 'minutes', 'seconds')}
    if not any(n > 0 for n in parts.values()):
        parts['days'] = 1 + abs(parts.get('days', 0))
    if parts.get('months'):
        parts['days'] = parts.get('days', 0) + (case['against'] if case['against'] < 0 else 0)   # e.g. a month less 5 days
    parts = {u: sign * n for u, n in parts.items()}
    fixed = timedelta(weeks=parts.get('weeks', 0), days=parts.get('days', 0), hours=parts.get('hours', 0),
                      minutes=parts.get('minutes', 0), seconds=parts.get('seconds', 0))

    def step_at(k):
        return shift_months(start, parts.get('months', 0) * k) + fixed * k

    end = step_at(case['count'])
    if case['extra']:
        end += timedelta(seconds=case['extra']) if isinstance(start, datetime) else timedelta(days=case['extra'] % 5)
    got = run(start, end, relativedelta(**parts))
    expected = reference(start, end, step_at, sign > 0, 1000)
    ensure(got == expected, f'{start} to {end} by {parts}', got[:4], expected[:4], len(got), len(expected))
    rec.nontrivial(len(expected) >= 3)
    rec.label('down' if sign < 0 else 'up', '+'.join(sorted(u for u, n in parts.items() if n)))


def check_limit(case, rec):
    start = D(case['start'])
    # an increment that points away from the end, or an empty increment
    for increment in (timedelta(days=case['step']), relativedelta(days=case['step']), relativedelta(months=case['step'])):
        far = start + (timedelta(days=40_000) if case['step'] >= 0 else timedelta(days=-20_000))
        got = run(start, far, increment, max_dates=case['max'])
        ensure(len(got) <= case['max'] + 1, 'more dates than max_dates allows', len(got), case['max'])
        ensure(len(got) >= min(case['max'], 1), 'no dates', len(got))
        ensure(all(t == start for t in got[:1]), 'does not begin at the start date')
        wrong = start - (far - start)
        if case['step'] != 0 and wrong != start:
            away = run(start, wrong, increment, max_dates=case['max'])
            ensure(away == [], 'dates were generated away from the end date', away[:3])
    for bogus in (None, 1, 'month'):
        expect_error(lambda: run(start, start + timedelta(days=40), bogus), TypeError, 'an increment of unknown type')
    rec.nontrivial(case['step'] != 0)


def check_long(case, rec):
    """Sequences of more than the thousand dates that are generated unless more are asked for."""
    start, unit = datetime(2000, 1, 1), case['unit']
    count = round(10 ** case['magnitude'])
    step = (1 if unit == 'days' else case['step']) * (-1 if case['down'] else 1)
    fixed = timedelta(**{unit: step})
    if unit == 'days':
        count = min(count, 200_000)
        start = datetime(2000, 1, 1) if step > 0 else datetime(2600, 1, 1)
    increment = relativedelta(**{unit: step}) if case['relative'] else fixed
    allowed = count + case['spare'] if case['spare'] >= 0 else 1_000_000
    got = run(start, start + (count - 1) * fixed, increment, max_dates=allowed)
    ensure(len(got) == count, f'{count} dates from {start} by {increment} with max_dates={allowed}', len(got))
    for k in {0, 1, 2, count - 1, count - 2, count // 2, *(int(f * (count - 1)) for f in case['at'])}:
        ensure(got[k] == start + k * fixed, f'date {k} of {count} from {start} by {increment}', got[k])
    rec.nontrivial(count > 1001)
    rec.label('relative' if case['relative'] else 'timedelta', f'1e{int(case["magnitude"])}')


PROPERTY = Property('C05', [
    Facet('long', lambda: st.fixed_dictionaries(
        {'magnitude': st.one_of(st.floats(2.9, 4.5), st.floats(2.9, 5.4)), 'unit': st.sampled_from(['seconds', 'minutes', 'days']),
         'step': st.integers(1, 90), 'down': st.booleans(), 'relative': st.booleans(), 'spare': st.integers(-2, 3),
         'at': st.lists(st.floats(0, 1), max_size=5)}), check_long, 'more than 1001 dates', 40, 400,
        examples=[{'magnitude': 5.2, 'unit': 'minutes', 'step': 1, 'down': False, 'relative': False, 'spare': 5, 'at': [0.3]}]),
    Facet('months', lambda: st.fixed_dictionaries(
        {'start': st.one_of(dates(), dates(), datetimes()), 'months': st.one_of(st.sampled_from([1, -1, 3, -3, 6, -6, 12, -12]), st.integers(-15, 15)),
         'count': st.integers(0, 60), 'extra': st.integers(-3, 3), 'day': st.sampled_from([None] * 5 + [1, 15, 29, 31])}), check_months, 'at least three dates', 2000, 30000,
        examples=[{'start': '2022-08-31', 'months': 6, 'count': 8, 'extra': 0, 'day': None},
                  {'start': '2024-02-29', 'months': -12, 'count': 9, 'extra': 0, 'day': None}]),
    Facet('timedeltas', lambda: st.fixed_dictionaries(
        {'start': st.one_of(dates(), datetimes()), 'step': st.one_of(st.integers(1, 10 ** 6), st.sampled_from([3600, 86400])),
         'down': st.booleans(), 'count': st.one_of(*[st.integers(0, 200)] * 7, st.sampled_from([990, 998, 999, 1000, 1001, 1400])),
         'extra': st.integers(0, 10 ** 5)}), check_timedelta,
        'at least three dates', 1500, 20000),
    Facet('relative', lambda: st.fixed_dictionaries(
        {'start': st.one_of(dates(), datetimes(), datetimes()), 'down': st.booleans(), 'count': st.integers(0, 30),
         'parts': st.dictionaries(st.sampled_from(['months', 'weeks', 'days', 'hours', 'minutes', 'seconds']),
                                  st.integers(1, 30), min_size=1, max_size=3),
         'against': st.integers(-5, 5), 'extra': st.one_of(st.just(0), st.integers(0, 10 ** 5))}), check_relative,
        'at least three dates', 800, 10000),
    Facet('limits', lambda: st.fixed_dictionaries(
        {'start': dates(), 'step': st.integers(-10, 10), 'max': st.integers(1, 30)}), check_limit,
        'a non-empty increment', 400, 4000),
], assumptions=['max_dates may be exceeded by the one date that hits the guard'])
