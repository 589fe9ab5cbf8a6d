"""C02: day counts of timestamps."""
from datetime import datetime, timedelta

import pandas as pd
from hypothesis import strategies as st

from ..core import Facet, Property, close, ensure, expect_error, number
from ..gens import dates, datetimes
from ..refs import ACT, CONVENTIONS, D, clock, day_count, year_fraction

from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention


def accrual(start, end, name):
    return number(DayCountCalculator.compute_accrual_length(start, end, DayCountConvention[name]),
                  f'accrual {start}..{end} {name}')


def moments():
    fine = st.tuples(datetimes(), st.one_of(st.integers(0, 999).map(lambda ms: 1000 * ms), st.integers(0, 999_999))).map(
        lambda t: (datetime.fromisoformat(t[0]) + timedelta(microseconds=t[1])).isoformat(timespec='microseconds'))
    return st.one_of(datetimes(), datetimes(), dates(), fine)


def ordered(items):
    return sorted(items, key=lambda s: s if 'T' in s else s + 'T00:00:00')   # clock() is too coarse for microseconds


def near(base_and_seconds):
    base, seconds = base_and_seconds
    t = D(base) if 'T' in base else datetime.fromisoformat(base)
    return [base, (t + timedelta(seconds=seconds)).isoformat()]


def pairs():
    return st.one_of(
        st.lists(moments(), min_size=2, max_size=2).map(ordered),
        st.tuples(moments(), st.one_of(st.integers(0, 3 * 86400), st.integers(0, 500 * 86400))).map(near))


def check_reference(case, rec):
    start, end = D(case[0]), D(case[1])
    for name in ACT:
        close(accrual(start, end, name), year_fraction(start, end, name), f'{name} from {start} to {end}', 1e-11, 1e-11)
    rec.nontrivial(clock(start) % 1 != 0 or clock(end) % 1 != 0)
    rec.label(type(start).__name__ + '-' + type(end).__name__,
              'same-day' if int(clock(start)) == int(clock(end)) else 'other',
              'year-crossing' if start.year != end.year else 'in-year')


def check_kinds(case, rec):
    """Timestamps of pandas are timestamps, too."""
    start, end = D(case['pair'][0]), D(case['pair'][1])
    as_pandas = [pd.Timestamp(t) if flag and isinstance(t, datetime) else t for t, flag in zip((start, end), case['kinds'])]
    for name in CONVENTIONS:
        got = accrual(*as_pandas, name)
        close(got, accrual(start, end, name), f'{name} from {as_pandas[0]!r} to {as_pandas[1]!r}', 1e-12, 1e-13)
        if name in ACT:
            close(got, year_fraction(start, end, name), f'{name} from {as_pandas[0]!r} to {as_pandas[1]!r}', 1e-11, 1e-11)
    rec.nontrivial(any(t is not u for t, u in zip((start, end), as_pandas)) and clock(start) < clock(end))


def check_midnight(case, rec):
    a, b = D(case[0]), D(case[1])
    a_midnight, b_midnight = datetime(a.year, a.month, a.day), datetime(b.year, b.month, b.day)
    for name in CONVENTIONS:
        expected = day_count(a, b, name)
        for s, e in ((a_midnight, b_midnight), (a, b_midnight), (a_midnight, b)):
            close(accrual(s, e, name), expected, f'{name} from {s!r} to {e!r}', 1e-12, 1e-11)
    rec.nontrivial(a != b)


def check_laws(case, rec):
    a, b, c = map(D, case)
    for name in CONVENTIONS:
        ab, bc, ac = accrual(a, b, name), accrual(b, c, name), accrual(a, c, name)
        ensure(abs(accrual(a, a, name)) < 1e-13, f'{name}: an empty interval accrues', a)
        ensure(min(ab, bc, ac) >= -1e-13, f'{name}: negative accrual', a, b, c, ab, bc, ac)
        ensure(ac >= ab - 1e-11, f'{name}: accrual shrinks as the end advances', a, b, c, ab, ac)
        if name in ACT:
            close(ab + bc, ac, f'{name}: accruals over adjacent intervals add up', 1e-11, 1e-11)
        else:
            # a timestamp lies between the two surrounding midnights
            a0, c0 = D(case[0][:10]), D(case[2][:10])
            if a == a0 or clock(a) == clock(a0):
                low = day_count(a0, c0, name)
                high = day_count(a0, c0 + timedelta(days=1), name)
                ensure(low - 1e-11 <= ac <= high + 1e-11, '30/360 outside the surrounding midnights', a, c, low, ac, high)
    rec.nontrivial(clock(a) < clock(b) < clock(c))


def check_order(case, rec):
    a, b = D(case[0]), D(case[1])
    if clock(a) == clock(b):
        return
    for name in CONVENTIONS:
        expect_error(lambda: DayCountCalculator.compute_accrual_length(b, a, DayCountConvention[name]), ValueError,
                     'an interval that ends before it starts')
    rec.nontrivial(clock(b) - clock(a) < 1)


def check_time_fraction(case, rec):
    length = timedelta(seconds=case['seconds'], microseconds=case['micros'])
    got = DayCountCalculator.time_fraction_in_years(length)
    close(got, length / timedelta(days=365.25), 'time_fraction_in_years', 1e-12, 1e-18)
    rec.nontrivial(length % timedelta(days=1) != timedelta(0))
    rec.label('sub-second' if case['micros'] else 'whole seconds')


PROPERTY = Property('C02', [
    Facet('reference', pairs, check_reference, 'at least one endpoint is not a midnight', 2500, 50000),
    Facet('kinds', lambda: st.fixed_dictionaries({'pair': pairs(), 'kinds': st.tuples(st.booleans(), st.booleans()).map(list)}),
          check_kinds, 'one endpoint is a timestamp of pandas', 400, 4000),
    Facet('midnight', lambda: st.lists(dates(), min_size=2, max_size=2).map(sorted), check_midnight,
          'two distinct days', 1500, 30000, examples=[['2023-06-01', '2024-06-01'], ['2023-01-31', '2023-03-31']]),
    Facet('laws', lambda: st.one_of(
        st.lists(moments(), min_size=3, max_size=3).map(ordered),
        st.tuples(moments(), st.integers(0, 200000), st.integers(0, 200000)).map(
            lambda t: near((t[0], t[1])) + [near((near((t[0], t[1]))[1], t[2]))[1]])), check_laws,
        'three distinct moments', 2000, 40000,
        examples=[['2023-01-31T12:00:00', '2023-01-31T12:00:00', '2023-01-31T18:00:00']]),
    Facet('order', pairs, check_order, 'moments less than a day apart, passed in the wrong order', 600, 6000),
    Facet('time_fraction', lambda: st.fixed_dictionaries(
        {'seconds': st.one_of(st.integers(-10 ** 10, 10 ** 10), st.integers(-5, 5)),
         'micros': st.one_of(st.just(0), st.integers(0, 999_999))}), check_time_fraction,
          'not a whole number of days', 500, 5000),
], assumptions=['naive datetimes', 'between midnights 30/360 is only required to be monotone in the '
                'end and to lie between the surrounding midnights'])
