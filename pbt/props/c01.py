"""C01: day-count conventions on calendar dates."""
from datetime import date, timedelta

from hypothesis import strategies as st

from ..core import Facet, Property, close, ensure, expect_error, number
from ..gens import dates as usual_dates, offset
from ..refs import ACT, CONVENTIONS, D, day_count

from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention


def accrual(start, end, name):
    return number(DayCountCalculator.compute_accrual_length(start, end, DayCountConvention[name]),
                  f'accrual {start}..{end} {name}')


GAPS = st.one_of(st.integers(0, 40), st.integers(0, 800), st.integers(0, 40_000))
EVERY = date(1700, 1, 1), date(2450, 12, 31)
CENTURIES = st.tuples(st.sampled_from([1800, 1900, 2000, 2100, 2200, 2400]), st.integers(-400, 400)).map(
    lambda t: offset(date(t[0], 3, 1).isoformat(), t[1]))


def dates():
    return st.one_of(usual_dates(), usual_dates(), usual_dates(*EVERY), CENTURIES)


def pair_strategy():
    return st.tuples(dates(), st.one_of(dates(), GAPS)).map(
        lambda t: [t[0], offset(t[0], t[1])] if isinstance(t[1], int) else sorted(t))


def check_pair(case, rec):
    start, end = D(case[0]), D(case[1])
    for name in CONVENTIONS:
        close(accrual(start, end, name), day_count(start, end, name), f'{name} from {start} to {end}', 1e-12, 1e-11)
    rec.nontrivial(start.year != end.year)
    rec.label(f'years={min(end.year - start.year, 3)}', 'feb-end' if start.month == 2 and start.day >= 28 else 'other')


def triple_strategy():
    return st.tuples(dates(), GAPS, GAPS).map(
        lambda t: [t[0], offset(t[0], t[1]), offset(offset(t[0], t[1]), t[2])])


def check_laws(case, rec):
    a, b, c = map(D, case)
    for name in CONVENTIONS:
        ab, bc, ac = accrual(a, b, name), accrual(b, c, name), accrual(a, c, name)
        ensure(accrual(a, a, name) == 0.0, f'{name}: an empty interval accrues', a)
        ensure(ab >= 0 and bc >= 0 and ac >= 0, f'{name}: negative accrual', a, b, c, ab, bc, ac)
        ensure(ac >= ab - 1e-12, f'{name}: accrual shrinks as the end date advances', a, b, c, ab, ac)
        ensure(ac >= bc - 1e-12, f'{name}: accrual grows as the start date advances', a, b, c, bc, ac)
        if name in ACT:
            close(ab + bc, ac, f'{name}: accruals over adjacent intervals add up', 1e-12, 1e-11)
            ensure(a == b or ab > 0, f'{name}: a non-empty interval accrues nothing', a, b)
            actual = (c - a).days / 365.25
            ensure(abs(ac - actual) <= 0.02 * actual + 0.01, f'{name}: far from the actual length', a, c, ac)
        else:
            ensure(abs(ac - (c - a).days / 365.25) <= 0.03, '30/360: far from the actual length', a, c, ac)
    rec.nontrivial(a < b < c)
    rec.label('nested' if a < b < c else 'degenerate')


def check_errors(case, rec):
    first, second, name, bogus = D(case['a']), D(case['b']), case['dcc'], case['bogus']
    early, late = min(first, second), max(first, second)
    if early != late:
        expect_error(lambda: DayCountCalculator.compute_accrual_length(late, early, DayCountConvention[name]),
                     ValueError, 'an interval that ends before it starts')
        rec.nontrivial()
    expect_error(lambda: DayCountCalculator.compute_accrual_length(early, late, bogus), TypeError,
                 'an unknown day count convention')


def whole_years(case, rec):
    start, years = D(case[0]), case[1]
    if (start.month, start.day) == (2, 29):
        start -= timedelta(days=1)
    end = start.replace(year=start.year + years)
    from ..refs import is_feb_end
    if not is_feb_end(start) or is_feb_end(end):
        close(accrual(start, end, 'THIRTY_OVER_THREESIXTY'), years, '30/360 over whole years', 0, 1e-12)
    if (start.month, start.day) == (12, 31) or start.year % 4 != 0 and end.year % 4 != 0:
        close(accrual(start, end, 'ACTUAL_OVER_ACTUAL'), years, 'ACT/ACT over whole years', 0, 1e-11)
    rec.nontrivial()


PROPERTY = Property('C01', [
    Facet('reference', pair_strategy, check_pair, 'the two dates lie in different years', 3000, 60000,
          examples=[['2024-02-28', '2024-02-29'], ['2024-02-29', '2025-02-28'], ['2023-02-28', '2024-02-29'],
                    ['2023-12-31', '2024-12-31'], ['2023-01-30', '2023-03-31'], ['2024-02-29', '2028-02-29']]),
    Facet('laws', triple_strategy, check_laws, 'three distinct dates', 2500, 50000),
    Facet('errors', lambda: st.fixed_dictionaries(
        {'a': dates(), 'b': dates(), 'dcc': st.sampled_from(CONVENTIONS),
         'bogus': st.one_of(st.none(), st.integers(), st.text(max_size=5), st.sampled_from(CONVENTIONS))}),
        check_errors, 'distinct dates, passed in the wrong order', 400, 4000),
    Facet('whole_years', lambda: st.tuples(dates(), st.integers(0, 60)).map(list), whole_years,
          'every case', 800, 8000),
], assumptions=['ACT/ACT follows the code: a day is weighed by the length of the year in which it ends',
                '30/360 is the US (end-of-month) variant the source cites'])
