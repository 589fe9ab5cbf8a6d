"""C04: business-day arithmetic, rolling conventions and settlement dates."""
from datetime import timedelta

from hypothesis import strategies as st

from .. import refs
from ..core import Facet, Property, ensure, expect_error, siblings
from ..gens import dates
from ..refs import D
from .c03 import US, build_calendar, custom_calendars, holiday_days, reference_predicate

from fixedIncome.src.scheduling_tools.schedule_enumerations import SettlementConvention
from fixedIncome.src.scheduling_tools.scheduler import Scheduler


def calendar_and_reference(spec):
    if spec is None:
        return US, refs.is_us_business_day
    return build_calendar(spec), reference_predicate(spec)


def calendars():
    return st.one_of(st.none(), st.none(), custom_calendars())


def check_rolls(case, rec):
    calendar, is_business = calendar_and_reference(case['calendar'])
    day = D(case['day'])
    f = Scheduler.following_date_adjustment(day, calendar)
    ensure(f == refs.following(day, is_business), f'following adjustment of {day}', f)
    m = Scheduler.modified_following_date_adjustment(day, calendar)
    ensure(m == refs.modified_following(day, is_business), f'modified following adjustment of {day}', m)
    ensure(m.month == day.month and m.year == day.year, f'modified following leaves the month of {day}', m)
    for adjust, value in ((Scheduler.following_date_adjustment, f), (Scheduler.modified_following_date_adjustment, m)):
        ensure(adjust(value, calendar) == value, 'adjusting twice moves the date again', day, value)
    rec.nontrivial(f != day)
    rec.label('rolls back' if m < day else 'rolls forward' if m > day else 'stays',
              'custom' if case['calendar'] is not None else 'us')


def month_end_days():
    return st.one_of(holiday_days(), dates())


def check_arithmetic(case, rec):
    calendar, is_business = calendar_and_reference(case['calendar'])
    day, n = D(case['day']), case['n']
    got = Scheduler.add_business_days(day, n, calendar)
    ensure(got == refs.add_business_days(day, n, is_business), f'{day} plus {n} business days', got)
    ensure(is_business(got), 'the result is not a business day', got)
    back = Scheduler.add_business_days(got, -n, calendar)
    ensure(back == refs.following(day, is_business), f'{day} {n:+d} business days and back', back)
    if is_business(day):
        ensure(Scheduler.add_single_business_day(day, calendar) == refs.add_business_days(day, 1, is_business),
               f'business day after {day}')
    else:
        expect_error(lambda: Scheduler.add_single_business_day(day, calendar), ValueError,
                     'adding a business day to a day that is not one')
    previous = Scheduler.subtract_single_business_day(day, calendar)
    ensure(previous == refs.add_business_days(day, -1, is_business), f'business day before {day}', previous)
    rec.nontrivial(abs(n) >= 1 and abs((got - day).days) != abs(n))
    rec.label('zero' if n == 0 else 'forward' if n > 0 else 'backward')


def check_range(case, rec):
    calendar, is_business = calendar_and_reference(case['calendar'])
    start, end = D(case['day']), D(case['day']) + timedelta(days=case['length'])
    got = Scheduler.generate_business_days(start, end, calendar)
    expected = []
    day = start
    while day <= end:
        if is_business(day):
            expected.append(day)
        day += timedelta(days=1)
    ensure(list(got) == expected, f'business days in {start}..{end}', [str(d) for d in got][:5], len(got), len(expected))
    rec.nontrivial(case['length'] >= 7)


def check_settlement(case, rec):
    calendar, is_business = calendar_and_reference(case['calendar'])
    day = D(case['day'])
    for name in list(refs.SETTLEMENT_OFFSETS) + ['T_MINUS_ZERO_BUSINESS']:
        got = Scheduler.calculate_settlement_date(day, SettlementConvention[name], calendar)
        ensure(got == refs.settlement(day, name, is_business), f'{name} settlement of {day}', got)
        ensure(is_business(got), f'{name}: settles on a day that is not a business day', got)
    rec.nontrivial(not is_business(day))


def day_case(**extra):
    return st.fixed_dictionaries({'day': month_end_days(), 'calendar': calendars(), **extra})


PROPERTY = Property('C04', [
    Facet('rolls', lambda: day_case(), check_rolls, 'the date is not a business day', 2000, 30000, 2, 6,
          examples=[{'day': '2023-12-31', 'calendar': None}, {'day': '2022-12-31', 'calendar': None},
                    {'day': '2021-12-31', 'calendar': None}, {'day': '2023-12-30', 'calendar': None}]),
    Facet('arithmetic', lambda: day_case(n=st.one_of(st.integers(-6, 6), st.integers(-6, 6), st.integers(-60, 60), st.integers(-400, 400))), check_arithmetic,
          'non-business days lie in between', 1000, 12000, 2, 8),
    Facet('range', lambda: day_case(length=st.integers(-5, 45)), check_range, 'at least a week', 500, 6000, 1, 8),
    Facet('settlement', lambda: day_case(), check_settlement, 'trade date is not a business day', 800, 8000, 1, 6,
          examples=[{'day': '2021-12-30', 'calendar': None}]),
    siblings(lambda: day_case(n=st.one_of(st.integers(-6, 6), st.integers(-60, 60))), lambda c, r: (check_arithmetic(c, r), check_rolls(c, r), check_settlement(c, r)),
             'days, shifts or calendars', 80, 1500),
], assumptions=['calendar-day settlement conventions are refused by the code and stay outside the domain'])
