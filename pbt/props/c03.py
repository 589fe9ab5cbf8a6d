"""C03: holidays and the business-day predicate."""
from datetime import date, timedelta

from hypothesis import strategies as st

from ..core import Facet, Property, ensure, expect_error, siblings
from ..gens import dates
from ..refs import D, following, is_us_business_day, observed, us_holidays_of

from fixedIncome.src.scheduling_tools import holidays as hol
from fixedIncome.src.scheduling_tools.schedule_enumerations import Months, Weekdays
from fixedIncome.src.scheduling_tools.scheduler import Scheduler

US = hol.US_FEDERAL_HOLIDAYS

ADJUSTMENTS = {
    'observed': (hol.us_federal_holiday_adjustment, observed),
    'none': (lambda d: d, lambda d: d),
    **{day.name.lower(): (lambda d, w=day: hol.get_next_weekday(d, w), lambda d, w=day.value: next_weekday(d, w))
       for day in Weekdays},
}


def next_weekday(d, weekday):
    while d.weekday() != weekday:
        d += timedelta(days=1)
    return d


ENTRY = st.tuples(st.integers(1, 12), st.integers(1, 28), st.sampled_from(sorted(ADJUSTMENTS)), st.booleans())


def custom_calendars():
    entry = ENTRY
    year_ends = st.tuples(st.sampled_from([1, 12]), st.sampled_from([1, 2, 30, 31]), st.sampled_from(sorted(ADJUSTMENTS)),
                          st.booleans())
    plain = st.lists(st.one_of(entry, year_ends), max_size=8)
    return st.one_of(plain, plain, st.tuples(holiday_runs(), st.lists(entry, max_size=2)).map(lambda t: t[0] + t[1])).map(
        lambda es: [list(e) for e in es])


def holiday_runs():
    """Holidays on consecutive days, e.g. a golden week or the days around the new year."""
    def run(t):
        start = date(2001, 1, 1) + timedelta(days=t[0] - 1)
        days = [start + timedelta(days=k) for k in range(t[1])]
        return [(d.month, d.day, t[2], t[3]) for d in days if (d.month, d.day) != (2, 29)]
    return st.tuples(st.one_of(st.integers(1, 365), st.sampled_from([1, 28, 55, 120, 180, 350, 355, 360, 363, 365])), st.integers(3, 14),
                     st.sampled_from(['none', 'observed']), st.booleans()).map(run)


def build_calendar(spec):
    return {f'h{i}': hol.Holiday(Months(month) if as_enum else month, day, ADJUSTMENTS[adj][0])
            for i, (month, day, adj, as_enum) in enumerate(spec)}


def reference_dates(spec, year):
    return {ADJUSTMENTS[adj][1](date(year, month, day)) for month, day, adj, _ in spec}


def reference_predicate(spec):
    def is_business(d):
        return d.weekday() < 5 and all(d not in reference_dates(spec, y) for y in (d.year - 1, d.year, d.year + 1))
    return is_business


def check_us_year(case, rec):
    first, last = case['from'], case['from'] + case['span']
    expected = {}
    for year in range(first, last + 1):
        for name, day in us_holidays_of(year).items():
            expected.setdefault(name, set()).add(day)
    ensure(set(US) == set(expected), 'the US federal calendar has other holidays', sorted(US))
    for name, days in expected.items():
        got = hol.generate_holiday_dates(name, first, last, US)
        ensure(set(got) == days, f'{name} in {first}..{last}', sorted(got), sorted(days))
    got = hol.generate_all_holidays(first, last, US)
    ensure(set(got) == set().union(*expected.values()), f'all holidays in {first}..{last}', sorted(got))
    if first == last:
        ensure(len(got) == 11, 'eleven holidays a year', len(got))
        ensure(all(d.weekday() < 5 for d in got), 'a holiday is observed on a weekend')
    rec.nontrivial()
    rec.label(f'span={min(case["span"], 3)}')


def check_us_day(case, rec):
    day = D(case)
    got = Scheduler.is_business_day(day, US)
    ensure(bool(got) == is_us_business_day(day), f'is {day} ({day:%A}) a US business day', got)
    rec.nontrivial(day.weekday() < 5 and not is_us_business_day(day))
    rec.label('weekend' if day.weekday() > 4 else 'holiday' if not is_us_business_day(day) else 'business')


def holiday_days():
    near = st.tuples(st.integers(1976, 2094), st.sampled_from(sorted(us_holidays_of(2000))), st.integers(-2, 2)).map(
        lambda t: (us_holidays_of(t[0])[t[1]] + timedelta(days=t[2])).isoformat())
    year_end = st.tuples(st.integers(1976, 2094), st.integers(-3, 3)).map(
        lambda t: (date(t[0], 1, 1) + timedelta(days=t[1])).isoformat())
    return st.one_of(near, near, year_end, dates())


def check_custom(case, rec):
    spec, year = case['calendar'], case['year']
    calendar = build_calendar(spec)
    expected = reference_dates(spec, year)
    got = hol.generate_all_holidays(year, year, calendar)
    ensure(set(got) == expected, f'holidays of {year}', sorted(got), sorted(expected))
    is_business = reference_predicate(spec)
    days = sorted({d + timedelta(days=k) for d in expected for k in (-1, 0, 1)} | {D(x) for x in case['days']})
    for day in days:
        ensure(bool(Scheduler.is_business_day(day, calendar)) == is_business(day), f'is {day} a business day')
    for op, i, new in case['edits']:          # a calendar may be edited: only its current holidays count
        spec = [list(e) for e in spec]
        if op == 'add' or not spec:
            spec.append(list(new))
        elif op == 'remove':
            spec.pop(i % len(spec))
        else:
            spec[i % len(spec)] = list(new)
        replacement = build_calendar(spec)
        calendar.clear()
        calendar.update(replacement)
        now = reference_dates(spec, year)
        got = hol.generate_all_holidays(year, year, calendar)
        ensure(set(got) == now, f'holidays of {year} after an edit of the calendar', sorted(got), sorted(now))
        is_business = reference_predicate(spec)
        for day in sorted(set(days) | now):
            ensure(bool(Scheduler.is_business_day(day, calendar)) == is_business(day),
                   f'is {day} a business day after an edit of the calendar')
    rec.nontrivial(any(d.weekday() < 5 for d in expected))
    rec.label('year-crossing' if any(d.year != year for d in expected) else 'in-year')


def check_helpers(case, rec):
    day, weekday = D(case['day']), case['weekday']
    got = hol.get_next_weekday(day, Weekdays(weekday))
    ensure(got == next_weekday(day, weekday), f'next weekday {weekday} from {day}', got)
    ensure(Scheduler.get_next_weekday(day, Weekdays(weekday)) == got, 'the two get_next_weekday functions differ')
    ensure(hol.us_federal_holiday_adjustment(day) == observed(day), f'federal adjustment of {day}')
    if case['name'] not in US:
        expect_error(lambda: hol.generate_holiday_dates(case['name'], 2020, 2021, US), KeyError, 'an unknown holiday')
    rec.nontrivial(day.weekday() >= 5 or day.weekday() != weekday)


PROPERTY = Property('C03', [
    Facet('us_years', lambda: st.fixed_dictionaries({'from': st.integers(1901, 2299),
                                                     'span': st.one_of(st.just(0), st.integers(0, 12))}),
          check_us_year, 'every case (all eleven holidays of the years)', 500, 5000),
    Facet('us_days', holiday_days, check_us_day, 'a weekday on which a holiday is observed', 3000, 40000, 1, 6,
          examples=['2021-12-31', '2010-12-31', '2022-12-26', '2023-01-02', '2023-01-17', '2023-11-10']),
    Facet('custom_calendars', lambda: st.fixed_dictionaries(
        {'calendar': custom_calendars(), 'year': st.integers(1950, 2150),
         'days': st.lists(dates(), max_size=4),
         'edits': st.lists(st.tuples(st.sampled_from(['add', 'remove', 'replace']), st.integers(0, 9), ENTRY).map(list), max_size=2)}), check_custom,
        'some holiday is observed on a weekday', 600, 10000),
    Facet('helpers', lambda: st.fixed_dictionaries({'day': dates(), 'weekday': st.integers(0, 6),
                                                    'name': st.one_of(st.text(max_size=6), st.just('Christmas'))}),
          check_helpers, 'the date has to move', 800, 8000),
    siblings(lambda: st.fixed_dictionaries(
        {'calendar': custom_calendars(), 'year': st.integers(1950, 2150), 'days': st.lists(dates(), max_size=2), 'edits': st.just([])}), check_custom,
        'calendars or years', 60, 1000),
], assumptions=['the US calendar is the one the repository\'s own tests pin (MLK on Jan 17, Memorial Day on May 30, '
                'both moved off weekends)', 'holidays are observed at most one year away from their nominal date'])
