"""Independent reference implementations (oracles).  Nothing here calls the code under test."""
from __future__ import annotations

import calendar
import math
from datetime import date, datetime, timedelta
from functools import lru_cache

ONE = timedelta(days=1)


def D(text):
    """'2024-02-29' -> date; '2024-02-29T01:02:03' -> datetime."""
    return datetime.fromisoformat(text) if 'T' in text else date.fromisoformat(text)


# ------------------------------------------------------------------------------------------------ day counts

CONVENTIONS = ('ACTUAL_OVER_360', 'ACTUAL_OVER_365', 'ACTUAL_OVER_365_POINT_25', 'ACTUAL_OVER_ACTUAL',
               'THIRTY_OVER_THREESIXTY')
ACT = CONVENTIONS[:4]
FIXED_BASE = {'ACTUAL_OVER_360': 360.0, 'ACTUAL_OVER_365': 365.0, 'ACTUAL_OVER_365_POINT_25': 365.25}


def year_length(year: int) -> int:
    return 366 if calendar.isleap(year) else 365


def is_feb_end(d: date) -> bool:
    return d.month == 2 and d.day == calendar.monthrange(d.year, 2)[1]


def day_count(start: date, end: date, convention: str) -> float:
    """Year fraction between dates, start <= end."""
    if convention in FIXED_BASE:
        return (end.toordinal() - start.toordinal()) / FIXED_BASE[convention]
    if convention == 'ACTUAL_OVER_ACTUAL':
        # every elapsed day weighs 1/(length of the year in which it ends)
        total = 0.0
        for year in range(start.year, end.year + 1):
            last_of_previous = date(year, 1, 1).toordinal() - 1
            last = date(year, 12, 31).toordinal()
            days = min(end.toordinal(), last) - max(start.toordinal(), last_of_previous)
            total += days / year_length(year)
        return total
    d1, d2 = start.day, end.day
    if is_feb_end(start) and is_feb_end(end):
        d2 = 30
    if is_feb_end(start):
        d1 = 30
    if d2 == 31 and d1 >= 30:
        d2 = 30
    if d1 == 31:
        d1 = 30
    return ((end.year - start.year) * 360 + (end.month - start.month) * 30 + (d2 - d1)) / 360.0


def clock(t) -> float:
    """Fractional day number of a date or datetime."""
    if isinstance(t, datetime):
        midnight = datetime(t.year, t.month, t.day)
        return t.toordinal() + (t - midnight).total_seconds() / 86400.0
    return float(t.toordinal())


@lru_cache(maxsize=None)
def _act_act_at(ordinal: int) -> float:
    d = date.fromordinal(ordinal)
    return (d.year - 1900) + (ordinal - date(d.year, 1, 1).toordinal() + 1) / year_length(d.year)


def act_act_position(t) -> float:
    """Monotone piecewise-linear clock whose differences are ACT/ACT accruals."""
    c = clock(t)
    day = int(math.floor(c))
    frac = c - day
    low = _act_act_at(day)
    return low if frac == 0.0 else low + frac * (_act_act_at(day + 1) - low)


def year_fraction(start, end, convention: str) -> float:
    """Year fraction between dates or datetimes for the ACT conventions (and dates for 30/360)."""
    if convention in FIXED_BASE:
        return (clock(end) - clock(start)) / FIXED_BASE[convention]
    if convention == 'ACTUAL_OVER_ACTUAL':
        return act_act_position(end) - act_act_position(start)
    return day_count(start, end, convention)


# ------------------------------------------------------------------------------------------------ holidays

def nth_weekday(year: int, month: int, weekday: int, n: int) -> date:
    days = [d for d in range(1, calendar.monthrange(year, month)[1] + 1) if date(year, month, d).weekday() == weekday]
    return date(year, month, days[n - 1])


def observed(d: date) -> date:
    return d - ONE if d.weekday() == 5 else d + ONE if d.weekday() == 6 else d


@lru_cache(maxsize=None)
def us_holidays_of(year: int) -> dict:
    """The observed dates of the project's US federal calendar (it fixes MLK at Jan 17 and Memorial Day at May 30)."""
    return {
        'NewYears': observed(date(year, 1, 1)), 'MLK': observed(date(year, 1, 17)),
        'Presidents': nth_weekday(year, 2, 0, 3), 'Memorial': observed(date(year, 5, 30)),
        'Juneteenth': observed(date(year, 6, 19)), 'Independence': observed(date(year, 7, 4)),
        'Labor': nth_weekday(year, 9, 0, 1), 'Columbus': nth_weekday(year, 10, 0, 2),
        'Veterans': observed(date(year, 11, 11)), 'Thanksgiving': nth_weekday(year, 11, 3, 4),
        'Christmas': observed(date(year, 12, 25))}


@lru_cache(maxsize=None)
def _us_set(year: int) -> frozenset:
    return frozenset(d for y in (year - 1, year, year + 1) for d in us_holidays_of(y).values())


def is_us_business_day(d: date) -> bool:
    return d.weekday() < 5 and d not in _us_set(d.year)


def following(d: date, is_business=is_us_business_day) -> date:
    while not is_business(d):
        d += ONE
    return d


def preceding(d: date, is_business=is_us_business_day) -> date:
    while not is_business(d):
        d -= ONE
    return d


def modified_following(d: date, is_business=is_us_business_day) -> date:
    f = following(d, is_business)
    return f if f.month == d.month else preceding(d, is_business)


def add_business_days(d: date, n: int, is_business=is_us_business_day) -> date:
    d = following(d, is_business)
    step = ONE if n >= 0 else -ONE
    for _ in range(abs(n)):
        d += step
        while not is_business(d):
            d += step
    return d


SETTLEMENT_OFFSETS = {'T_MINUS_TWO_BUSINESS': -2, 'T_MINUS_ONE_BUSINESS': -1, 'T_PLUS_ZERO_BUSINESS': 0,
                      'T_PLUS_ONE_BUSINESS': 1, 'T_PLUS_TWO_BUSINESS': 2, 'T_PLUS_THREE_BUSINESS': 3}


def settlement(d: date, convention: str, is_business=is_us_business_day) -> date:
    if convention == 'T_MINUS_ZERO_BUSINESS':
        return preceding(d, is_business)
    return add_business_days(d, SETTLEMENT_OFFSETS[convention], is_business)


# ------------------------------------------------------------------------------------------------ date stepping

def shift_months(t, months: int):
    """Calendar month shift with the day capped at the month's length."""
    index = t.year * 12 + (t.month - 1) + months
    year, month = divmod(index, 12)
    month += 1
    return t.replace(year=year, month=month, day=min(t.day, calendar.monthrange(year, month)[1]))
