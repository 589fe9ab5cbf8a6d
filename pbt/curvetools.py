"""Builders of real curves from JSON specs, and their reference evaluation."""
import bisect
from datetime import date, datetime, timedelta

import numpy as np

from hypothesis import strategies as st

from . import refs
from .gens import floats
from .refs import D

from fixedIncome.src.curves.base_curve import Curve, DiscountCurve, KnotValuePair
from fixedIncome.src.curves.curve_enumerations import CurveIndex, EndBehavior, InterpolationMethod
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention

MIN_KNOTS = {'LINEAR': 2, 'PREVIOUS': 2, 'QUADRATIC_SPLINE': 3, 'CUBIC_SPLINE': 4}


def knots_strategy(min_size=2, max_size=8, lo=-5.0, hi=5.0, max_gap=900, digits=4):
    """[[days since the first knot, value], ...] strictly increasing."""
    gap = st.one_of(st.integers(1, 40), st.integers(1, max_gap))
    return st.lists(st.tuples(gap, floats(lo, hi, digits)), min_size=min_size, max_size=max_size).map(_accumulate)


def _accumulate(pairs):
    out, total = [], 0
    for i, (gap, value) in enumerate(pairs):
        total += gap if i else 0
        out.append([total, value])
    return out


def knot_dates(first: str, knots):
    base = D(first)
    return [base + timedelta(days=k) for k, _ in knots]


def pairs_of(first: str, knots):
    return [KnotValuePair(d, v) for d, (_, v) in zip(knot_dates(first, knots), knots)]


def axis(reference, when, convention):
    return refs.year_fraction(reference, when, convention)


def reference_linear(dates, values, reference, convention, when):
    xs = [axis(reference, d, convention) for d in dates]
    x = axis(reference, when, convention)
    i = min(max(bisect.bisect_right(dates, when) - 1, 0), len(dates) - 2)
    w = (x - xs[i]) / (xs[i + 1] - xs[i])
    return values[i] + w * (values[i + 1] - values[i])


def reference_previous(dates, values, when):
    return values[bisect.bisect_right(dates, when) - 1]


def discount_pairs(first: date, last: date, rate_at, step=97):
    """A discount curve's knots from the reference date to beyond `last` under a given continuous rate function."""
    out, day = [], first
    while True:
        t = (day - first).days / 365.25
        out.append(KnotValuePair(day, float(np.exp(-rate_at(t) * t))))
        if day > last:
            return out
        day += timedelta(days=step)


def flat_discount_curve(first: date, last: date, rate: float, slope: float = 0.0, convention='ACTUAL_OVER_365',
                        step=97, index=CurveIndex.SOFR):
    """Real DiscountCurve covering first..last with yield rate + slope*t, linearly interpolated."""
    return DiscountCurve(interpolation_values=discount_pairs(first, last, lambda t: rate + slope * t, step),
                         interpolation_method=InterpolationMethod.LINEAR, index=index,
                         interpolation_day_count_convention=DayCountConvention[convention], reference_date=first)


class LinearReference:
    """Independent evaluation of a linearly interpolated curve given its knots (dates and values)."""

    def __init__(self, pairs, reference, convention):
        pairs = sorted(pairs, key=lambda p: p[0])
        self.dates, self.values = [p[0] for p in pairs], [p[1] for p in pairs]
        self.reference, self.convention = reference, convention

    def __call__(self, when):
        return reference_linear(self.dates, self.values, self.reference, self.convention, when)
