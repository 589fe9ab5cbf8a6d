"""Yield curves built from plain knots, and the reference of what they have to say."""
import math
from datetime import date, timedelta

from hypothesis import strategies as st
from scipy.interpolate import make_interp_spline

from . import refs
from .curvetools import MIN_KNOTS, _accumulate, axis, knots_strategy, knot_dates, reference_linear, reference_previous
from .gens import dates, floats, many
from .refs import D

from fixedIncome.src.assets.base_cashflow import Cashflow, Payment
from fixedIncome.src.curves.base_curve import KnotValuePair
from fixedIncome.src.curves.curve_enumerations import EndBehavior, InterpolationMethod, InterpolationSpace
from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurve
from fixedIncome.src.risk.key_rate import KeyRate
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention


class Quote:
    """The least an instrument has to offer to a yield curve: its knot."""

    def __init__(self, knot, value):
        self.knot, self.value = knot, value

    def to_knot_value_pair(self):
        return KnotValuePair(self.knot, self.value)


METHODS = ['LINEAR', 'LINEAR', 'LINEAR', 'LINEAR', 'PREVIOUS', 'QUADRATIC_SPLINE', 'CUBIC_SPLINE']


def method_of(spec):
    """The interpolation method; splines only through knots which are not too uneven, as they oscillate otherwise."""
    method, days = spec.get('method', 'LINEAR'), [k for k, _ in spec['knots']]
    if len(days) < MIN_KNOTS[method]:
        return 'LINEAR'
    gaps = [b - a for a, b in zip(days, days[1:])]
    return method if method in ('LINEAR', 'PREVIOUS') or max(gaps) <= 8 * min(gaps) else 'LINEAR'


def curve_specs(max_knots=6, max_gap=200, lo=-0.02, hi=0.12):
    return st.fixed_dictionaries({
        'reference': dates(date(2000, 1, 1), date(2060, 1, 1)), 'lag': st.integers(1, 90),
        'knots': knots_strategy(2, max_knots, lo, hi, max_gap), 'dcc': st.sampled_from(refs.ACT),
        # whether the curve first had two knots only, and was given the others later
        'grown': st.sampled_from([False, False, False, True]), 'method': st.sampled_from(METHODS)})


def large_curve_specs(lo=-0.02, hi=0.12):
    """Curves with many knots, which are never too uneven for splines."""
    knots = many(8, 24, lambda rng, i: (rng.randint(12, 60), round(rng.uniform(lo, hi), 4))).map(_accumulate)
    return st.tuples(curve_specs(), knots).map(lambda t: {**t[0], 'knots': t[1]})


def knots_of(spec):
    first = D(spec['reference']) + timedelta(days=spec['lag'])
    return knot_dates(first.isoformat(), spec['knots'])


class YieldModel:
    _spline = None

    def __init__(self, spec):
        self.reference, self.dcc = D(spec['reference']), spec['dcc']
        self.dates = knots_of(spec)
        self.values = [v for _, v in spec['knots']]
        self.method = method_of(spec)

    def axis(self, when):
        return refs.day_count(self.reference, when, self.dcc)

    def __call__(self, when):
        if when <= self.dates[0]:
            return self.values[0]
        if when >= self.dates[-1]:
            return self.values[-1]
        if self.method == 'LINEAR':
            return reference_linear(self.dates, self.values, self.reference, self.dcc, when)
        if self.method == 'PREVIOUS':
            return reference_previous(self.dates, self.values, when)
        key = tuple(self.dates), tuple(self.values)
        if self._spline is None or self._spline[0] != key:
            xs = [axis(self.reference, d, self.dcc) for d in self.dates]
            self._spline = key, make_interp_spline(xs, self.values, k=2 if self.method == 'QUADRATIC_SPLINE' else 3)
        return float(self._spline[1](axis(self.reference, when, self.dcc)))

    def discount(self, when, adjustment=lambda d: 0.0):
        return math.exp(-(self(when) + adjustment(when)) * self.axis(when))

    def present_value(self, payments, adjustment=lambda d: 0.0):
        return sum(a * self.discount(d, adjustment) for d, a in payments if d >= self.reference)


def build_yield_curve(spec, order=None, space=InterpolationSpace.CONTINUOUSLY_COMPOUNDED_YIELD):
    quotes = [Quote(d, v) for d, (_, v) in zip(knots_of(spec), spec['knots'])]
    grown = spec.get('grown') and order is None and len(quotes) > 2 and method_of(spec) in ('LINEAR', 'PREVIOUS')
    every = quotes
    if grown:
        quotes = quotes[:2]
    if order is not None:
        quotes = [quotes[i] for i in sorted(range(len(quotes)), key=lambda i: order[i % len(order)])]
    curve = YieldCurve(instruments=quotes, quote_adjustments=None, interpolation_method=InterpolationMethod[method_of(spec)],
                       interpolation_day_count_convention=DayCountConvention[spec['dcc']], interpolation_space=space,
                       reference_date=D(spec['reference']), left_end_behavior=EndBehavior.CONSTANT,
                       right_end_behavior=EndBehavior.CONSTANT)
    if grown:
        curve.reset_interpolation_values([q.to_knot_value_pair() for q in every])
    return curve


PAYMENTS = st.lists(st.tuples(st.one_of(floats(0.01, 1, 3), floats(0.01, 1, 3), st.sampled_from([1.0, 0.0, -0.3])), floats(-150, 150, 2)),
                    min_size=1, max_size=5)


def payments_of(model, fractions):
    """Payments not beyond the last knot; the fraction 0.0 is the reference date itself, negative ones are in the past."""
    span = (model.dates[-1] - model.reference).days
    return [(model.reference + timedelta(days=max(1, int(f * span)) if f > 0 else -int(-f * span)), a) for f, a in fractions]


def cashflow_of(payments):
    return Cashflow([Payment(payment_date=d, payment=a) for d, a in payments])


def tent(previous, middle, following, bump, convention):
    """The bump of a key rate: the full bump at its date, zero from its neighbours on, flat where there is none."""
    def value(when):
        if when == middle:
            return bump
        if when < middle:
            if previous is None:
                return bump
            if when <= previous:
                return 0.0
            return bump * refs.day_count(previous, when, convention) / refs.day_count(previous, middle, convention)
        if following is None:
            return bump
        if when >= following:
            return 0.0
        return bump * refs.day_count(when, following, convention) / refs.day_count(middle, following, convention)
    return value


def tents(dates_, bumps, convention):
    n = len(dates_)
    return [tent(dates_[i - 1] if i else None, dates_[i], dates_[i + 1] if i + 1 < n else None, bumps[i], convention)
            for i in range(n)]


def key_rate(when, convention, previous=None, following=None, bump=None):
    kr = KeyRate(day_count_convention=DayCountConvention[convention], key_rate_date=when, prior_date=previous,
                 next_date=following)
    if bump is not None:
        kr.set_bump_val(bump)
    return kr
