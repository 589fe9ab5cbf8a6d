"""C12: calibrated yield curves reprice the instruments they are calibrated to."""
import math
from datetime import date, timedelta

from hypothesis import strategies as st

from .. import refs
from ..bonds import Model, build
from ..core import Facet, Property, Reject, close, ensure, number
from ..curvetools import reference_linear
from ..gens import dates, floats
from ..refs import D
from .c03 import custom_calendars

from fixedIncome.src.assets.base_cashflow import ZeroCoupon
from fixedIncome.src.curves.curve_enumerations import InterpolationMethod
from fixedIncome.src.curves.yield_curves.yield_curve import YieldCurveFactory

DCC = 'ACTUAL_OVER_ACTUAL'          # the convention the factory interpolates with


def instruments_strategy(lo, hi, gaps=st.one_of(st.integers(60, 150), st.integers(60, 400))):
    one = st.fixed_dictionaries({
        'gap': gaps, 'coupon': floats(0, 8, 2),
        'yield': st.one_of(floats(0.0, 0.09, 4), floats(0.0, 0.09, 4), floats(-0.012, 0.01, 4)), 'frequency': st.sampled_from(['SEMI_ANNUAL', 'SEMI_ANNUAL', 'ANNUAL', 'QUARTERLY',
                                                                    'ZERO_COUPON']),
        'cls': st.sampled_from(['treasury', 'treasury', 'corporate']),
        'bda': st.sampled_from(['FOLLOWING', 'MODIFIED_FOLLOWING']),
        'settle': st.sampled_from(['T_PLUS_ONE_BUSINESS', 'T_PLUS_TWO_BUSINESS', 'T_PLUS_ZERO_BUSINESS']),
        'dcc': st.one_of(st.just(DCC), st.sampled_from(refs.CONVENTIONS)), 'bought': st.one_of(st.just(0), st.integers(0, 300)),
        'calendar': st.one_of(st.none(), st.none(), st.none(), custom_calendars())})
    return st.fixed_dictionaries({
        'reference': dates(date(2000, 1, 3), date(2050, 1, 1)), 'instruments': st.lists(one, min_size=lo, max_size=hi),
        'order': st.permutations(list(range(hi))), 'container': st.sampled_from(['list', 'tuple', 'generator']), 'again': st.sampled_from([None, None, 'linear', 'bootstrap'])})


class Market:
    """Bonds priced exactly off a known linear curve of continuously compounded yields."""

    def __init__(self, case):
        self.reference = D(case['reference'])
        total, self.models, specs = 0, [], []
        for one in case['instruments']:
            total += one['gap']
            bought = self.reference - timedelta(days=one.get('bought', 0))
            spec = {'dcc': DCC, 'calendar': None, **one, 'price': 100.0, 'principal': 100,
                    'tenor': f'{total // 365 + 2}Y', 'maturity': (self.reference + timedelta(days=total)).isoformat(),
                    'at': ['date', bought.isoformat()]}
            model = Model(spec)
            self.models.append(model)
            specs.append(spec)
        self.flows = [[(m.maturity, 1.0)] if s['cls'] == 'zero' else [(paid, amount) for _, paid, amount in m.received(self.reference)]
                      for m, s in zip(self.models, specs)]
        self.knots = [max(paid for paid, _ in f) for f in self.flows]
        if any(b <= a for a, b in zip(self.knots, self.knots[1:])):
            raise Reject('two instruments with the same last payment')
        self.yields = [one['yield'] for one in case['instruments']]
        self.prices = [sum(a * self.discount(d, self.true_yield) for d, a in f) for f in self.flows]
        self.specs = specs
        self.bonds = [self.build(i, price) for i, price in enumerate(self.prices)]
        order = [i for i in case['order'] if i < len(self.bonds)]
        self.shuffled = [self.bonds[i] for i in order]
        self.sorted = order == sorted(order)

    def build(self, i, price):
        if self.specs[i]['cls'] == 'zero':
            return ZeroCoupon(self.models[i].maturity, price)
        return build(self.specs[i], self.models[i], price=price)

    def axis(self, when):
        return refs.day_count(self.reference, when, DCC)

    def true_yield(self, when):
        if when <= self.knots[0]:
            return self.yields[0]
        return reference_linear(self.knots, self.yields, self.reference, DCC, when)

    def discount(self, when, curve):
        return math.exp(-float(curve(when)) * self.axis(when))

    def given(self, container):
        return {'list': list, 'tuple': tuple, 'generator': lambda b: (x for x in b)}[container](self.shuffled)


def check_calibration(case, rec, method='LINEAR', bootstrap=False):
    market = Market(case)
    factory = YieldCurveFactory()
    build_curve = factory.bootstrap_yield_curve if bootstrap else factory.construct_yield_curve
    curve = build_curve(market.given(case['container']), interpolation_method=InterpolationMethod[method],
                        reference_date=market.reference)
    if case.get('again'):      # the factory's next curve has nothing to do with this one
        values = [float(curve(k)) for k in market.knots]
        few = market.bonds[:2] if len(market.bonds) > 2 else [market.build(i, 0.99 * p) for i, p in enumerate(market.prices)]
        another = (factory.bootstrap_yield_curve if case['again'] == 'bootstrap' or any(s['cls'] == 'zero' for s in market.specs) else factory.construct_yield_curve)(
            few, interpolation_method=InterpolationMethod.LINEAR, reference_date=market.reference)
        ensure([float(curve(k)) for k in market.knots] == values, 'another calibration moves this curve')
        for bond in few:
            close(another.present_value(bond), bond.price, 'present value on the next curve of the factory', 0, 1e-6)
        rec.label('next curve')
    rec.nontrivial(len(market.bonds) >= 3 and len(set(market.yields)) > 1 and
                   (not market.sorted or case['container'] == 'generator'))
    rec.label(f'{len(market.bonds)} instruments', 'sorted' if market.sorted else 'shuffled', case['container'])
    for i in (range(len(market.bonds)) if not case.get('reverse') else reversed(range(len(market.bonds)))):
        bond, price, flows = market.bonds[i], market.prices[i], market.flows[i]
        close(curve.present_value(bond), price, f'present value of calibration instrument {i}', 0, 1e-6)
        close(sum(a * market.discount(d, curve) for d, a in flows), price,
              f'instrument {i} discounted at the calibrated yields', 0, 1e-6)
    if method == 'LINEAR':
        for knot, value in zip(market.knots, market.yields):
            close(curve(knot), value, f'calibrated yield at {knot}', 0, 1e-6)
        for gap in (-5, 13, 111):
            when = max(market.knots[0] + timedelta(days=gap), market.reference)
            if when <= market.knots[-1]:
                close(curve(when), market.true_yield(when), f'calibrated yield on {when}', 0, 1e-6)
    discount = curve.to_discount_curve()
    close(discount(market.reference), 1.0, 'discount factor today', 0, 1e-12)
    for knot in market.knots:
        close(discount(knot), market.discount(knot, curve), f'discount factor at {knot}', 1e-9, 1e-12)


def with_zeros(case):
    """Some of the instruments are zero coupon bonds, which pay one on any day."""
    one, at = case
    return {**one, 'instruments': [{**i, 'cls': 'zero'} if n in at else i for n, i in enumerate(one['instruments'])]}


def check_spline(case, rec):
    check_calibration(case, rec, 'QUADRATIC_SPLINE' if len(case['instruments']) == 3 else 'CUBIC_SPLINE')


def narrow(case):
    """Smooth markets (yields within a percent of each other), as a spline can be expected to fit."""
    for i, one in enumerate(case['instruments']):
        one['yield'] = round(0.03 + (one['yield'] - 0.045) / 9, 5)
        one['gap'] = 120 + one['gap'] // 2
    return case


def check_long(case, rec):
    """Bonds of up to thirty years, which take the solver longer."""
    check_calibration(case, rec, bootstrap=case['bootstrap'])
    years = sum(one['gap'] for one in case['instruments']) // 365
    rec.nontrivial(years >= 10)
    rec.label(f'{years // 5 * 5} years and more')


def long_strategy():
    return instruments_strategy(2, 2, st.sampled_from([200, 900, 2600, 4200, 5400])).flatmap(
        lambda case: st.booleans().map(lambda b: {**case, 'bootstrap': b}))


def one_bond(gap, coupon, level, frequency='SEMI_ANNUAL'):
    return {'gap': gap, 'coupon': coupon, 'yield': level, 'frequency': frequency, 'cls': 'treasury', 'bda': 'FOLLOWING',
            'settle': 'T_PLUS_ONE_BUSINESS'}


LONG = {'reference': '2024-01-02', 'order': [1, 0], 'container': 'list', 'bootstrap': True,
        'instruments': [one_bond(365, 2.0, 0.03), one_bond(7100, 1.0, 0.085)]}
NEGATIVE = {'reference': '2021-03-01', 'order': [0, 1], 'container': 'list',
            'instruments': [one_bond(300, 1.0, -0.006), one_bond(300, 0.5, -0.004)]}
PROPERTY = Property('C12', [
    Facet('linear', lambda: instruments_strategy(2, 4), check_calibration,
          'three instruments or more, a sloped curve, not an already sorted list', 48, 1600, 8, 8, examples=[NEGATIVE]),
    Facet('bootstrap', lambda: st.tuples(instruments_strategy(2, 4), st.one_of(st.just([]), st.lists(st.integers(0, 3), max_size=4))).map(with_zeros), lambda case, rec: check_calibration(case, rec, bootstrap=True),
          'three instruments or more, a sloped curve, not an already sorted list', 48, 1600, 8, 8, examples=[NEGATIVE]),
    Facet('long', long_strategy, check_long, 'a bond of ten years or more', 8, 240, 8, 8, examples=[LONG]),
    Facet('spline', lambda: instruments_strategy(3, 5).map(narrow), check_spline,
          'three instruments or more, a sloped curve, not an already sorted list', 24, 800, 8, 8),
], assumptions=['every bond has principal 100 (zero coupon bonds of one are bootstrapped as well), an own last payment date, and a price some yield curve can '
                'explain', 'the calibration compares present values as of the reference date to clean prices'])
