"""C10: yield to maturity, duration, convexity."""
from datetime import date, timedelta

from hypothesis import strategies as st

from .. import refs
from ..bonds import PER_YEAR, Model, bond_specs, build, tenors
from ..core import Facet, Property, Reject, close, ensure, number, siblings
from ..gens import dates, floats
from ..refs import D
from .c08 import AT, LATE_AT


def root(function, lo, hi):
    flo, fhi = function(lo), function(hi)
    if flo * fhi > 0:
        return None
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if (function(mid) > 0) == (flo > 0):
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


def reference_yield(model, when):
    target = model.full_price(when) * model.spec['principal'] / 100.0
    return root(lambda y: model.discounted(y, when) - target, -0.06, 0.30)


def remaining(model, when):
    return (model.maturity - when).days / 365.25


def priced(case):
    """Moves the purchase away from the maturity and prices the bond at the drawn yield."""
    model = Model(case)
    if remaining(model, model.purchase) < 0.5:
        case = {**case, 'at': ['fraction', (case['at'][1] % 40) / 100]}
        model = Model(case)
        if remaining(model, model.purchase) < 0.5:
            raise Reject('about to mature: the yield is arbitrarily large')
    if case['frequency'] != 'ZERO_COUPON':
        value = model.discounted(case['target'], model.purchase) * 100 / case['principal']
        case = {**case, 'price': round(value - model.accrued(model.purchase) / case['principal'] * 100, 4)}
    return case


def check_discount(case, rec):
    model = Model(case)
    bond = build(case, model)
    rate = case['rate']
    for when in [model.purchase] + [model.date_at(at) for at in case['others'] + case.get('late', [])]:
        expected = model.discounted(rate, when)
        scale = 1e-10 * (1 + abs(expected))
        close(bond.discount_cashflows_by_fixed_rate(rate, when), expected, f'value at {rate} on {when}', 1e-10, scale)
        close(bond.discount_cashflows_by_fixed_rate(0.0, when), sum(a for _, _, a in model.received(when)),
              'undiscounted payments', 1e-12, 1e-9)
        ensure(bond.discount_cashflows_by_fixed_rate(rate + 0.001, when) <= expected * (1 + 1e-12),
               'the value grows with the rate', when, rate)
    close(bond.discount_cashflows_by_fixed_rate(rate), model.discounted(rate, model.purchase), 'value at purchase', 1e-10,
          1e-9)
    rec.nontrivial(len(model.received(model.purchase)) >= 3 and rate != 0)


def check_yield(case, rec):
    case = priced(case)
    model = Model(case)
    expected = reference_yield(model, model.purchase)
    if expected is None:
        raise Reject('yield outside (-6%, 30%)')
    bond = build(case, model)
    y = number(bond.yield_to_maturity(), 'yield to maturity')
    full = model.full_price(model.purchase) * case['principal'] / 100.0
    close(model.discounted(y, model.purchase), full, 'payments discounted at the yield', 1e-7, 1e-7 * full)
    close(y, expected, 'yield to maturity', 0, 2e-7)
    close(bond.discount_cashflows_by_fixed_rate(y), bond.full_price * case['principal'] / 100.0,
          'the bond does not reprice at its own yield', 1e-7, 1e-7 * full)
    for at in case['others']:
        when = model.date_at(at)
        if remaining(model, when) < 0.5:
            continue
        other = reference_yield(model, when)
        if other is not None:
            close(bond.yield_to_maturity(when), other, f'yield to maturity on {when}', 0, 2e-7)
            rec.label('other date')
    close(bond.yield_to_maturity(), y, 'the yield depends on earlier questions', 0, 1e-12)
    dearer = build(case, model, price=case['price'] * 1.01)
    ensure(dearer.yield_to_maturity() < y, 'a dearer bond does not yield less', y)
    scaled = build(case, model, principal=case['principal'] * 7)
    close(scaled.yield_to_maturity(), y, 'the yield depends on the principal', 0, 2e-7)
    rec.nontrivial(abs(case['price'] - 100) > 1)
    rec.label('discount' if case['price'] < 100 else 'premium', case['cls'])


def sensitivities(model, y, when):
    n = PER_YEAR[model.spec['frequency']]
    flows = model.flows(when)
    first = sum(-t * a * (1 + y / n) ** (-n * t - 1) for t, a in flows)
    second = sum(t * (t + 1 / n) * a * (1 + y / n) ** (-n * t - 2) for t, a in flows)
    macaulay = sum(t * a * (1 + y / n) ** (-n * t) for t, a in flows)
    return first, second, macaulay


def check_sensitivities(case, rec):
    case = priced(case)
    model = Model(case)
    y = reference_yield(model, model.purchase)
    if y is None:
        raise Reject('yield outside (-6%, 30%)')
    bond = build(case, model)
    full = model.full_price(model.purchase) * case['principal'] / 100.0
    first, second, macaulay = sensitivities(model, y, model.purchase)
    close(bond.pv_deriv(ytm=y), first, 'derivative of the value in the yield', 2e-5, 1e-6 * full)
    offset = case['offset']
    shifted, _, _ = sensitivities(model, y + offset, model.purchase)
    close(bond.pv_deriv(offset=offset, ytm=y), shifted, f'derivative at the yield shifted by {offset}', 2e-5, 1e-6 * full)
    close(bond.pv_deriv(), first, 'derivative at the bond\'s own yield', 2e-5, 1e-5 * full)
    duration = number(bond.duration(), 'duration')
    close(duration, -first / full, 'duration is -(dP/dy)/P', 5e-5, 1e-5)
    convexity = number(bond.convexity(), 'convexity')
    close(convexity, second / full, 'convexity is (d2P/dy2)/P', 2e-3, 2e-3)
    ensure(duration > 0 and convexity > 0, 'duration or convexity is not positive', duration, convexity)
    n = PER_YEAR[case['frequency']]
    close(duration * (1 + y / n), macaulay / full, 'duration is the Macaulay duration over 1 + y/n', 5e-5, 1e-5)
    if case['cls'] == 'corporate':
        got = bond.macaulay_duration(y)
        close(got, macaulay / full, 'Macaulay duration', 1e-8, 1e-8)
        ensure(0 < got <= remaining(model, model.purchase) + 0.2, 'Macaulay duration beyond the maturity', got)
        for at in case['others']:
            when = model.date_at(at)
            if remaining(model, when) < 0.5:
                continue
            other = reference_yield(model, when)
            if other is None:
                continue
            _, _, weighted = sensitivities(model, other, when)
            close(bond.macaulay_duration(other, when), weighted / (model.full_price(when) * case['principal'] / 100),
                  f'Macaulay duration on {when}', 1e-8, 1e-8)
            rec.label('macaulay other date')
    scaled = build(case, model, principal=case['principal'] * 5)
    close(scaled.duration(), duration, 'duration depends on the principal', 5e-5, 1e-5)
    close(scaled.convexity(), convexity, 'convexity depends on the principal', 3e-3, 3e-3)
    rec.nontrivial(case['coupon'] > 0)
    rec.label(case['cls'], case['frequency'])


def check_zero_coupon(case, rec):
    """Zero-coupon bonds also have a yield at which their payment is worth their price."""
    spec = {**case, 'frequency': 'ZERO_COUPON', 'coupon': 0.0}
    spec = priced(spec)
    model = Model(spec)
    bond = build(spec, model)
    rec.nontrivial()
    y = number(bond.yield_to_maturity(), 'yield of a zero-coupon bond')
    close(bond.discount_cashflows_by_fixed_rate(y), case['price'] * case['principal'] / 100.0, 'zero-coupon bond at its yield',
          1e-6, 1e-6)


def extra(spec):
    return st.tuples(st.lists(AT, max_size=2), floats(-0.02, 0.2, 4), floats(-0.01, 0.02, 4), floats(-0.03, 0.22, 4)).map(
        lambda t: {**spec, 'others': t[0], 'rate': t[1], 'offset': t[2], 'target': t[3]})


def late(spec):
    return st.lists(LATE_AT, max_size=1).map(lambda t: {**spec, 'late': t})


LONG = st.one_of(st.integers(2, 30).map(lambda n: f'{n}Y'), st.integers(12, 60).map(lambda n: f'{n}M'))
PROPERTY = Property('C10', [
    Facet('discount', lambda: bond_specs(tenor=tenors(20)).flatmap(extra).flatmap(late), check_discount,
          'three payments or more, non-zero rate', 250, 4000, 2, 8),
    Facet('yield', lambda: bond_specs(tenor=LONG).flatmap(extra), check_yield, 'the bond does not trade at par',
          150, 3000, 4, 8),
    Facet('sensitivities', lambda: bond_specs(tenor=LONG).flatmap(extra), check_sensitivities,
          'a coupon-paying bond', 120, 2400, 4, 8),
    Facet('zero_coupon', lambda: bond_specs(('ZERO_COUPON',), tenor=st.integers(2, 10).map(lambda n: f'{n}Y'), max_price=100), check_zero_coupon,
          'every case', 20, 200),
    siblings(lambda: bond_specs(tenor=st.integers(2, 6).map(lambda n: f'{n}Y')).flatmap(extra), check_yield, 'bonds', 24, 600),
], assumptions=['at least half a year to maturity and a yield between -6% and 30% (closer to maturity yields are '
                'unbounded)', 'duration and convexity are finite differences in the code: compared to 5e-5 and 2e-3'])
