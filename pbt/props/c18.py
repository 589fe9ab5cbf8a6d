"""C18: values and par rates of interest rate swaps."""
from datetime import timedelta

from hypothesis import strategies as st

from .. import refs
from ..core import Facet, Property, close, ensure, expect_error, number, siblings
from ..curvetools import LinearReference, discount_pairs
from ..gens import floats
from ..swaps import SwapModel, build_swap, swap_specs

from fixedIncome.src.assets.base_cashflow import CashflowKeys
from fixedIncome.src.curves.base_curve import DiscountCurve
from fixedIncome.src.curves.curve_enumerations import CurveIndex, EndBehavior, InterpolationMethod
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention


def curves(model, spec, as_of=None):
    """A discount curve as of a date, covering the swap's last payment, and its reference."""
    as_of = as_of or model.purchase
    last = model.paid(model.adjust(model.end)) + timedelta(days=5)
    pairs = discount_pairs(as_of, max(last, as_of), lambda t: spec['level'] + spec['slope'] * t, spec['step'])
    curve = DiscountCurve(interpolation_values=pairs, interpolation_method=InterpolationMethod.LINEAR, index=CurveIndex.SOFR,
                          interpolation_day_count_convention=DayCountConvention.ACTUAL_OVER_365, reference_date=as_of,
                          left_end_behavior=EndBehavior.CONSTANT)
    return curve, LinearReference(pairs, as_of, 'ACTUAL_OVER_365')


def pv(flows, reference, as_of):
    return sum(a * reference(d) for d, a in flows if d >= as_of)


def check_value(case, rec):
    model = SwapModel(case)
    swap, scale = build_swap(case), case['notional']
    life = (model.end - model.purchase).days
    if isinstance(case['age'], list):       # around a payment
        leg, which, shift = case['age']
        payments = [d for d, _ in (model.fixed() if leg == 'fixed' else model.floating())]
        as_of = min(max(model.purchase, payments[int(which * len(payments))] + timedelta(days=shift)), model.fixed()[-1][0])
        rec.label('around a payment')
    else:
        as_of = model.purchase + timedelta(days=int(case['age'] * life))
    curve, reference = curves(model, case['discount'], as_of)
    expect_error(lambda: swap.present_value(curve), ValueError, 'the value of a swap without legs')
    swap.generate_fixed_leg_cashflow()
    expect_error(lambda: swap.present_value(curve), ValueError, 'the value of a swap without floating leg')
    swap.generate_floating_leg_cashflow(model.rate)
    sign = 1 if case['payer'] else -1
    fixed, floating = pv(model.fixed(), reference, as_of), pv(model.floating(), reference, as_of)
    value = number(swap.present_value(curve), 'present value')
    close(value, sign * (floating - fixed), 'present value', 1e-9, 1e-8 * scale)
    close(curve.present_value(swap), value, 'the curve values the swap differently', 1e-11, 1e-11 * scale)
    # the par rate makes the swap worthless, whatever its own rate, direction and notional
    stored = (swap.fixed_leg, swap.floating_leg)
    par = number(swap.implied_rate(curve, model.rate), 'implied rate')
    ensure((swap.fixed_leg, swap.floating_leg) == stored, 'the implied rate replaced a leg')
    annuity = pv(model.fixed(1.0), reference, as_of)
    if annuity > 1e-6 * scale:
        other = lambda when: 0.01 + 2 * model.rate(when)  # noqa: E731
        close(swap.implied_rate(curve, other), pv(model.floating(rate=other), reference, as_of) / annuity,
              'implied rate for other rates than those of the stored leg', 1e-9, 1e-9)
        close(swap.present_value(curve), value, 'present value after an implied rate for other rates', 1e-11, 1e-11 * scale)
        close(par, floating / annuity, 'implied rate', 1e-9, 1e-9)
        for changes in ({'rate': par}, {'rate': par, 'payer': not case['payer']}, {'rate': par, 'notional': 12345}):
            at_par = build_swap(case, **changes)
            at_par.generate_fixed_leg_cashflow()
            at_par.generate_floating_leg_cashflow(model.rate)
            close(at_par.present_value(curve), 0.0, f'value at the par rate ({changes})', 0, 1e-8 * at_par.notional)
            close(at_par.implied_rate(curve, model.rate), par, f'implied rate ({changes})', 1e-9, 1e-9)
    opposite = build_swap(case, payer=not case['payer'])
    opposite.generate_fixed_leg_cashflow()
    ensure(opposite.floating_leg is None, 'a new swap has a floating leg')
    opposite.implied_rate(curve, model.rate, set_cashflow=True)       # stores the floating leg
    close(opposite.present_value(curve), -value, 'value of the opposite swap', 1e-9, 1e-9 * scale)
    doubled = build_swap(case, notional=2 * case['notional'])
    doubled.generate_fixed_leg_cashflow()
    doubled.generate_floating_leg_cashflow(model.rate)
    close(doubled.present_value(curve), 2 * value, 'value of twice the notional', 1e-9, 1e-9 * scale)
    knot = swap.to_knot_value_pair()
    ensure(knot.knot == model.end, 'knot of the swap', knot)
    close(knot.value, case['rate'], 'value at the knot', 1e-12, 1e-14)
    seasoned = as_of > min(d for d, _ in model.fixed())
    rec.nontrivial(len(model.fixed()) >= 2 and abs(value) > 0)
    rec.label('seasoned' if seasoned else 'new', case['kind'])


def check_no_arbitrage(case, rec):
    """Floating legs that project the curve they are discounted on are worth the difference of two discount factors."""
    case = {**case, 'delay': 'T_PLUS_ZERO_BUSINESS', 'fixing': 'T_PLUS_ZERO_BUSINESS', 'float_dcc': 'ACTUAL_OVER_360'}
    model, swap, scale = SwapModel(case), build_swap(case), case['notional']
    curve, reference = curves(model, case['discount'])
    ends = {a: b for a, b, _ in model.schedule('float')}

    def forward(when):
        until = ends[when] if case['kind'] == 'term' else refs.add_business_days(when, 1, model.is_business)
        return (reference(when) / reference(until) - 1) / ((until - when).days / 360)

    last = model.schedule('float')[-1][1]
    expected = scale * (reference(model.start) - reference(last))
    cashflow = swap.generate_floating_leg_cashflow(forward)
    close(curve.present_value(cashflow), expected, 'value of the floating leg', 1e-8, 1e-8 * scale)
    annuity = sum(a * reference(b) for _, b, a in model.schedule('fixed'))
    close(swap.implied_rate(curve, forward), (reference(model.start) - reference(last)) / annuity, 'par rate', 1e-8, 1e-8)
    rec.nontrivial(len(ends) >= 2)
    rec.label(case['kind'])


def with_curve(spec):
    curve = st.fixed_dictionaries({'level': floats(-0.01, 0.1, 4), 'slope': floats(-0.002, 0.004, 4), 'step': st.integers(20, 300)})
    return st.tuples(curve, st.one_of(
        st.just(0.0), floats(0, 0.95, 2), st.tuples(st.sampled_from(['fixed', 'float']), floats(0, 0.999, 3), st.sampled_from([0, 0, 1, -1])).map(list))).map(lambda t: {**spec, 'discount': t[0], 'age': t[1]})


PROPERTY = Property('C18', [
    Facet('value', lambda: swap_specs().flatmap(with_curve), check_value, 'two fixed payments or more and a value', 240, 5000, 8, 8),
    Facet('no_arbitrage', lambda: swap_specs().flatmap(with_curve), check_no_arbitrage, 'two floating periods or more',
          240, 5000, 8, 8),
    siblings(lambda: swap_specs().flatmap(with_curve), check_value, 'swaps or curves', 24, 600, nested=('discount',)),
], assumptions=['remaining payments within the knots of the discount curve'])
