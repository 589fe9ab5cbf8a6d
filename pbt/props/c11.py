"""C11: present value of a bond on a discount curve."""
from datetime import date, timedelta

from hypothesis import strategies as st

from ..bonds import Model, bond_specs, build, tenors
from ..core import Facet, Property, close, ensure, number, siblings
from ..curvetools import LinearReference, discount_pairs, flat_discount_curve
from ..gens import floats
from fixedIncome.src.curves.base_curve import KnotValuePair

from .c08 import FREQUENCIES, LATE_AT


def curve_for(model, when, spec):
    last = model.maturity + timedelta(days=30)
    f = lambda t: spec['rate'] + spec['slope'] * t  # noqa: E731
    curve = flat_discount_curve(when, last, spec['rate'], spec['slope'], step=spec['step'])
    return curve, LinearReference(discount_pairs(when, last, f, spec['step']), when, 'ACTUAL_OVER_365')


def check_moved_curve(case, model, bond):
    """The value follows the curve: the same curve object after its knots were changed is another curve."""
    when = model.purchase
    curve, _ = curve_for(model, when, case['curve'])
    received = model.received(when)
    before = number(bond.present_value(curve), 'present value')
    knots = [KnotValuePair(*p) for p in curve.interpolation_values]
    lower = [KnotValuePair(p.knot, p.value * 0.5) for p in knots]
    curve.reset_interpolation_values(lower)
    close(bond.present_value(curve), before / 2, 'value after the knots of the curve were halved', 1e-9, 1e-9)
    k = len(lower) // 2
    lower[k] = KnotValuePair(lower[k].knot, lower[k].value + 0.1)
    curve.reset_interpolation_value(lower[k], k)
    reference = LinearReference(lower, when, 'ACTUAL_OVER_365')
    expected = sum(amount * reference(paid) for _, paid, amount in received)
    close(bond.present_value(curve), expected, 'value after one knot was changed', 1e-9, 1e-9 * (1 + abs(expected)))
    close(curve.present_value(bond), expected, 'value by the curve after one knot was changed', 1e-9, 1e-9 * (1 + abs(expected)))
    curve.reset_interpolation_values(knots)
    close(bond.present_value(curve), before, 'value after the knots were restored', 1e-12, 1e-12)


def check_value(case, rec):
    model = Model(case)
    bond = build(case, model)
    for at in [case['at']] + case['others']:
        when = model.date_at(at)
        curve, reference = curve_for(model, when, case['curve'])
        received = model.received(when)
        expected = sum(amount * reference(paid) for _, paid, amount in received)
        got = number(bond.present_value(curve), 'present value')
        close(got, expected, f'present value of the bond on {when}', 1e-9, 1e-9 * (1 + abs(expected)))
        close(curve.present_value(bond), got, 'the curve values the bond differently', 1e-11, 1e-11)
        flat, _ = curve_for(model, when, {'rate': 0.0, 'slope': 0.0, 'step': 50})
        close(bond.present_value(flat), sum(a for _, _, a in received), 'present value at zero rates', 1e-9, 1e-9)
        higher, _ = curve_for(model, when, {**case['curve'], 'rate': case['curve']['rate'] + 0.01})
        ensure(bond.present_value(higher) <= got + 1e-9, 'the value grows with the discount rate', when)
        doubled = build(case, model, principal=2 * case['principal'])
        close(doubled.present_value(curve), 2 * got, 'present value is proportional to the principal', 1e-9, 1e-9)
        total = len(model.unadjusted) + 1
        rec.nontrivial(2 <= len(received) < total)
        rec.label('partial' if 0 < len(received) < total else 'all' if received else 'none')
    check_moved_curve(case, model, bond)
    repriced = build(case, model, price=case['price'] + 5)
    curve, _ = curve_for(model, model.purchase, case['curve'])
    close(repriced.present_value(curve), bond.present_value(curve), 'the model value depends on the quoted price', 1e-11, 1e-11)


def extra(spec):
    curve = st.fixed_dictionaries({'rate': floats(-0.01, 0.12, 4), 'slope': floats(-0.001, 0.002, 4),
                                   'step': st.integers(40, 400)})
    return st.tuples(st.lists(LATE_AT, max_size=2), curve).map(lambda t: {**spec, 'others': t[0], 'curve': t[1]})


PROPERTY = Property('C11', [
    Facet('value', lambda: bond_specs(FREQUENCIES, tenor=tenors(15)).flatmap(extra), check_value,
          'some payments have already been made, two or more remain', 250, 5000, 8, 8),
    siblings(lambda: bond_specs(FREQUENCIES, tenor=tenors(6)).flatmap(extra), check_value, 'bonds or curves', 40, 1000, nested=('curve',)),
], assumptions=['all remaining payments fall within the knots of the curve'])
