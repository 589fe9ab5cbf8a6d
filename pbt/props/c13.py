"""C13: yield curves, the discount curves they imply, and present values on them -- in every history of calls."""
from datetime import timedelta

from hypothesis import strategies as st

from ..core import Facet, Property, close, ensure, number, siblings
from ..gens import floats
from ..yieldtools import (PAYMENTS, YieldModel, build_yield_curve, cashflow_of, curve_specs, key_rate, large_curve_specs, payments_of, tent)

from fixedIncome.src.curves.base_curve import KnotValuePair
from fixedIncome.src.curves.curve_enumerations import InterpolationSpace
from fixedIncome.src.risk.key_rate import KeyRateCollection

ADJUSTMENT = st.one_of(
    st.just(['none']), st.tuples(st.just('parallel'), floats(-0.02, 0.02, 4)).map(list),
    st.tuples(st.just('key_rate'), st.integers(0, 5), floats(-0.02, 0.02, 4)).map(list),
    st.tuples(st.just('collection'), floats(-0.02, 0.02, 4)).map(list),
    st.tuples(st.just('kept_collection'), floats(-0.02, 0.02, 4)).map(list),
    st.tuples(st.just('kept_rate'), floats(-0.02, 0.02, 4)).map(list))
OPS = st.lists(st.one_of(
    st.tuples(st.just('pv'), ADJUSTMENT, PAYMENTS), st.tuples(st.just('discount'), ADJUSTMENT, PAYMENTS),
    st.tuples(st.just('deriv'), st.integers(0, 5), PAYMENTS),
    st.tuples(st.just('reset_all'), floats(-0.02, 0.02, 4), st.sampled_from([0, 0, 17, 230])), st.tuples(st.just('reset_one'), st.integers(0, 5), floats(-0.02, 0.1, 4)),
).map(list), min_size=1, max_size=6)


def neighbours(model, i):
    n = len(model.dates)
    return (model.dates[i - 1] if i else None), model.dates[i], (model.dates[i + 1] if i + 1 < n else None)


def adjustment_of(model, spec, kept):
    """The real adjustment object handed to the curve, and its reference."""
    if spec[0] == 'none':
        return None, lambda d: 0.0
    if spec[0] == 'parallel':
        return (lambda d, v=spec[1]: v), (lambda d, v=spec[1]: v)
    if spec[0] == 'key_rate':
        previous, middle, following = neighbours(model, spec[1] % len(model.dates))
        return (key_rate(middle, model.dcc, previous, following, spec[2]),
                tent(previous, middle, following, spec[2], model.dcc))
    if spec[0] == 'kept_rate':             # one object, whose bump is changed from question to question
        if 'rate' not in kept:
            kept['rate'] = key_rate(model.dates[0], model.dcc, None, model.dates[-1]), model.dates[0], model.dates[-1]
        rate, middle, following = kept['rate']
        rate.set_bump_val(spec[1])
        return rate, tent(None, middle, following, spec[1], model.dcc)
    if spec[0] == 'kept_collection' and 'collection' in kept:
        collection = kept['collection']
    else:
        collection = KeyRateCollection([key_rate(d, model.dcc) for d in model.dates])
    if spec[0] == 'kept_collection':
        kept['collection'] = collection
    collection.set_bump_val(spec[1])
    return collection, lambda d, v=spec[1]: v      # tents add up to a parallel shift


def probe(model):
    span = (model.dates[-1] - model.reference).days
    return [model.reference + timedelta(days=int(span * f)) for f in (0, 0.001, 0.1, 0.35, 0.5, 0.77, 0.999, 1)]


def check_history(case, rec):
    model = YieldModel(case['curve'])
    curve = build_yield_curve(case['curve'], case['order'])
    held, kept = [], {}
    changed = 0
    for op in case['ops']:
        if op[0] == 'pv':
            actual, reference = adjustment_of(model, op[1], kept)
            payments = payments_of(model, op[2])
            got = curve.present_value(cashflow_of(payments)) if actual is None else \
                curve.present_value(cashflow_of(payments), actual)
            close(got, model.present_value(payments, reference), f'present value ({op[1][0]} adjustment)', 1e-10, 1e-9)
        elif op[0] == 'discount':
            actual, reference = adjustment_of(model, op[1], kept)
            discount = curve.to_discount_curve(actual)
            held.append((discount, [(d, model.discount(d, reference)) for d in probe(model)]))
            payments = payments_of(model, op[2])
            close(discount.present_value(cashflow_of(payments)), model.present_value(payments, reference),
                  'present value on the discount curve', 1e-10, 1e-9)
        elif op[0] == 'deriv':
            previous, middle, following = neighbours(model, op[1] % len(model.dates))
            payments = payments_of(model, op[2])
            curve.calculate_key_rate_deriv(cashflow_of(payments), key_rate(middle, model.dcc, previous, following))
        elif op[0] == 'reset_all':
            model.values = [round(v + op[1], 6) for v in model.values]
            model.dates = [d + timedelta(days=(k + 1) * op[2]) for k, d in enumerate(model.dates)]
            curve.reset_interpolation_values([KnotValuePair(d, v) for d, v in reversed(list(zip(model.dates, model.values)))])
            changed += 1
        else:
            i = op[1] % len(model.dates)
            model.values[i] = op[2]
            curve.reset_interpolation_value(KnotValuePair(model.dates[i], op[2]), i)
            changed += 1
        # nothing asked of the curve moves it, nor the discount curves handed out before
        for when in probe(model):
            close(curve(when), model(when), f'yield on {when} after {op[0]}', 1e-10, 1e-12)
        for discount, values in held:
            for when, value in values:
                close(discount(when), value, f'discount factor for {when} of a curve obtained before {op[0]}', 1e-10, 1e-12)
    rec.nontrivial(len({op[0] for op in case['ops']}) >= 2 and (changed > 0 or len(held) > 0))
    rec.label(*(op[0] for op in case['ops']))


def check_discount_space(case, rec):
    """Curves quoted as discount factors: the discount curve interpolates the (adjusted) quotes themselves."""
    spec = {**case['curve'], 'knots': [[k, round(1 - 0.02 * i + v / 10, 6)] for i, (k, v) in enumerate(case['curve']['knots'])]}
    model = YieldModel(spec)
    curve = build_yield_curve(spec, case['order'], InterpolationSpace.DISCOUNT_FACTOR)
    held, kept = [], {}
    for adjustment in case['adjustments']:
        actual, reference = adjustment_of(model, adjustment, kept)
        discount = curve.to_discount_curve(actual)
        bumped = YieldModel({**spec, 'knots': [[k, v + reference(d)] for (k, v), d in zip(spec['knots'], model.dates)]})
        held.append((discount, bumped))
        span = (model.dates[-1] - model.dates[0]).days
        queries = [model.dates[0] + timedelta(days=int(span * f)) for f in (0, 0.2, 0.5, 0.9, 1)]
        for earlier, values in held:
            for when in queries + model.dates:
                close(earlier(when), values(when), f'discount factor for {when}', 1e-10, 1e-12)
        payments = [(model.dates[0] + timedelta(days=int(span * f)), a) for f, a in case['payments'] if f >= 0]
        close(curve.present_value(cashflow_of(payments), actual), sum(a * bumped(d) for d, a in payments),
              'present value', 1e-10, 1e-9)
        ensure(discount.reference_date == model.reference, 'reference date of the discount curve', discount.reference_date)
    rec.nontrivial(len(case['adjustments']) >= 2)


ORDER = st.permutations(list(range(6)))
PROPERTY = Property('C13', [
    Facet('large', lambda: st.fixed_dictionaries({'curve': large_curve_specs(), 'order': ORDER, 'ops': OPS}), check_history,
          'different operations, among them a reset or a discount curve that is kept', 24, 600, 4, 8),
    Facet('history', lambda: st.fixed_dictionaries({'curve': curve_specs(), 'order': ORDER, 'ops': OPS}), check_history,
          'different operations, among them a reset or a discount curve that is kept', 320, 8000, 8, 8),
    Facet('discount_space', lambda: st.fixed_dictionaries(
        {'curve': curve_specs(), 'order': ORDER, 'adjustments': st.lists(ADJUSTMENT, min_size=1, max_size=3),
         'payments': PAYMENTS}), check_discount_space, 'two adjustments or more', 250, 5000, 8, 8),
    siblings(lambda: st.fixed_dictionaries({'curve': curve_specs(), 'order': ORDER, 'ops': OPS}), check_history, 'curves or questions', 40, 1000,
             nested=('curve',)),
], assumptions=['linear, previous-value or spline interpolation of the yields, actual-day axes', 'payments at most at the last knot'])
