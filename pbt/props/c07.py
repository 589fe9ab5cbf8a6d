"""C07: cashflow containers and their present values."""
import itertools
from datetime import date, timedelta

import pandas as pd
from hypothesis import strategies as st

from ..core import Facet, Property, close, ensure, expect_error, number, siblings
from ..curvetools import LinearReference, discount_pairs, flat_discount_curve
from ..gens import floats, many
from ..refs import D

from fixedIncome.src.assets.base_cashflow import (Cashflow, CashflowCollection, CashflowKeys, Payment, ZeroCoupon)

BASE = date(2024, 3, 15)


def day(n):
    return BASE + timedelta(days=n)


AMOUNT = st.one_of(floats(-1000, 1000, 2), floats(-1000, 1000, 2), st.none())
PAYMENT = st.tuples(st.integers(-200, 4000), AMOUNT).map(list)
SMALL = st.tuples(st.integers(-3, 6), AMOUNT).map(list)
PAYMENTS = st.one_of(st.lists(PAYMENT, max_size=10), st.lists(SMALL, max_size=10))


def cashflow(payments):
    return Cashflow(iter([Payment(day(n), amount) for n, amount in payments]))


def listing(flow):
    return [(p.payment_date, p.payment) for p in flow]


def sorted_model(payments):
    return sorted([(day(n), amount) for n, amount in payments], key=lambda p: p[0])


def same(flow, model, what):
    ensure(listing(flow) == model, f'{what}: payments', listing(flow)[:6], model[:6])
    ensure(len(flow) == len(model), f'{what}: length', len(flow))
    ensure(list(flow.get_payment_dates()) == [d for d, _ in model], f'{what}: payment dates')
    ensure(list(flow.get_payment_amounts()) == [a for _, a in model], f'{what}: payment amounts')


def check_container(case, rec):
    source = [Payment(day(n), amount) for n, amount in case['payments']]
    initial = [(p.payment_date, p.payment) for p in source]
    flow, model = Cashflow(source if case.get('as_list') else iter(source)), sorted_model(case['payments'])
    same(flow, model, 'construction')
    again = Cashflow.create_from_date_and_float_iterables(iter([day(n) for n, _ in case['payments']]),
                                                          iter([a for _, a in case['payments']]))
    same(again, model, 'create_from_date_and_float_iterables')
    expect_error(lambda: Cashflow.create_from_date_and_float_iterables([day(1), day(2)], [1.0]), ValueError,
                 'different numbers of dates and amounts')
    for op in case['ops']:
        if op[0] == 'add':
            flow.add_payment(Payment(day(op[1]), op[2]))
            position = sum(1 for d, _ in model if d <= day(op[1]))
            model.insert(position, (day(op[1]), op[2]))
        elif op[0] == 'slice':
            section = slice(op[1], op[2], op[3] if len(op) > 3 else None)
            part = flow[section]
            ensure(isinstance(part, Cashflow), 'a slice is not a cashflow')
            same(part, model[section], 'slice')
            # what happens to the slice does not happen to the cashflow it was taken from
            part.add_payment(Payment(day(0), 7.0))
            ensure(len(part) == len(model[section]) + 1, 'a payment added to a slice is not in it')
        elif op[0] == 'source':
            ensure([(p.payment_date, p.payment) for p in source] == initial,
                   'the payments the cashflow was built from changed')
            source.append(Payment(day(op[1]), 5.0))
            initial.append((day(op[1]), 5.0))
        elif op[0] == 'nested':
            seen = [(a.payment_date, b.payment_date) for a in flow for b in itertools.islice(flow, len(model) + 1)]
            ensure(seen == [(a, b) for a, _ in model for b, _ in model], 'a loop over the payments within another one')
        elif op[0] == 'item' and model:
            index = op[1] % (2 * len(model)) - len(model)
            got = flow[index]
            ensure((got.payment_date, got.payment) == model[index], 'indexing', index)
            expect_error(lambda: flow[len(model)], IndexError, 'index past the end')
        same(flow, model, f'after {op[0]}')
    series, frame = flow.to_series(), flow.to_dataframe()
    ensure([d for d in series.index] == [d for d, _ in model] and len(frame) == len(model), 'conversion to pandas')
    for got, (_, amount) in zip(list(series), model):
        ensure(pd.isna(got) if amount is None else got == amount, 'amounts in the series', got, amount)
    if len(model):
        ensure(list(frame['Payment Dates']) == [d for d, _ in model], 'dates in the data frame')
        for got, (_, amount) in zip(list(frame['Payments']), model):
            ensure(pd.isna(got) if amount is None else got == amount, 'amounts in the data frame', got, amount)
    rec.nontrivial(len({d for d, _ in model}) >= 2 and len(case['ops']) >= 1)
    rec.label('ties' if len({d for d, _ in model}) < len(model) else 'distinct')


CURVE = st.fixed_dictionaries({'rate': floats(-0.02, 0.12, 4), 'slope': floats(-0.002, 0.004, 4),
                               'step': st.integers(20, 400)})


def curve_and_reference(spec):
    last = day(4100)
    curve = flat_discount_curve(BASE, last, spec['rate'], spec['slope'], step=spec['step'])
    pairs = discount_pairs(BASE, last, lambda t: spec['rate'] + spec['slope'] * t, spec['step'])
    return curve, LinearReference(pairs, BASE, 'ACTUAL_OVER_365')


def check_pv(case, rec):
    curve, reference = curve_and_reference(case['curve'])
    first, second = case['payments'], case['more']
    flow = cashflow(first)
    expected = sum(reference(day(n)) * a for n, a in first if a is not None and n >= 0)
    scale = 1 + sum(abs(a) for _, a in first + second if a is not None)
    got = number(flow.present_value(curve), 'present value')
    close(got, expected, 'present value of the cashflow', 1e-9, 1e-10 * scale)
    close(curve.present_value(flow), got, 'the discount curve values it differently', 1e-11, 1e-11 * scale)
    # additivity and linearity
    other, joined = cashflow(second), cashflow(first + second)
    close(joined.present_value(curve), got + number(other.present_value(curve), 'pv'), 'present value is additive', 1e-9,
          1e-9 * scale)
    k = case['factor']
    scaled = cashflow([[n, None if a is None else k * a] for n, a in first])
    close(scaled.present_value(curve), k * got, 'present value is linear in the amounts', 1e-9, 1e-9 * scale * (1 + abs(k)))
    for payment in flow:
        if payment.payment_date < BASE:
            single = Cashflow([payment]).present_value(curve)
            close(single, 0.0, 'a payment before the reference date has value', 0, 0)
    zero = ZeroCoupon(payment_date=day(case['zero']), price=case['factor'])
    close(zero.present_value(curve), reference(day(case['zero'])), 'zero coupon present value', 1e-9, 1e-11)
    knot = zero.to_knot_value_pair()
    ensure((knot.knot, knot.value) == (day(case['zero']), case['factor']), 'zero coupon knot', knot)
    past = [n for n, _ in first if n < 0]
    rec.nontrivial(sum(1 for n, a in first if n > 0 and a) >= 2)
    rec.label('with past payments' if past else 'no past payment', 'on reference date' if any(n == 0 for n, _ in first) else '')


class Collection(CashflowCollection):
    def to_knot_value_pair(self):
        return None

    def present_value(self, discount_curve):
        return sum(c.present_value(discount_curve) for c in self.cashflow_list)


KEYS = [k for k in CashflowKeys]


def check_collection(case, rec):
    model = {}
    for key, payments in case['initial']:
        if KEYS[key] not in model:
            model[KEYS[key]] = cashflow(payments)
    collection = Collection(iter(list(model.values())), iter(list(model)))
    curve, _ = curve_and_reference({'rate': 0.03, 'slope': 0.0, 'step': 100})
    replaced = False

    def agrees(when):
        ensure(len(collection) == len(model), f'{when}: size', len(collection), len(model))
        for key in KEYS:
            ensure((key in collection) == (key in model), f'{when}: membership of {key}')
            if key in model:
                ensure(collection[key] is model[key], f'{when}: lookup of {key} gives another cashflow')
            else:
                expect_error(lambda: collection[key], KeyError, f'{when}: lookup of the absent {key}')
        seen = list(iter(collection))
        ensure(len(seen) == len(model), f'{when}: iteration yields {len(seen)} entries')
        flows = [x[1] if isinstance(x, tuple) else x if isinstance(x, Cashflow) else collection[x] for x in seen]
        ensure({id(f) for f in flows} == {id(f) for f in model.values()}, f'{when}: iteration misses a cashflow')
        listed = getattr(collection, 'cashflow_list', None)
        if listed is not None:
            counts = lambda flows: sorted(id(f) for f in flows)  # noqa: E731
            ensure(counts(listed) == counts(model.values()), f'{when}: the listed cashflows are not the stored ones')
            keys = getattr(collection, 'keys', None)
            if isinstance(keys, (list, tuple)):
                ensure(len(keys) == len(model) and all(model.get(k) is f for k, f in zip(keys, listed)),
                       f'{when}: the listed cashflows do not match the listed keys')
        close(collection.present_value(curve), sum(f.present_value(curve) for f in model.values()),
              f'{when}: the listed cashflows are not the ones looked up by key', 1e-9, 1e-9)

    agrees('construction')
    for key, payments in case['ops']:
        # now and then a cashflow which is already stored under some key
        flow = model[KEYS[payments]] if isinstance(payments, int) and KEYS[payments] in model else \
            cashflow([] if isinstance(payments, int) else payments)
        replaced = replaced or KEYS[key] in model
        collection[KEYS[key]] = flow
        model[KEYS[key]] = flow
        agrees(f'after setting {KEYS[key]}')
    rec.nontrivial(replaced)
    rec.label('replaced' if replaced else 'added only')


BOUND = st.one_of(st.integers(-4, 8), st.none())
STEP = st.sampled_from([None, None, 1, 2, 3])
KEYED = st.tuples(st.integers(0, len(KEYS) - 1), PAYMENTS).map(list)
REUSED = st.tuples(st.integers(0, len(KEYS) - 1), st.integers(0, len(KEYS) - 1)).map(list)
LONG = many(30, 400, lambda rng, i: [rng.randint(-200, 4000), None if rng.random() < 0.1 else round(rng.uniform(-1000, 1000), 2)])
PROPERTY = Property('C07', [
    Facet('large', lambda: st.fixed_dictionaries({'payments': LONG, 'more': st.one_of(LONG, PAYMENTS), 'curve': CURVE, 'factor': floats(-3, 3, 2),
                                                  'zero': st.integers(0, 4000), 'as_list': st.booleans(), 'ops': st.lists(st.tuples(
        st.just('add'), st.integers(-5, 4000), AMOUNT).map(list), max_size=5)}), lambda c, r: (check_container(c, r), check_pv(c, r)),
        'many payments', 40, 600, 2, 8),
    Facet('container', lambda: st.fixed_dictionaries({'payments': PAYMENTS, 'as_list': st.booleans(), 'ops': st.lists(st.one_of(
        st.tuples(st.just('add'), st.integers(-5, 300), AMOUNT), st.tuples(st.just('slice'), BOUND, BOUND, STEP),
        st.tuples(st.just('item'), st.integers(0, 50)), st.tuples(st.just('source'), st.integers(-5, 300)),
        st.tuples(st.just('nested'))).map(list), max_size=8)}), check_container,
        'several payment dates and at least one operation', 800, 12000, 2, 8),
    Facet('present_value', lambda: st.fixed_dictionaries(
        {'payments': PAYMENTS, 'more': PAYMENTS, 'curve': CURVE, 'factor': floats(-3, 3, 2), 'zero': st.integers(0, 4000)}),
        check_pv, 'at least two future payments', 500, 8000, 2, 8),
    Facet('collection', lambda: st.fixed_dictionaries(
        {'initial': st.lists(KEYED, max_size=4), 'ops': st.lists(st.one_of(KEYED, KEYED, REUSED), max_size=5)}), check_collection,
        'a key is replaced', 300, 5000, 1, 8),
    siblings(lambda: st.fixed_dictionaries(
        {'payments': PAYMENTS, 'more': PAYMENTS, 'curve': CURVE, 'factor': floats(-3, 3, 2), 'zero': st.integers(0, 4000)}),
        check_pv, 'cashflows or curves', 80, 1500, nested=('curve',)),
], assumptions=['payments fall within the knots of the discount curve'])
