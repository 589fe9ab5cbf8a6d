"""C16: key rate sensitivities and risk ladders."""
from datetime import timedelta

from hypothesis import strategies as st

from ..core import Facet, Property, close, ensure, expect_error, number, siblings
from ..gens import floats, many
from ..yieldtools import (PAYMENTS, YieldModel, build_yield_curve, cashflow_of, curve_specs, key_rate, large_curve_specs, payments_of, tents)
from .c15 import day

from fixedIncome.src.curves.curve_enumerations import CurveIndex, InterpolationSpace
from fixedIncome.src.risk.key_rate import KeyRateCollection
from fixedIncome.src.risk.risk_metrics import Risk, RiskLadder

BP = 0.0001


def check_ladder(case, rec):
    model = YieldModel(case['curve'])
    curve = build_yield_curve(case['curve'])
    payments = payments_of(model, case['payments'])
    assets = cashflow_of(payments)
    span = (model.dates[-1] - model.reference).days
    days = sorted({max(1, int(f * span)) for f in case['rates']})
    when = [model.reference + timedelta(days=d) for d in days]
    bumps = [case['bumps'][i % len(case['bumps'])] for i in range(len(days))]
    rates = [key_rate(d, model.dcc, bump=b) for d, b in zip(when, bumps)]
    collection = KeyRateCollection(list(reversed(rates)))
    base = model.present_value(payments)
    scale = sum(abs(a) for _, a in payments)
    halves = tents(when, [BP / 2] * len(days), model.dcc)
    expected = [(model.present_value(payments, f) - model.present_value(payments, lambda d: -f(d))) / BP for f in halves]

    def intact(moment):
        for kr, f in zip(collection, tents(when, bumps, model.dcc)):
            for d in when:
                close(kr(d), f(d), f'key rate {kr.key_rate_date} on {d} {moment}', 1e-9, 1e-15)
        for kr, bump in zip(collection, bumps):
            close(kr.bump_val, bump, f'bump of the key rate {kr.key_rate_date} {moment}', 1e-12, 1e-15)
        close(curve.present_value(assets), base, f'present value {moment}', 1e-10, 1e-9)

    intact('at first')
    derivs = []
    for i in case['single']:
        i %= len(days)
        derivs.append((i, curve.calculate_key_rate_deriv(assets, collection[i])))
        risk = curve.calculate_pv01_risk(assets, collection[i])
        close(risk.pv01, expected[i] * BP, f'PV01 of key rate {i}', 1e-6, 1e-9 * scale)
        ensure(risk.key_rate_date == when[i] and risk.index == CurveIndex.US_TREASURY, 'key rate of a risk', risk)
        intact(f'after the sensitivity to key rate {i}')
    for i, deriv in derivs:
        close(deriv, expected[i], f'sensitivity to key rate {i}', 1e-6, 1e-6 * scale)
    ladder = curve.calculate_pv01_risk_ladder(assets, collection)
    intact('after the ladder')
    ensure(len(ladder) == len(days) and ladder.get_key_rate_dates() == when, 'key rates of the ladder', ladder.get_key_rate_dates())
    ensure(ladder.get_indices() == [CurveIndex.US_TREASURY] * len(days), 'indices of the ladder', ladder.get_indices())
    for got, want in zip(ladder.get_pv01s(), expected):
        close(got, want * BP, 'PV01 in the ladder', 1e-6, 1e-9 * scale)
    # the rungs add up to the parallel PV01, which falls on the payments alone
    parallel = -sum(a * model.discount(d) * model.axis(d) for d, a in payments if d >= model.reference) * BP
    close(sum(ladder.get_pv01s()), parallel, 'sum of the ladder against the parallel PV01', 1e-6, 1e-9 * scale)
    if all(a >= 0 for _, a in payments):
        ensure(all(v <= 1e-12 * scale for v in ladder.get_pv01s()), 'a long position gains from a rise of yields', ladder.get_pv01s())
    # what cannot be valued leaves everything as it was
    beyond = cashflow_of([(model.dates[-1] + timedelta(days=400), 1.0)])
    expect_error(lambda: curve.calculate_pv01_risk_ladder(beyond, collection), ValueError, 'a payment beyond the curve')
    intact('after an error')
    # linear in the position
    doubled = curve.calculate_pv01_risk_ladder(cashflow_of(payments + payments), collection)
    for got, want in zip(doubled.get_pv01s(), ladder.get_pv01s()):
        close(got, 2 * want, 'PV01 of twice the position', 1e-6, 1e-9 * scale)
    rec.nontrivial(len(days) >= 3 and sum(1 for e in expected if abs(e) > 1e-9) >= 2)
    rec.label(f'{len(days)} key rates')


def check_discount_space(case, rec):
    """Curves quoted as discount factors: the key rates move the quotes, and the present value is linear in them."""
    spec = {**case['curve'], 'knots': [[k, round(1 - 0.02 * i + v / 10, 6)] for i, (k, v) in enumerate(case['curve']['knots'])]}
    model = YieldModel(spec)
    curve = build_yield_curve(spec, space=InterpolationSpace.DISCOUNT_FACTOR)
    span = (model.dates[-1] - model.dates[0]).days
    payments = [(model.dates[0] + timedelta(days=int(span * abs(f))), a) for f, a in case['payments']]
    assets = cashflow_of(payments)
    days = sorted({max(1, int(f * (model.dates[-1] - model.reference).days)) for f in case['rates']})
    when = [model.reference + timedelta(days=d) for d in days]
    collection = KeyRateCollection([key_rate(d, model.dcc, bump=case['bump']) for d in when])
    scale = sum(abs(a) for _, a in payments)
    expected = []
    for tent in tents(when, [1.0] * len(days), model.dcc):
        moved = YieldModel({**spec, 'knots': [[k, tent(d)] for (k, _), d in zip(spec['knots'], model.dates)]})
        expected.append(sum(a * moved(d) for d, a in payments))
    base = sum(a * model(d) for d, a in payments)
    for _ in range(2):
        ladder = curve.calculate_pv01_risk_ladder(assets, collection)
        ensure(ladder.get_key_rate_dates() == when, 'key rates of the ladder', ladder.get_key_rate_dates())
        for i, (got, want) in enumerate(zip(ladder.get_pv01s(), expected)):
            close(got, want * BP, 'PV01 in the ladder', 1e-6, 1e-9 * scale)
            close(curve.calculate_key_rate_deriv(assets, collection[i]), want, f'sensitivity to key rate {i}', 1e-6, 1e-7 * scale)
        close(sum(ladder.get_pv01s()), sum(a for _, a in payments) * BP, 'sum of the ladder against a parallel shift', 1e-6, 1e-9 * scale)
        close(curve.present_value(assets), base, 'present value afterwards', 1e-10, 1e-9)
        for kr in collection:
            close(kr.bump_val, case['bump'], 'bump of the key rate afterwards', 1e-12, 1e-15)
    rec.nontrivial(len(days) >= 2 and sum(1 for e in expected if abs(e) > 1e-9) >= 2)


def check_container(case, rec):
    indices = list(CurveIndex)
    risks = [Risk(day(d), pv, indices[k % len(indices)]) for d, pv, k in case['risks']]
    ladder = RiskLadder(iter(risks))
    ensure(len(ladder) == len(risks) and list(ladder) == risks and ladder.risks == risks, 'risks of the ladder', ladder.risks)
    for _ in range(2):
        got = []
        while True:
            try:
                got.append(next(ladder))
            except StopIteration:
                break
            ensure(len(got) <= len(risks), 'next() does not stop')
        ensure(got == risks, 'risks by next()', got)
    for stop in range(len(risks)):     # loops that are broken off, and nested ones
        for i, _ in enumerate(ladder):
            if i == stop:
                break
        ensure(ladder.get_pv01s() == [r.pv01 for r in risks], 'PV01s after a loop which was broken off', ladder.get_pv01s())
    count = 0
    for _ in ladder:
        for _ in ladder:
            count += 1
            ensure(count <= len(risks) ** 2, 'nested loops do not end')
    ensure(count == len(risks) ** 2, 'nested loops', count)
    ensure(ladder.get_pv01s() == [r.pv01 for r in risks], 'PV01s', ladder.get_pv01s())
    ensure(ladder.get_key_rate_dates() == [r.key_rate_date for r in risks], 'key rate dates', ladder.get_key_rate_dates())
    ensure(ladder.get_indices() == [r.index for r in risks], 'indices', ladder.get_indices())
    d, pv, k = case['other']
    for risk in risks + [Risk(day(d), pv, indices[k % len(indices)])]:
        ensure((risk in ladder) == (risk in risks), 'membership', risk, risks)
    text = str(ladder)
    for r in risks:
        ensure(f'{r.key_rate_date}|{r.pv01:0.2f}|' in text, 'risk in the printed ladder', r, text)
    rec.nontrivial(len(risks) >= 2)


RISK = st.tuples(st.integers(0, 3000), floats(-500, 500, 2), st.integers(0, 3)).map(list)
PROPERTY = Property('C16', [
    Facet('large', lambda: st.fixed_dictionaries(
        {'curve': large_curve_specs(), 'payments': many(5, 60, lambda rng, i: [round(rng.uniform(0.01, 1), 3), round(rng.uniform(-150, 150), 2)]),
         'rates': many(6, 30, lambda rng, i: round(rng.uniform(0, 1), 3)),
         'bumps': st.lists(st.sampled_from([0.0001, 0.01, -0.002]), min_size=1, max_size=3), 'single': st.lists(st.integers(0, 40), max_size=2)}),
        check_ladder, 'three key rates or more, two with an exposure', 8, 240, 8, 8),
    Facet('ladder', lambda: st.fixed_dictionaries(
        {'curve': curve_specs(max_knots=5, max_gap=150), 'payments': PAYMENTS,
         'rates': st.lists(floats(0, 1, 3), min_size=1, max_size=5),
         'bumps': st.lists(st.sampled_from([0.0001, 0.0001, 0.01, -0.002, 0.5]), min_size=1, max_size=3),
         'single': st.lists(st.integers(0, 4), max_size=2)}), check_ladder,
        'three key rates or more, two with an exposure', 240, 6000, 8, 8),
    Facet('discount_space', lambda: st.fixed_dictionaries(
        {'curve': curve_specs(max_knots=5, max_gap=150), 'payments': PAYMENTS,
         'rates': st.lists(floats(0, 1, 3), min_size=1, max_size=4), 'bump': st.sampled_from([0.0001, 0.01, -0.02])}),
        check_discount_space, 'two key rates with an exposure', 120, 3000, 8, 8),
    Facet('container', lambda: st.fixed_dictionaries({'risks': st.lists(RISK, max_size=6), 'other': RISK}), check_container,
          'two risks or more', 400, 4000),
    siblings(lambda: st.fixed_dictionaries(
        {'curve': curve_specs(max_knots=4, max_gap=150), 'payments': PAYMENTS, 'rates': st.lists(floats(0, 1, 3), min_size=1, max_size=3),
         'bumps': st.lists(st.sampled_from([0.0001, 0.01, -0.002]), min_size=1, max_size=1), 'single': st.lists(st.integers(0, 4), max_size=1)}), check_ladder,
        'ladders', 30, 800, nested=('curve',)),
], assumptions=['payments at most at the last knot of the yield curve'])
