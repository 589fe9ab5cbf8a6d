"""C06: curve interpolation."""
from datetime import date, datetime, time, timedelta

import numpy as np
from hypothesis import strategies as st

from .. import refs
from ..core import Facet, Property, Reject, close, ensure, expect_error, number, siblings
from ..curvetools import (MIN_KNOTS, _accumulate, axis, knot_dates, knots_strategy, pairs_of, reference_linear, reference_previous)
from ..gens import dates, floats, many
from ..refs import D

from fixedIncome.src.curves.base_curve import Curve, DiscountCurve, KnotValuePair
from fixedIncome.src.curves.curve_enumerations import CurveIndex, EndBehavior, InterpolationMethod
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention

CURVE_DATES = dates(date(1990, 1, 1), date(2060, 12, 31))


def spec_strategy(methods=('LINEAR', 'PREVIOUS', 'QUADRATIC_SPLINE', 'CUBIC_SPLINE')):
    return st.sampled_from(methods).flatmap(lambda method: st.fixed_dictionaries({
        'method': st.just(method), 'first': CURVE_DATES,
        'knots': knots_strategy(MIN_KNOTS[method], 8), 'lead': st.one_of(st.none(), st.integers(0, 1500)),
        'dcc': st.sampled_from(refs.CONVENTIONS), 'left': st.sampled_from(['ERROR', 'CONSTANT']),
        'right': st.sampled_from(['ERROR', 'CONSTANT']), 'shuffle': st.integers(0, 10 ** 6),
        'timestamps': st.booleans(), 'discount': st.booleans(),
        'queries': st.lists(st.tuples(st.integers(-400, 6000), floats(0, 1, 3)).map(list), min_size=1, max_size=6)}))


def lift(spec, day):
    return datetime.combine(day, time(0)) if spec['timestamps'] else day


def shuffled(items, key):
    return [items[i] for i in np.argsort([((i + 1) * 7919 * (key + 1)) % 104729 for i in range(len(items))], kind='stable')]


def build(spec, values=None):
    pairs = [KnotValuePair(lift(spec, p.knot), p.value) for p in pairs_of(spec['first'], spec['knots'])]
    if values is not None:
        pairs = [KnotValuePair(p.knot, v) for p, v in zip(pairs, values)]
    reference = None if spec['lead'] is None else lift(spec, D(spec['first']) - timedelta(days=spec['lead']))
    given = shuffled(pairs, spec['shuffle'])
    snapshot = list(given)
    kw = dict(interpolation_method=InterpolationMethod[spec['method']],
              interpolation_day_count_convention=DayCountConvention[spec['dcc']], reference_date=reference,
              left_end_behavior=EndBehavior[spec['left']], right_end_behavior=EndBehavior[spec['right']])
    if spec['discount']:
        index = list(CurveIndex)[spec['shuffle'] % len(CurveIndex)]
        curve = DiscountCurve(interpolation_values=given, index=index, **kw)
    elif spec['shuffle'] % 3:
        index = list(CurveIndex)[spec['shuffle'] % len(CurveIndex)]
        curve = Curve(interpolation_values=iter(given), index=index, **kw)
    else:
        index, curve = CurveIndex.NONE, Curve(interpolation_values=iter(given), **kw)
    ensure(curve.index == index, 'index of the curve', curve.index, index)
    ensure(given == snapshot, 'the knots passed in were changed')
    anchor = reference if reference is not None else pairs[0].knot
    ensure(curve.reference_date == anchor, 'reference date', curve.reference_date, anchor)
    return curve, pairs, anchor


def strictly_increasing_axis(spec):
    base = D(spec['first'])
    reference = base - timedelta(days=spec['lead'] or 0)
    xs = [axis(reference, d, spec['dcc']) for d in knot_dates(spec['first'], spec['knots'])]
    return all(b > a for a, b in zip(xs, xs[1:]))


def queries(spec):
    out = []
    span = spec['knots'][-1][0]
    for shift, fraction in spec['queries']:
        days = shift if shift < 0 or shift > span else int(round(fraction * span))
        seconds = int(fraction * 86399) if spec['timestamps'] else 0
        out.append(lift(spec, D(spec['first']) + timedelta(days=days)) + timedelta(seconds=seconds))
        if spec['timestamps'] and spec['dcc'] == 'THIRTY_OVER_THREESIXTY':
            out[-1] = datetime.combine(out[-1].date(), time(0))
    return out


def domain(spec):
    if not strictly_increasing_axis(spec):
        raise Reject('30/360 puts two knots on the same point of the axis')


def check_inside(case, rec):
    domain(case)
    curve, pairs, anchor = build(case)
    ds, vs = [p.knot for p in pairs], [p.value for p in pairs]
    ensure([tuple(p) for p in curve.interpolation_values] == [tuple(p) for p in pairs], 'stored knots are not sorted')
    scale = 1 + max(abs(v) for v in vs)
    smooth = case['method'] in ('LINEAR', 'PREVIOUS')
    for d, v in zip(ds, vs):
        close(curve(d), v, f'{case["method"]} at knot {d}', 1e-9, (1e-10 if smooth else 1e-6) * scale)
        close(curve.date_to_interpolation_axis(d), axis(anchor, d, case['dcc']), f'axis position of {d}', 1e-10, 1e-10)
    for when in queries(case):
        if not ds[0] <= when <= ds[-1]:
            continue
        got = number(curve(when), f'{case["method"]} at {when}')
        close(curve.interpolate(when), got, 'interpolate() against a call', 1e-12, 1e-12)
        if case['method'] == 'LINEAR':
            close(got, reference_linear(ds, vs, anchor, case['dcc'], when), f'linear interpolation at {when}', 1e-9, 1e-9 * scale)
        elif case['method'] == 'PREVIOUS':
            close(got, reference_previous(ds, vs, when), f'previous-value interpolation at {when}', 1e-12, 1e-12)
        rec.nontrivial(when not in ds)
    rec.label(case['method'], 'reference=first' if case['lead'] is None else 'reference earlier')


def check_ends(case, rec):
    domain(case)
    curve, pairs, anchor = build(case)
    first, last = pairs[0], pairs[-1]
    calls = []

    def bump(day):
        calls.append(day)
        return 0.001 * (refs.clock(day) % 97) + 0.5

    for when in queries(case):
        side = 'left' if when < first.knot else 'right' if when > last.knot else 'inside'
        if side != 'inside' and case[side] == 'ERROR':
            expect_error(lambda: curve(when), ValueError, f'{side} of the knots with ERROR behaviour')
            expect_error(lambda: curve(when, bump), ValueError, f'{side} of the knots with ERROR behaviour')
            rec.label(side + '-error')
            continue
        plain = number(curve(when), f'value at {when}')
        if side != 'inside':
            close(plain, (first if side == 'left' else last).value, f'constant extrapolation at {when}', 1e-12, 1e-12)
            rec.nontrivial()
        calls.clear()
        adjusted = number(curve(when, adjustment=bump), f'adjusted value at {when}')
        ensure(calls and all(c == when for c in calls), 'the adjustment was evaluated at another date', calls, when)
        close(adjusted, plain + 0.001 * (refs.clock(when) % 97) + 0.5, f'adjustment is added ({side})', 1e-12, 1e-12)
        close(curve(when), plain, 'an adjusted call changed the curve', 1e-12, 1e-12)
        rec.label(side)


def check_history(case, rec):
    """Value resets: the curve behaves like a fresh one built from the current knots."""
    domain(case['spec'])
    spec = case['spec']
    curve, pairs, anchor = build(spec)
    model = list(pairs)
    seen = crossed = 0
    for op in case['ops']:
        if op[0] == 'one':
            index = op[1] % len(model)
            model[index] = KnotValuePair(model[index].knot, op[2])
            curve.reset_interpolation_value(KnotValuePair(model[index].knot, op[2]), index)
        elif op[0] == 'move':   # another date for a knot, with the same or another value
            index = op[1] % len(model)
            moved = model[index].knot + timedelta(days=op[2])
            if moved < anchor or any(moved == p.knot for p in model[:index] + model[index + 1:]):
                continue
            new = KnotValuePair(moved, model[index].value + op[3])
            trial = sorted([*model[:index], new, *model[index + 1:]], key=lambda p: p.knot)
            xs = [axis(anchor, p.knot, spec['dcc']) for p in trial]
            if not all(b > a for a, b in zip(xs, xs[1:])):
                continue
            crossed += [p.knot for p in model].index(model[index].knot) != trial.index(new)
            model = trial
            curve.reset_interpolation_value(new, index)
        elif op[0] == 'all':
            model = [KnotValuePair(p.knot, p.value * op[1] + op[2]) for p in model]
            curve.reset_interpolation_values(iter(shuffled(model, spec['shuffle'] + 3)))
        elif op[0] == 'drop':
            if len(model) <= MIN_KNOTS[spec['method']]:
                continue
            model = [p for i, p in enumerate(model) if i != op[1] % len(model)]
            curve.reset_interpolation_values(tuple(shuffled(model, spec['shuffle'] + 7)))
        elif op[0] == 'extend':
            added = KnotValuePair(model[-1].knot + timedelta(days=op[1]), op[2])
            if axis(anchor, added.knot, spec['dcc']) <= axis(anchor, model[-1].knot, spec['dcc']):
                continue
            model = model + [added]
            curve.reset_interpolation_values(shuffled(model, spec['shuffle'] + 5))
        seen += 1
        ensure([tuple(p) for p in curve.interpolation_values] == [tuple(p) for p in model], 'knots after a reset')
        ensure(curve.reference_date == anchor, 'a reset moved the reference date', curve.reference_date, anchor)
        fresh = Curve(model, InterpolationMethod[spec['method']], DayCountConvention[spec['dcc']], anchor,
                      EndBehavior[spec['left']], EndBehavior[spec['right']])
        ds, vs = [p.knot for p in model], [p.value for p in model]
        scale = 1 + max(map(abs, vs))
        for k, d in enumerate(ds):
            mid = d if k + 1 == len(ds) else d + (ds[k + 1] - d) / 2
            if not spec['timestamps'] or spec['dcc'] == 'THIRTY_OVER_THREESIXTY':
                mid = d + timedelta(days=(mid - d).days)
            close(curve(mid), fresh(mid), f'value at {mid} after {op}', 1e-12, 1e-12)
            if spec['method'] == 'LINEAR':
                close(curve(mid), reference_linear(ds, vs, anchor, spec['dcc'], mid), f'value at {mid} after {op}', 1e-9,
                      1e-9 * scale)
            elif spec['method'] == 'PREVIOUS':
                close(curve(mid), reference_previous(ds, vs, mid), f'value at {mid} after {op}', 1e-12, 1e-12)
        for side, when, value in (('left', ds[0] - timedelta(days=1), vs[0]), ('right', ds[-1] + timedelta(days=1), vs[-1])):
            if spec[side] == 'ERROR':
                expect_error(lambda: curve(when), ValueError, f'{side} of the knots with ERROR behaviour, after {op}')
            else:
                close(curve(when), value, f'constant extrapolation at {when} after {op}', 1e-12, 1e-12)
                close(curve(when, lambda d: 0.5), value + 0.5, f'constant extrapolation and adjustment at {when} after {op}', 1e-12, 1e-12)
    rec.nontrivial(seen >= 2)
    rec.label(f'ops={min(seen, 4)}', 'a knot moves past another one' if crossed else 'same order of the knots')


def check_spline(case, rec):
    """Splines of degree k reproduce polynomials of degree <= k and are linear in the knot values."""
    domain(case)
    degree = {'LINEAR': 1, 'QUADRATIC_SPLINE': 2, 'CUBIC_SPLINE': 3, 'PREVIOUS': 0}[case['method']]
    base_curve, pairs, anchor = build(case)
    xs = [axis(anchor, p.knot, case['dcc']) for p in pairs]
    mid, half = (xs[0] + xs[-1]) / 2, (xs[-1] - xs[0]) / 2 or 1.0
    gaps = np.diff(xs)
    if degree >= 2 and max(gaps) / min(gaps) > 60:
        raise Reject('badly scaled knots: a global spline oscillates beyond comparison')
    coefficients = case['poly'][:degree + 1]

    def polynomial(x):
        u = (x - mid) / half
        return sum(c * u ** k for k, c in enumerate(coefficients))

    poly_curve, _, _ = build(case, [polynomial(x) for x in xs])
    mixed, _, _ = build(case, [2.0 * p.value - 3.0 * polynomial(x) for p, x in zip(pairs, xs)])
    scale = 1 + sum(map(abs, coefficients)) + max(abs(p.value) for p in pairs)
    for when in queries(case):
        if not pairs[0].knot <= when <= pairs[-1].knot:
            continue
        x = axis(anchor, when, case['dcc'])
        close(poly_curve(when), polynomial(x), f'{case["method"]} reproduces polynomials of degree {degree} at {when}',
              1e-7, 1e-6 * scale)
        a = number(base_curve(when), 'value')
        close(mixed(when), 2.0 * a - 3.0 * float(poly_curve(when)), f'linear in the knot values at {when}', 1e-7,
              1e-6 * scale * (1 + abs(a)))
        rec.nontrivial(all(when != p.knot for p in pairs))
    rec.label(case['method'])


OPS = st.lists(st.one_of(
    st.tuples(st.just('one'), st.integers(0, 20), floats(-5, 5, 3)),
    st.tuples(st.just('move'), st.integers(0, 20), st.one_of(st.integers(-20, 20), st.integers(-900, 900)), st.sampled_from([0.0, 0.0, 0.25])),
    st.tuples(st.just('drop'), st.integers(0, 20)),
    st.tuples(st.just('all'), floats(-2, 2, 2), floats(-1, 1, 2)),
    st.tuples(st.just('extend'), st.integers(1, 400), floats(-5, 5, 3))).map(list), min_size=1, max_size=6)

# many knots, not too unevenly spaced (splines would oscillate)
BIG = many(9, 90, lambda rng, i: (rng.randint(8, 40), round(rng.uniform(-5, 5), 3)))


def large_specs(methods=('LINEAR', 'PREVIOUS', 'QUADRATIC_SPLINE', 'CUBIC_SPLINE')):
    return st.tuples(spec_strategy(methods), BIG).map(lambda t: {**t[0], 'knots': _accumulate(t[1])})


PROPERTY = Property('C06', [
    Facet('large', large_specs, lambda c, r: (check_inside(c, r), check_ends(c, r)), 'a query strictly between knots or beyond them', 100, 2000, 2, 8),
    Facet('large history', lambda: st.fixed_dictionaries({'spec': large_specs(), 'ops': OPS}), check_history, 'at least two resets', 40, 800, 2, 8),
    Facet('inside', spec_strategy, check_inside, 'a query strictly between knots', 1500, 25000, 2, 8),
    Facet('ends', spec_strategy, check_ends, 'constant extrapolation beyond a knot', 1200, 20000, 1, 8),
    Facet('history', lambda: st.fixed_dictionaries({'spec': spec_strategy(), 'ops': OPS}), check_history,
          'at least two resets', 500, 8000, 2, 8),
    Facet('splines', lambda: spec_strategy().flatmap(lambda s: st.lists(floats(-3, 3, 2), min_size=4, max_size=4).map(
        lambda poly: {**s, 'poly': poly})), check_spline, 'a query strictly between knots', 700, 10000, 1, 8),
    siblings(lambda: spec_strategy(('LINEAR', 'PREVIOUS')), lambda c, r: (check_inside(c, r), check_ends(c, r)), 'curves', 120, 3000),
], assumptions=['at least 2/2/3/4 knots for linear/previous/quadratic/cubic', 'distinct knots at or after the '
                'reference date, distinct also on the interpolation axis (30/360 merges the 30th and the 31st)'])
