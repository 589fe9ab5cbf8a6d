"""C24: short rate paths, their integrals and the curves made from them."""
import math
from datetime import timedelta

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Property, Reject, all_close, close, ensure, expect_error, siblings
from ..gens import floats, table
from ..refs import clock, year_fraction
from ..stoch import (CORRELATIONS, SEEDS, correlation_of, dts, fits, grid_of, horizons, motion, step_of, twin_increments)
from .c23 import ROWS, coefficients, euler

from fixedIncome.src.curves.curve_enumerations import CurveIndex
from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import MultivariateVasicekModel, VasicekModel
from fixedIncome.src.stochastics.short_rate_models.base_short_rate_model import ShortRateModel


def build(case, grid, correlation):
    """(model, coefficient functions, short rate as a function of the state, dimension)"""
    kind, dim = case['model'], case['dim']
    rows, level = np.array(case['rows']), case['level']
    if kind == 'vasicek':
        k, sigma = case['speed'], case['volatility']
        model = VasicekModel(reversion_level=level, reversion_speed=k, volatility=sigma, brownian_motion=motion(grid), dt=step_of(grid.dt))
        pairs = [(lambda t, x: k * (level - x[0]), lambda t, x: np.array([sigma]))]
        return model, pairs, lambda x: float(x[0]), 1
    bm = motion(grid, dim, correlation)
    if kind == 'multivariate':
        # a lower triangular reversion matrix with different eigenvalues
        reversion = np.tril(0.3 * rows[:dim, :dim], -1) + np.diag([case['speed'] + 0.3 * i for i in range(dim)])
        loads, levels = case['volatility'] * rows[:dim, :dim], level * (1 + rows[0, :dim])
        weights, intercept = rows[1, :dim].copy(), case['intercept']
        model = MultivariateVasicekModel(short_rate_intercept=intercept, short_rate_coefficients=weights, reversion_level=levels,
                                         reversion_matrix=reversion, volatility_matrix=loads, brownian_motion=bm, dt=step_of(grid.dt))
        pairs = [(lambda t, x, i=i: float(reversion[i] @ (levels - x)), lambda t, x, i=i: loads[i]) for i in range(dim)]
        return model, pairs, lambda x: intercept + float(weights @ x), dim
    pairs = [coefficients([c, case['rows'], case['speed']], dim, dim) for c in case['components'][:dim]]
    collection = {'cabfed'[i]: DriftDiffusionPair(*p) for i, p in enumerate(pairs)}
    process = DiffusionProcess(drift_diffusion_collection=collection, brownian_motion=bm, dt=step_of(grid.dt))
    rate = {'square': lambda x: 0.1 * float(x[0] ** 2), 'exponential': lambda x: 0.02 * math.exp(min(3.0, float(x[-1]))),
            'sum': lambda x: 0.01 * float(np.sum(x))}[kind]
    return ShortRateModel(short_rate_transformation=rate, state_variables_diffusion_process=process), pairs, rate, dim


def moments(grid, fractions):
    """Strictly increasing datetimes, from the start of the horizon or (with a leading 'from') a later one."""
    later = fractions[0] == 'from'
    out = {clock(t): t for t in ([] if later else [grid.start]) + [grid.moment(u) for u in fractions[later:]]}
    return [out[c] for c in sorted(out)]


def trapezoid(rate, times, dcc):
    total, out = 0.0, [0.0]
    for a, b in zip(times, times[1:]):
        total += (rate(a) + rate(b)) / 2 * year_fraction(a, b, dcc)
        out.append(total)
    return np.array(out)


def check_curve(curve, values, times, grid, what):
    scale = 1e-9 * (1 + np.abs(values).max())
    for t, v in zip(times, values):
        close(curve(t), v, f'{what} at its knot {t}', 1e-9, scale)
    for (a, v), (b, w) in zip(zip(times, values), list(zip(times, values))[1:]):
        t = a + (b - a) / 2
        u = year_fraction(a, t, grid.dcc) / year_fraction(a, b, grid.dcc)
        close(curve(t), v + u * (w - v), f'{what} at {t}', 1e-9, scale)
    expect_error(lambda: curve(times[-1] + timedelta(days=2)), ValueError, f'{what} after its last knot')


def check_model(case, rec):
    base = grid_of(case['horizon'])
    correlation = correlation_of(case['correlation'], case['dim'])
    model, pairs, rate, dim = build(case, base, correlation)
    dt, current, discount, integral, made = base.dt, None, None, None, 0
    for call in (lambda: model(base.start), model.generate_integrated_path, model.accrual_curve, model.create_discount_curve):
        expect_error(call, ValueError, 'a call before a path is generated')
    for op in case['ops']:
        if op[0] == 'path':
            grid = grid_of(case['horizon'], dt=dt)
            start = np.array(op[2][:dim])
            given = float(start[0]) if dim == 1 and case['model'] == 'vasicek' and op[4] else start.copy()
            path = model.generate_path(given, set_path=op[3], seed=op[1])
            states = euler(pairs, start, twin_increments(grid, dim, correlation if case['model'] != 'vasicek' else None, op[1]), grid.lengths)
            expected = np.array([rate(states[:, i]) for i in range(states.shape[1])])
            if np.abs(states).max() > 100 or np.abs(expected).max() * grid.lengths.sum() > 50:
                raise Reject('the increment is too coarse for the speed of reversion: the path explodes')
            all_close(path, expected, 'short rate path', 1e-8, 1e-9 * (1 + np.abs(states).max()))
            if op[3]:
                current, discount, integral = (grid, states, np.array(path)), None, None
        elif op[0] == 'dt':
            dt = fits(base, op[1])
            model.set_dt(step_of(dt))
            current, discount, integral = None, None, None
        elif current is None:
            for call in (lambda: model(base.start), model.generate_integrated_path, model.accrual_curve, model.create_discount_curve):
                expect_error(call, ValueError, f'{op[0]} without a path')
        else:
            grid, states, _ = current
            scale = 1e-9 * (1 + np.abs(states).max())
            short = lambda t: rate(grid.interpolate(states, t))  # noqa: E731
            if op[0] == 'call':
                t = grid.moment(op[1])
                value = model(t)
                ensure(np.ndim(value) == 0, 'the short rate is not a number', value)
                close(value, short(t), f'short rate at {t}', 1e-8, scale)
                for bad in (base.start - timedelta(days=1), base.end + timedelta(days=1)):
                    expect_error(lambda: model(bad), ValueError, f'short rate at {bad}, outside the horizon')
            else:
                times = moments(grid, op[1]) if op[1] else None
                if times is not None and len(times) < 2:
                    times = [grid.start, grid.end]
                kept = list(times) if times is not None else None
                argument = {} if times is None else {'datetimes': times}
                nodes = grid.regular if times is None else times
                if op[0] != 'integral' and len(nodes) < 2:
                    continue
                values = trapezoid(short, nodes, grid.dcc)
                if op[0] == 'integral':
                    got = model.generate_integrated_path(**argument)
                elif op[0] == 'accrual':
                    check_curve(model.accrual_curve(**argument), np.exp(values), nodes, grid, 'accrual curve')
                    got = model.integrated_path
                else:
                    discount = model.create_discount_curve(curve_index=CurveIndex.TERM_SOFR_3M, **argument)
                    ensure(discount.index == CurveIndex.TERM_SOFR_3M, 'index of the discount curve', discount.index)
                    check_curve(discount, np.exp(-values), nodes, grid, 'discount curve')
                    got = model.integrated_path
                ensure(len(got) >= len(nodes), 'length of the integrated path', len(got), len(nodes))
                all_close(got[:len(nodes)], values, 'integrated short rate', 1e-8, scale * 100)
                ensure(times == kept, 'the list of datetimes was changed')
                integral = np.array(got)
                made += bool(times)
        path = None if current is None else current[2]
        for what, have, want in (('path', model.path, path), ('integrated path', model.integrated_path, integral)):
            ensure(have is None if want is None else have is not None and np.array_equal(have, want), f'the {what} is not the last one made', have, want)
        ensure(model.discount_curve is discount, 'the discount curve is not the last one made from the path')
    rec.label(case['model'])
    rec.nontrivial(made >= 1)


UNIT = st.one_of(floats(0, 1, 4), st.sampled_from([0, 1]))
TIMES = st.one_of(st.none(), st.lists(UNIT, min_size=1, max_size=6), st.lists(UNIT, min_size=1, max_size=6),
                  st.lists(floats(0, 1, 4), min_size=2, max_size=5).map(lambda units: ['from', *units]))
PATH = st.tuples(st.just('path'), st.one_of(st.just(1), SEEDS), st.lists(floats(-0.05, 0.15, 3), min_size=3, max_size=3), st.sampled_from([True, True, False]), st.booleans())
OP = st.one_of(PATH, st.tuples(st.just('dt'), dts()), st.tuples(st.just('call'), UNIT), st.tuples(st.just('integral'), TIMES),
               st.tuples(st.just('accrual'), TIMES), st.tuples(st.just('discount'), TIMES), st.tuples(st.just('discount'), TIMES)).map(list)
PROPERTY = Property('C24', [
    Facet('large', lambda: st.fixed_dictionaries(
        {'horizon': horizons(max_count=60, only_datetimes=True), 'model': st.sampled_from(['multivariate', 'multivariate', 'square', 'exponential', 'sum']),
         'dim': st.integers(4, 6), 'correlation': st.one_of(st.none(), table(6, 6)), 'rows': table(6, 6), 'level': floats(-0.02, 0.1, 3), 'speed': floats(0.05, 1, 2),
         'volatility': floats(0, 0.1, 3), 'intercept': floats(-0.02, 0.05, 3),
         'components': st.lists(st.sampled_from(['mean reverting', 'time', 'bounded', 'none']), min_size=6, max_size=6),
         'ops': st.tuples(PATH, st.lists(OP, min_size=2, max_size=5)).map(lambda t: [[*op[:2], (op[2] * 2)[:6], *op[3:]] if op[0] == 'path' else op
                                                                                      for op in [[*t[0][:3], True, t[0][4]], *t[1]]])}), check_model,
        'an integral or curve over requested datetimes', 80, 1200, 8, 8),
    Facet('history', lambda: st.fixed_dictionaries(
        {'horizon': horizons(max_count=20, only_datetimes=True), 'model': st.sampled_from(['vasicek', 'vasicek', 'multivariate', 'square', 'exponential', 'sum']),
         'dim': st.integers(1, 3), 'correlation': st.one_of(st.none(), CORRELATIONS), 'rows': ROWS, 'level': floats(-0.02, 0.1, 3), 'speed': floats(0.05, 2, 2),
         'volatility': floats(0, 0.1, 3), 'intercept': floats(-0.02, 0.05, 3),
         'components': st.lists(st.sampled_from(['mean reverting', 'time', 'bounded', 'none']), min_size=3, max_size=3),
         'ops': st.tuples(PATH, st.lists(OP, min_size=2, max_size=8)).map(lambda t: [[*t[0][:3], True, t[0][4]], *t[1]])}), check_model,
        'an integral or curve over requested datetimes', 1600, 24000, 8, 8),
    siblings(lambda: st.fixed_dictionaries(
        {'horizon': horizons(max_count=12, only_datetimes=True), 'model': st.sampled_from(['vasicek', 'vasicek', 'multivariate', 'square', 'exponential', 'sum']),
         'dim': st.integers(1, 3), 'correlation': st.one_of(st.none(), CORRELATIONS), 'rows': ROWS, 'level': floats(-0.02, 0.1, 3), 'speed': floats(0.05, 2, 2),
         'volatility': floats(0, 0.1, 3), 'intercept': floats(-0.02, 0.05, 3),
         'components': st.lists(st.sampled_from(['mean reverting', 'time', 'bounded', 'none']), min_size=3, max_size=3),
         'ops': st.tuples(PATH, st.lists(OP, min_size=2, max_size=5)).map(lambda t: [[*t[0][:3], True, t[0][4]], *t[1]])}), check_model, 'models', 100, 2000),
], assumptions=['ACT day counts; requested datetimes are strictly increasing'])
