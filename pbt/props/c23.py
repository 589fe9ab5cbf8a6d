"""C23: diffusion processes follow their stochastic differential equation."""
from datetime import timedelta

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Property, all_close, ensure, expect_error
from ..gens import floats, table
from ..stoch import (CORRELATIONS, SEEDS, correlation_of, dts, fits, grid_of, horizons, motion, step_of, twin_increments)

from fixedIncome.src.stochastics.base_processes import DiffusionProcess, DriftDiffusionPair
from fixedIncome.src.stochastics.geometric_brownian_motion import GeometricBrownianMotion


def coefficients(component, dim, factors):
    """Drift and diffusion of one component as functions of time and state."""
    kind, rows, scale = component
    row = np.array(rows[0])[:dim]
    load = np.array(rows[1])[:factors]
    a, b = rows[2][0], rows[2][1]

    def drift(t, x):
        if kind == 'mean reverting':
            return scale * float(row @ (a - x))
        if kind == 'time':
            return scale * (a + b * t)
        if kind == 'bounded':
            return scale * float(np.sin(row @ x + b * t))
        return 0.0

    def diffusion(t, x):
        if kind == 'mean reverting':
            return load
        if kind == 'time':
            return load * (1 + b * t)
        return load * (1 + 0.3 * float(np.cos(row @ x)))

    return drift, diffusion


def euler(pairs, start, increments, lengths):
    x, t, out = np.array(start, dtype=float), 0.0, []
    out.append(x)
    for shock, dt in zip(increments.T, lengths):
        x = x + np.array([drift(t, x) * dt + diffusion(t, x) @ shock for drift, diffusion in pairs])
        t += dt
        out.append(x)
    return np.array(out).T


def started(values, dim, style):
    values = list(values[:dim])
    if style == 'ints':
        values = [round(v) for v in values]
    if style in ('list', 'ints'):
        return values, values
    return np.array(values), values


def check_history(case, rec):
    base = grid_of(case['horizon'])
    factors = case['factors']
    correlation = correlation_of(case['correlation'], factors)
    bm = motion(base, factors, correlation)
    processes, between, shared = [], 0, 0
    for spec in case['processes']:
        dim = len(spec)
        pairs = [coefficients(c, dim, factors) for c in spec]
        collection = {case['prefix'] + 'cabfed'[i]: DriftDiffusionPair(*pair) for i, pair in enumerate(pairs)}
        process = DiffusionProcess(drift_diffusion_collection=collection, brownian_motion=bm, dt=step_of(base.dt))
        ensure(process.path is None and process.dimension == dim, 'path or dimension of a new process', process.dimension)
        ensure(process.show_drift_diffusion_collection_keys().split('\n') == list(collection), 'names of the components')
        expect_error(lambda p=process: p(base.start), ValueError, 'a call before a path is generated')
        processes.append({'process': process, 'pairs': pairs, 'dt': base.dt, 'current': None})
    for op in case['ops']:
        entry = processes[op[1] % len(processes)]
        process, dim = entry['process'], len(entry['pairs'])
        if op[0] == 'path':
            grid = grid_of(case['horizon'], dt=entry['dt'])
            given, start = started(op[3], dim, op[4])
            kept = np.array(given)
            path = process.generate_path(given, set_path=op[5], seed=op[2])
            expected = euler(entry['pairs'], start, twin_increments(grid, factors, correlation, op[2]), grid.lengths)
            all_close(path, expected, 'path', 1e-8, 1e-9 * (1 + np.abs(expected).max()))
            ensure(np.array_equal(kept, np.array(given)), 'the starting values were changed')
            if op[5]:
                entry['current'] = (grid, np.array(path))
                shared += 1
        elif op[0] == 'dt':
            entry['dt'] = fits(base, op[2])
            process.set_dt(step_of(entry['dt']))
            entry['current'] = None
            ensure(process.dt == step_of(entry['dt']), 'increment after set_dt')
        elif op[0] == 'noise':
            bm.generate_increments(step_of(fits(base, op[2])), seed=op[3])
        elif op[0] == 'motion':
            bm.generate_path(step_of(fits(base, op[2])), seed=op[3])
        else:
            t = base.moment(op[2])
            if entry['current'] is None:
                expect_error(lambda: process(t), ValueError, 'a call without a path')
            else:
                grid, path = entry['current']
                between += t not in grid.times
                all_close(process(t), grid.interpolate(path, t), f'value at {t}', 1e-9, 1e-9 * (1 + np.abs(path).max()))
                for bad in (base.start - timedelta(days=1), base.end + timedelta(days=1)):
                    expect_error(lambda: process(bad), ValueError, f'a call at {bad}, outside the horizon')
        for e in processes:
            if e['current'] is None:
                ensure(e['process'].path is None, 'a path although none is in force')
            else:
                ensure(np.array_equal(e['process'].path, e['current'][1]), 'the path is not the last one that was set')
    rec.label(f'{len(processes)} processes', *{c[0] for spec in case['processes'] for c in spec})
    rec.nontrivial(between >= 1 and any(c[0] != 'none' for spec in case['processes'] for c in spec))


def check_geometric(case, rec):
    base = grid_of(case['horizon'], dcc='ACTUAL_OVER_ACTUAL')
    dim, correlation = case['dim'], correlation_of(case['correlation'], case['dim'])
    gbm = GeometricBrownianMotion(drift=case['drift'], volatility=case['volatility'], start_date_time=base.start, end_date_time=base.end,
                                  dimension=dim, correlation_matrix=correlation, dt=step_of(base.dt))
    ensure(gbm.path is None, 'a path before one is generated')
    lines = base.lengths[None, :] * case['drift'] + case['volatility'] * twin_increments(base, dim, correlation, case['seed'])
    growth = np.concatenate([np.ones((dim, 1)), np.cumprod(1 + lines, axis=1)], axis=1)
    styles = {'float': float(case['start'][0]), 'int': int(case['start'][0]) or 1, 'array': np.array(case['start'][:dim]), 'list': case['start'][:dim]}
    previous = None
    for style, set_path in case['runs']:
        given = styles[style]
        path = gbm.generate_path(given, set_path=set_path, seed=case['seed'])
        expected = np.broadcast_to(np.asarray(given, dtype=float), (dim,))[:, None] * growth
        all_close(path, expected, f'path from {style}', 1e-8, 1e-9 * np.abs(expected).max())
        if set_path:
            previous = np.array(path)
        ensure(gbm.path is None if previous is None else np.array_equal(gbm.path, previous), 'the path is not the last one that was set')
    rec.label(f'dimension {dim}')
    rec.nontrivial(case['volatility'] > 0 and len(base.lengths) >= 2)


ROWS = st.lists(st.lists(floats(-1, 1, 2), min_size=3, max_size=3), min_size=3, max_size=3)
COMPONENT = st.tuples(st.sampled_from(['mean reverting', 'mean reverting', 'time', 'bounded', 'none']), ROWS, floats(0, 1, 2)).map(list)
UNIT = st.one_of(floats(0, 1, 4), st.sampled_from([0, 1]))
VALUES = st.lists(floats(-5, 5, 2), min_size=3, max_size=3)
WHICH = st.integers(0, 1)
PATH = st.tuples(st.just('path'), WHICH, st.one_of(st.just(1), SEEDS), VALUES, st.sampled_from(['array', 'list', 'ints']),
                 st.sampled_from([True, True, False]))
CALL = st.tuples(st.just('call'), WHICH, UNIT)
OPS = st.lists(st.one_of(PATH, CALL, CALL, st.tuples(st.just('dt'), WHICH, dts()), st.tuples(st.just('noise'), WHICH, dts(), SEEDS),
                         st.tuples(st.just('motion'), WHICH, dts(), SEEDS)).map(list), min_size=2, max_size=8)
FIRST = PATH.map(lambda p: ['path', 0, *p[2:5], True])
LARGE_COMPONENT = st.tuples(st.sampled_from(['mean reverting', 'mean reverting', 'time', 'bounded', 'none']), table(3, 6), floats(0, 0.4, 2)).map(list)
PROPERTY = Property('C23', [
    Facet('large', lambda: st.fixed_dictionaries(
        {'horizon': horizons(max_count=60), 'factors': st.integers(4, 6), 'correlation': st.one_of(st.none(), table(6, 6)),
         'processes': st.lists(st.lists(LARGE_COMPONENT, min_size=4, max_size=6), min_size=1, max_size=2), 'prefix': st.sampled_from(['', 'x', 'b']),
         'ops': st.tuples(FIRST, OPS).map(lambda t: [[*op[:3], (op[3] * 2)[:6], *op[4:]] if op[0] == 'path' else op for op in [t[0], *t[1]]])}),
        check_history, 'a component with a drift, and a call between two grid points', 80, 1200, 8, 8),
    Facet('history', lambda: st.fixed_dictionaries(
        {'horizon': horizons(), 'factors': st.integers(1, 3), 'correlation': st.one_of(st.none(), CORRELATIONS),
         'processes': st.lists(st.lists(COMPONENT, min_size=1, max_size=3), min_size=1, max_size=2), 'prefix': st.sampled_from(['', 'x', 'b']),
         'ops': st.tuples(FIRST, OPS).map(lambda t: [t[0], *t[1]])}), check_history,
        'a component with a drift, and a call between two grid points', 1600, 24000, 8, 8),
    Facet('geometric', lambda: st.fixed_dictionaries(
        {'horizon': horizons(), 'dim': st.integers(1, 3), 'correlation': st.one_of(st.none(), CORRELATIONS), 'seed': SEEDS,
         'drift': st.one_of(st.sampled_from([0, 0.0]), floats(-0.5, 0.5, 3)), 'volatility': floats(0, 1, 3), 'start': st.lists(floats(0.5, 200, 2), min_size=3, max_size=3),
         'runs': st.lists(st.tuples(st.sampled_from(['float', 'int', 'array', 'list']), st.booleans()).map(list), min_size=1, max_size=3)}), check_geometric,
        'a positive volatility and two increments', 800, 10000, 4, 8),
], assumptions=['ACT day counts; drifts and diffusions without side effects'])
