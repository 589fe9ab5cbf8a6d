"""C22: Brownian motion."""
import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Property, all_close, ensure, expect_error, siblings
from ..gens import floats, table
from ..stoch import (CORRELATIONS, SEEDS, Grid, correlation_of, dts, fits, grid_of, horizons, motion, step_of)
from datetime import timedelta


def whiten(increments, correlation, lengths):
    lower = np.linalg.cholesky(correlation) if correlation is not None else np.eye(len(increments))
    return np.linalg.solve(lower, increments) / np.sqrt(lengths)


def check_history(case, rec):
    """Paths, increments and calls against a model which keeps the last path that was set."""
    base = grid_of(case['horizon'])
    dim, correlation = case['dim'], correlation_of(case['correlation'], case['dim'])
    bm = motion(base, dim, correlation)
    ensure(bm.path is None, 'a path before one is generated')
    expect_error(lambda: bm(base.start), ValueError, 'a call before a path is generated')
    current, noise, between = None, {}, 0
    for op in case['ops']:
        name = op[0]
        if name in ('path', 'increments'):
            grid = grid_of(case['horizon'], dt=fits(base, op[1]) if op[1] else None)
            seed = op[2]
            if name == 'path':
                path = bm.generate_path(step_of(grid.dt), set_path=op[3], seed=seed)
                all_close(path[:, 0], np.zeros(dim), 'a path starts at zero', 0, 0)
                increments = np.diff(path, axis=1)
                if op[3]:
                    current = (grid, np.array(path))
            else:
                increments, lengths = bm.generate_increments(step_of(grid.dt), seed=seed)
                all_close(lengths, grid.lengths, 'time increments', 1e-9, 1e-12)
            ensure(increments.shape == (dim, len(grid.lengths)), 'shape of the increments', increments.shape, (dim, len(grid.lengths)))
            ensure(list(bm.datetimes) == grid.times, 'datetimes', list(bm.datetimes)[-3:], grid.times[-3:])
            z = whiten(increments, correlation, grid.lengths)
            key = (seed, len(grid.lengths))
            if key in noise:      # the same seed: the same noise, whatever the dates
                all_close(z, noise[key], 'noise of the same seed', 1e-6, 1e-7)
            noise[key] = z
            # the noise does not depend on the correlation either
            plain = motion(grid, dim).generate_increments(step_of(grid.dt), seed=seed)[0]
            all_close(z, whiten(plain, None, grid.lengths), 'noise of the same seed without correlation', 1e-6, 1e-7)
        elif current is not None:
            grid, path = current
            t = grid.moment(op[1])
            between += t not in grid.times
            all_close(bm(t), grid.interpolate(path, t), f'value at {t}', 1e-9, 1e-9)
            i = int(op[1] * (len(grid.times) - 1))
            all_close(bm(grid.times[i]), path[:, i], f'value at the grid point {grid.times[i]}', 1e-12, 1e-13)
            one = timedelta(days=1)
            expect_error(lambda: bm(grid.start - one), ValueError, 'a call before the start')
            expect_error(lambda: bm(grid.end + one), ValueError, 'a call after the end')
        if current is not None:
            ensure(np.array_equal(bm.path, current[1]), 'the path is not the last one that was set')
        else:
            ensure(bm.path is None, 'a path although none was set')
    rec.label(f'dimension {dim}', 'correlated' if correlation is not None else 'independent')
    rec.nontrivial(between >= 1)


def check_law(case, rec):
    """Increments over many seeds: mean, covariance (over components and over time), kurtosis."""
    grid = grid_of(case['horizon'])
    dim, correlation = case['dim'], correlation_of(case['correlation'], case['dim'])
    target = np.eye(dim) if correlation is None else correlation
    bm = motion(grid, dim, correlation)
    rounds = 4000 // len(grid.lengths) + 20
    scaled = []
    for seed in range(case['seed'] % 2 ** 31, case['seed'] % 2 ** 31 + rounds):
        path = bm.generate_path(step_of(grid.dt), set_path=False, seed=seed)
        scaled.append(np.diff(path, axis=1) / np.sqrt(grid.lengths))
    scaled = np.array(scaled)                                  # rounds x dim x steps
    steps = scaled.shape[2]
    flat = scaled.transpose(1, 0, 2).reshape(dim, -1)
    n = flat.shape[1]
    ensure(np.abs(flat.mean(axis=1)).max() < 6 / np.sqrt(n), 'mean of the increments', flat.mean(axis=1))
    covariance = flat @ flat.T / n
    bound = 6 * np.sqrt((1 + target ** 2) / n) * 1.15
    ensure(np.all(np.abs(covariance - target) < bound), 'covariance of the increments per unit of time', covariance, target)
    ensure(np.all(np.abs((flat ** 4).mean(axis=1) - 3) < 9 * np.sqrt(96 / n)), 'fourth moment of the increments', (flat ** 4).mean(axis=1))
    if steps >= 2:
        lagged = np.einsum('rit,rjt->ij', scaled[:, :, 1:], scaled[:, :, :-1]) / (rounds * (steps - 1))
        ensure(np.abs(lagged).max() < 6 / np.sqrt(rounds * (steps - 1)), 'increments of neighbouring steps are correlated', lagged)
    first = bm.generate_path(step_of(grid.dt), set_path=False)
    second = bm.generate_path(step_of(grid.dt), set_path=False)
    ensure(not np.array_equal(first, second), 'two paths without a seed are the same')
    rec.label(f'{steps} steps' if steps < 4 else '4 steps or more')
    rec.nontrivial(dim >= 2 and steps >= 2)


UNIT = st.one_of(floats(0, 1, 4), st.sampled_from([0, 1]))
OPS = st.lists(st.one_of(
    st.tuples(st.just('path'), st.one_of(st.none(), dts()), st.one_of(st.sampled_from([1, 2]), SEEDS), st.booleans()),
    st.tuples(st.just('increments'), st.one_of(st.none(), dts()), st.one_of(st.sampled_from([1, 2]), SEEDS)),
    st.tuples(st.just('call'), UNIT), st.tuples(st.just('call'), UNIT)).map(list), min_size=1, max_size=8).map(
        lambda ops: [['path', None, 1, True]] + ops)
DIMENSION = {'dim': st.integers(1, 3), 'correlation': st.one_of(st.none(), CORRELATIONS, CORRELATIONS)}

def long_horizons():
    """Up to 1500 increments, within sixty years."""
    def cap(spec):
        kind, n = spec['dt']
        days = {'years': 366, 'months': 31, 'timedelta': 1, 'days': 1, 'hours': 1 / 24, 'seconds': 1 / 86400}[kind] * n
        if kind in ('hours', 'seconds') and 'T' not in spec['start']:
            days = 400
        return {**spec, 'count': max(1, min(spec['count'], int(60 * 365 / days)))}
    return horizons(max_count=1500).map(cap)


LARGE = {'dim': st.integers(4, 9), 'correlation': st.one_of(st.none(), table(9, 9), table(9, 9))}
PROPERTY = Property('C22', [
    Facet('large', lambda: st.fixed_dictionaries({'horizon': long_horizons(), **LARGE, 'ops': OPS}), check_history,
          'a call between two grid points', 160, 2000, 8, 8),
    Facet('history', lambda: st.fixed_dictionaries({'horizon': horizons(), **DIMENSION, 'ops': OPS}), check_history,
          'a call between two grid points', 2400, 30000, 8, 8),
    Facet('law', lambda: st.fixed_dictionaries({'horizon': horizons(max_count=6), **DIMENSION, 'seed': SEEDS}), check_law,
          'two components and two steps or more', 160, 2400, 8, 8),
    siblings(lambda: st.fixed_dictionaries({'horizon': horizons(), **DIMENSION, 'ops': OPS}), check_history, 'Brownian motions', 120, 3000),
], assumptions=['ACT day counts; every horizon holds at least one increment'])
