"""C29: simulated default times."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Property, Reject, all_close, ensure, siblings
from ..gens import floats
from ..stoch import SEEDS

from fixedIncome.src.curves.credit_curves.default_models import default_bernoulli_paths


def simulate(hazard, maturity, seed, **kw):
    np.random.seed(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        return default_bernoulli_paths(hazard, maturity, **kw)


def check_paths(case, rec):
    dt, steps = case['dt'], case['steps']
    maturity = dt * (steps + case['part'])             # strictly between two steps
    last = math.floor(steps + case['part'])
    levels = case['levels']
    width = maturity / len(levels)
    asked = []

    def hazard(t):
        asked.append(float(t))
        return levels[min(len(levels) - 1, max(0, int(t // width)))]

    count = case['paths']
    got = np.array(simulate(hazard, maturity, case['seed'], dt=dt, num_paths=count))
    ensure(got.shape == (count,), 'shape', got.shape)
    times = np.array([k * dt for k in range(1, last + 1)])
    chances = np.array([min(1.0, max(0.0, levels[min(len(levels) - 1, int(t // width))] * dt)) for t in times])
    near = np.array([abs(t / width - round(t / width)) < 1e-6 for t in times])
    if len(levels) > 1 and near.any():
        raise Reject('a step falls on a change of the hazard rate')
    ensure(all(-1e-9 < t < maturity + 1e-9 for t in asked), 'hazard rates outside the life of the bond', [t for t in asked if t >= maturity][:3])
    defaulted = got[~np.isnan(got)]
    k = np.rint(defaulted / dt).astype(int)
    ensure(np.all(np.abs(defaulted - k * dt) < 1e-6 * dt * steps), 'default times off the grid', defaulted[:5])
    ensure(np.all((k >= 1) & (k <= last)), 'default times outside the life of the bond', defaulted[:5], maturity)
    # certainty and impossibility
    counts = np.bincount(k, minlength=last + 2)[1:last + 1]
    ensure(not counts[chances == 0].any(), 'a default while the hazard rate is zero', counts, chances)
    certain = np.flatnonzero(chances >= 1)
    if certain.size:
        ensure(len(defaulted) == count and k.max() <= certain[0] + 1, 'somebody survived a certain default', k.max(), certain[0] + 1)
    # at every step the survivors default with probability hazard * dt, independently
    alive, statistic, degrees = count, 0.0, 0
    for step, p in enumerate(chances):
        expected, variance = alive * p, alive * p * (1 - p)
        if variance > 4:
            ensure(abs(counts[step] - expected) < 7 * math.sqrt(variance) + 1, f'defaults at step {step + 1} of {alive} survivors', counts[step], expected)
            statistic += (counts[step] - expected) ** 2 / variance
            degrees += 1
        alive -= counts[step]
    ensure(statistic < degrees + 9 * math.sqrt(2 * degrees) + 40, 'dispersion of the numbers of defaults', statistic, degrees)
    survival = float(np.prod(1 - chances))
    spread = math.sqrt(survival * (1 - survival) / count)
    ensure(abs(np.isnan(got).mean() - survival) <= 6.5 * spread + 1.01 / count, 'proportion of survivors', np.isnan(got).mean(), survival)
    if count >= 1000 and np.bincount(np.append(k, last + 1), minlength=last + 2).max() < 0.7 * count and (~np.isnan(got)).sum() > 0.1 * count:
        # the paths are independent of each other: no correlation between a path and the one so many paths later
        x = np.where(np.isnan(got), last + 1, np.rint(np.nan_to_num(got) / dt))
        x = (x - x.mean()) / x.std()
        correlation = np.fft.irfft(np.abs(np.fft.rfft(x)) ** 2, count)[1:] / count
        ensure(np.abs(correlation).max() < 9 / math.sqrt(count), 'correlation between paths', int(np.abs(correlation).argmax()) + 1, correlation[np.abs(correlation).argmax()])
        rec.label('independence of paths')
    again = np.array(simulate(hazard, maturity, case['seed'], dt=dt, num_paths=count))
    ensure(np.array_equal(got, again, equal_nan=True), 'the same seed gives other default times')
    rec.label('certain' if certain.size else 'uncertain', 'constant' if len(levels) == 1 else 'varying')
    rec.nontrivial(0.02 < survival < 0.98 and len(levels) > 1)


def check_defaults(case, rec):
    """Default arguments: a thousand paths, a hundredth of a year."""
    got = np.array(simulate(lambda t: case['rate'], case['maturity'], case['seed']))
    ensure(got.shape == (1000,), 'number of paths', got.shape)
    defaulted = got[~np.isnan(got)]
    ensure(np.all(np.abs(defaulted * 100 - np.rint(defaulted * 100)) < 1e-6), 'default times off the grid', defaulted[:5])
    ensure(np.all((defaulted > 0.009) & (defaulted < case['maturity'] + 1e-9)), 'default times outside the life of the bond')
    steps = math.floor(case['maturity'] * 100 - 1e-6)
    survival = (1 - case['rate'] * 0.01) ** steps
    ensure(abs(np.isnan(got).mean() - survival) <= 6.5 * math.sqrt(survival * (1 - survival) / 1000) + 0.0021, 'proportion of survivors', np.isnan(got).mean(), survival)
    rec.nontrivial(case['rate'] > 0)


LEVELS = st.lists(st.one_of(st.just(0.0), floats(0, 3, 3), floats(0, 3, 3), floats(0, 12, 2), st.sampled_from([1000.0])), min_size=1, max_size=4)
PROPERTY = Property('C29', [
    Facet('large', lambda: st.fixed_dictionaries(
        {'dt': st.one_of(st.sampled_from([0.01, 1 / 365, 1 / 12]), floats(0.002, 0.05, 4)), 'steps': st.one_of(st.integers(31, 500), st.integers(1, 100)), 'part': floats(0.2, 0.8, 3),
         'levels': st.lists(floats(0, 1, 3), min_size=1, max_size=12), 'seed': SEEDS, 'paths': st.sampled_from([1, 800, 3000, 6000])}), check_paths,
        'a varying hazard rate and between 2% and 98% survivors', 12, 240, 8, 8),
    Facet('paths', lambda: st.fixed_dictionaries(
        {'dt': st.one_of(st.sampled_from([0.01, 0.1, 0.25, 1 / 12]), floats(0.005, 0.4, 4)), 'steps': st.integers(1, 30), 'part': floats(0.2, 0.8, 3), 'levels': LEVELS,
         'seed': SEEDS, 'paths': st.sampled_from([1, 50, 400, 400, 400, 1500])}), check_paths, 'a varying hazard rate and between 2% and 98% survivors', 480, 8000, 8, 8),
    Facet('defaults', lambda: st.fixed_dictionaries({'rate': floats(0, 5, 3), 'maturity': floats(0.015, 0.6, 4).map(lambda x: round(x, 2) + 0.005), 'seed': SEEDS}),
          check_defaults, 'a positive hazard rate', 48, 400, 4, 8),
    siblings(lambda: st.fixed_dictionaries(
        {'dt': st.sampled_from([0.01, 0.1, 0.25, 1 / 12]), 'steps': st.integers(1, 12), 'part': floats(0.2, 0.8, 3), 'levels': LEVELS,
         'seed': SEEDS, 'paths': st.sampled_from([1, 50, 400])}), check_paths, 'hazard rates or seeds', 40, 800),
], assumptions=['the global numpy generator is the source of randomness; the maturity lies between two steps'])
