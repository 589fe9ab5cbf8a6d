"""C21: optimal portfolios."""
import itertools

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Property, Reject, close, all_close, ensure, number, siblings
from ..gens import floats

from fixedIncome.src.portfolio.portfolio_optimization import PortfolioOptimizer


SLACK = 1e-5          # relative difference of variances


def quadratic(C, c, B, b, long_only):
    """argmin of w'Cw/2 + c'w subject to Bw = b (and w >= 0), by enumerating the supports."""
    n, best = len(c), None
    supports = [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)] if long_only else [tuple(range(n))]
    for support in supports:
        s = list(support)
        size = len(s)
        kkt = np.block([[C[np.ix_(s, s)], B[:, s].T], [B[:, s], np.zeros((len(b), len(b)))]])
        solution = np.linalg.lstsq(kkt, np.concatenate([-c[s], b]), rcond=None)[0]
        w = np.zeros(n)
        w[s] = solution[:size]
        if np.abs(B @ w - b).max() > 1e-8 or (long_only and w.min() < -1e-10):
            continue
        value = 0.5 * w @ C @ w + c @ w
        if best is None or value < best[0]:
            best = (value, w)
    return best


def market(case):
    loadings = np.array(case['loadings'])[:, :len(case['means'])]
    n = len(case['means'])
    covariance = (loadings.T @ loadings / len(loadings) + 0.2 * np.diag([case['own'][i % len(case['own'])] for i in range(n)]))
    return np.array(case['means']), covariance * case['scale']


def feasible(w, what, budget=1e-6, long_only=False):
    ensure(isinstance(w, np.ndarray) and w.ndim == 1 and np.all(np.isfinite(w)), f'{what}: weights', w)
    close(w.sum(), 1.0, f'{what}: sum of the weights', 0, budget)
    if long_only:
        ensure(w.min() >= -1e-7, f'{what}: a short position', w)


def check_minimum_variance(case, rec):
    means, covariance = market(case)
    spread = means.max() - means.min()
    if spread < 0.01:
        raise Reject('all expected returns are (almost) the same')
    optimizer = PortfolioOptimizer(means.copy(), covariance.copy())
    for short in case['short']:
        # strictly inside what is attainable without short positions (see the facet 'edge')
        inside = 0.02 + 0.96 * case['target'] if not short else 1.6 * case['target'] - 0.3
        target = means.min() + inside * spread
        w = optimizer.find_minimum_variance_portfolio(target, allow_short_positions=short)
        feasible(w, 'minimum variance portfolio', long_only=not short)
        close(w @ means, target, 'expected return of the minimum variance portfolio', 0, 1e-6)
        value, best = quadratic(covariance, np.zeros(len(means)), np.array([np.ones(len(means)), means]),
                                np.array([1.0, target]), not short)
        close(w @ covariance @ w, 2 * value, f'variance of the minimum variance portfolio (short={short})', SLACK, 0)
        rec.label('short' if short else 'long', 'interior' if best.min() > 1e-6 else 'at a bound')
    ensure(np.array_equal(optimizer.mean_vector, means) and np.array_equal(optimizer.covariance_matrix, covariance),
           'the optimizer changed its inputs')
    rec.nontrivial(len(means) >= 3)


def check_edge(case, rec):
    """The target is the lowest attainable return, and several assets earn it."""
    means, covariance = market(case)
    w = PortfolioOptimizer(means, covariance).find_minimum_variance_portfolio(means.min())
    value, _ = quadratic(covariance, np.zeros(len(means)), np.array([np.ones(len(means)), means]), np.array([1.0, means.min()]), True)
    rec.nontrivial()
    close(w @ covariance @ w, 2 * value, 'variance of the minimum variance portfolio', 1e-3, 0)


TIED = {'means': [-0.025, -0.025, 0.0], 'loadings': [[0.0, 0.0, 0.0], [0.0, 0.01, 0.0]], 'own': [0.5], 'scale': 1.0, 'short': [False, True]}


def check_utility(case, rec):
    means, covariance = market(case)
    optimizer = PortfolioOptimizer(means, covariance)
    n = len(means)
    aversion = case['aversion'] / case['scale']
    wealth = case['wealth']
    for short in case['short']:
        w = optimizer.find_maximum_utility_portfolio(wealth, aversion / wealth, allow_short_positions=short)
        feasible(w, 'maximum utility portfolio', long_only=not short)
        value, best = quadratic(aversion * covariance, -means, np.ones((1, n)), np.array([1.0]), not short)
        got = 0.5 * aversion * w @ covariance @ w - means @ w
        size = abs(value) + np.abs(means).max() + 0.5 * aversion * abs(best @ covariance @ best)
        close(got, value, f'negative utility of the maximum utility portfolio (short={short})', 0, 1e-4 * size)
        rec.label('short' if short else 'long', 'interior' if best.min() > 1e-6 else 'at a bound')
    rec.nontrivial(n >= 3)


def check_frontier(case, rec):
    means, covariance = market(case)
    spread = means.max() - means.min()
    if spread < 0.02:
        raise Reject('all expected returns are (almost) the same')
    optimizer = PortfolioOptimizer(means, covariance)
    short = case['short'][0]
    step = spread / case['steps']
    if case['limits'] is None:
        lower, upper = means.min() + step, means.max() - step
        returns, volatilities, weights = optimizer.calculate_efficient_frontier(return_increment=step, allow_short_positions=short)
    else:
        a, b = (0.02 + 0.96 * x for x in sorted(case['limits']))
        lower, upper = means.min() + a * spread, means.min() + b * spread
        returns, volatilities, weights = optimizer.calculate_efficient_frontier(lower, upper, step, short)
    count = int(np.floor((upper - lower) / step + 1e-7)) + 1
    if upper < lower:
        count = 0
    ensure(len(returns) in (count, max(count - 1, 0)) if abs((upper - lower) / step - round((upper - lower) / step)) < 1e-7 else
           len(returns) == count, 'number of points on the frontier', len(returns), count)
    ensure(len(volatilities) == len(returns) == len(weights), 'lengths of the frontier')
    for i, target in enumerate(returns):
        close(target, lower + i * step, 'target return on the frontier', 1e-9, 1e-12)
        feasible(weights[i], 'portfolio on the frontier', long_only=not short)
        close(weights[i] @ means, target, 'expected return of a portfolio on the frontier', 0, 1e-6)
        close(volatilities[i] ** 2, weights[i] @ covariance @ weights[i], 'volatility on the frontier', 1e-9, 0)
        value, _ = quadratic(covariance, np.zeros(len(means)), np.array([np.ones(len(means)), means]), np.array([1.0, target]), not short)
        close(volatilities[i] ** 2, 2 * value, 'variance on the frontier', SLACK, 0)
    if len(returns):
        sharpe = optimizer.sharpe_ratio(returns, volatilities, case['free'])
        all_close(sharpe, [(r - case['free']) / v for r, v in zip(returns, volatilities)], 'Sharpe ratios', 1e-9, 1e-12)
    if len(returns) >= 3:           # variance is convex along the frontier
        v = volatilities ** 2
        ensure(np.all(v[:-2] + v[2:] - 2 * v[1:-1] >= -2 * SLACK * v.max()), 'the frontier is not convex', v)
    rec.nontrivial(len(returns) >= 3)


def cases(least=2, most=8, **more):
    sizes = st.integers(least, most)
    if most > 5:          # mostly few assets
        sizes = st.one_of(st.integers(least, 5), st.integers(least, 5), sizes)
    return sizes.flatmap(lambda n: st.fixed_dictionaries({
        'means': st.lists(floats(-0.1, 0.3, 3), min_size=n, max_size=n),
        'loadings': st.lists(st.lists(floats(-2, 2, 2), min_size=n, max_size=n), min_size=1, max_size=4),
        'own': st.lists(floats(0.5, 2, 1), min_size=1, max_size=5), 'scale': st.sampled_from([1.0, 0.04, 1e-3, 1e-5]),
        'short': st.permutations([True, False]), **more}))


PROPERTY = Property('C21', [
    Facet('minimum_variance', lambda: cases(target=floats(0, 1, 3)), check_minimum_variance, 'three assets or more', 400, 8000, 8, 8),
    Facet('edge', lambda: st.just(TIED), check_edge, 'two assets earn the target, which is the lowest attainable one', 1, 1),
    Facet('utility', lambda: cases(aversion=st.one_of(floats(0.05, 5, 2), floats(0.01, 0.5, 2)), wealth=st.sampled_from([1.0, 10.0, 0.5, 1000, 0.01])), check_utility,
          'three assets or more', 400, 8000, 8, 8),
    Facet('frontier', lambda: cases(steps=st.integers(3, 9), free=floats(-0.02, 0.1, 3),
                                    limits=st.one_of(st.none(), st.lists(floats(0, 1, 2), min_size=2, max_size=2))),
          check_frontier, 'three points or more on the frontier', 160, 3000, 8, 8),
    siblings(lambda: cases(3, 3, target=floats(0, 1, 3), aversion=floats(0.05, 5, 2), wealth=st.sampled_from([1.0, 10.0, 0.5, 1000, 0.01])),
             lambda c, r: (check_minimum_variance(c, r), check_utility(c, r)), 'optimizations', 40, 800),
], assumptions=['positive definite covariance, two to eight assets; target returns strictly inside the attainable range when short positions are not allowed'])
