"""C27: the riskless portfolio of zero-coupon bonds."""
import math
from datetime import timedelta

import numpy as np
from hypothesis import strategies as st

from ..affine import LARGE, PARAMETERS, build, horizon_of
from ..core import Facet, Property, Reject, all_close, close, ensure
from ..gens import floats
from ..refs import year_fraction
from ..stoch import SEEDS, horizons
from .c26 import MANY_STARTS, STARTS


def check_riskless(case, rec):
    grid = horizon_of(case)
    model, affine = build(case, grid)
    n = affine.dim
    model.generate_path(np.array(case['start'][:n]), set_path=True, seed=case['seed'])
    states = np.array(model.state_variables_diffusion_process.path)
    if np.abs(states).max() > 5:
        raise Reject('the increment is too coarse for the speed of reversion')
    solved = 0
    for u, gaps, style in case['portfolios']:
        purchase = grid.start if u is None else grid.moment(u)
        given = {} if u is None else {'purchase_date': purchase}
        x = grid.interpolate(states, purchase)
        days = np.cumsum(gaps[:n + 1])
        maturities = [purchase + timedelta(days=int(d)) for d in days]
        if style == 'reversed':
            maturities = maturities[::-1]
        ats = [affine.at(year_fraction(purchase, t, grid.dcc), x) for t in maturities]
        if max(abs(a['log price']) for a in ats) > 30:
            continue
        prices = np.array([math.exp(a['log price']) for a in ats])
        slopes = np.array([p * a['B'] for p, a in zip(prices, ats)])              # bond x state variable
        condition = np.linalg.cond(np.vstack([slopes.T, np.ones(n + 1)]))
        if condition > 1e6:
            continue
        expected = np.linalg.solve(np.vstack([slopes.T, np.ones(n + 1)]), np.append(np.zeros(n), 1.0))
        size = np.abs(expected).max()
        tolerance = (1e-13 + affine.loss(x)) * condition * max(1.0, size)
        pack = (lambda: iter(maturities)) if style == 'iterator' else (lambda: list(maturities))
        weights = model.weights_for_riskless_portfolio(pack(), **given)
        all_close(weights, expected, 'weights of the riskless portfolio', 1e-8, 1e-8 + tolerance * condition)
        close(sum(weights), 1.0, 'sum of the weights', 0, 1e-11 * size * n + 1e-10)
        exposure = slopes.T @ weights
        ensure(np.abs(exposure).max() <= (1e-10 + tolerance) * np.abs(slopes).max() * max(1.0, size), 'the portfolio depends on the state variables', exposure)
        weights = np.array(weights)
        convexities = np.array([0.5 * p * a['B'] @ affine.C @ a['B'] for p, a in zip(prices, ats)])
        convexity = model.riskless_portfolio_convexity(pack(), **given)
        close(convexity, weights @ convexities, 'convexity of the riskless portfolio', 1e-8, (1e-10 + tolerance) * np.abs(weights * convexities).sum())
        # without risk, the portfolio earns the short rate
        decay = np.array([model.zero_coupon_price_deriv_wrt_maturity(t, **given) for t in maturities])
        values = np.array([model.zero_coupon_bond_price(t, **given) for t in maturities])
        terms = np.abs(weights) @ (np.abs(decay) + np.abs(values) * 0.1 + convexities)
        close(convexity - weights @ decay, (affine.mu + affine.g @ x) * (weights @ values), 'return of the riskless portfolio', 1e-8,
              (1e-9 + tolerance) * terms)
        solved += 1
        rec.label(f'{n} state variables', style)
    if not solved:
        raise Reject('the bonds do not span the state variables')
    rec.label(case['model'])
    rec.nontrivial(n >= 2)


GAPS = st.lists(st.integers(200, 2500), min_size=4, max_size=4)
PROPERTY = Property('C27', [
    Facet('large', lambda: st.fixed_dictionaries(
        {'horizon': horizons(max_count=8, coarse=True), **LARGE, 'start': MANY_STARTS, 'seed': SEEDS,
         'portfolios': st.lists(st.tuples(st.one_of(st.none(), floats(0, 1, 4)), st.lists(st.integers(400, 2500), min_size=6, max_size=6), st.sampled_from(['list', 'iterator', 'reversed'])).map(list),
                                min_size=1, max_size=2)}), check_riskless, 'two state variables or more', 64, 1600, 8, 8),
    Facet('portfolio', lambda: st.fixed_dictionaries(
        {'horizon': horizons(max_count=8, coarse=True), **PARAMETERS, 'start': STARTS, 'seed': SEEDS,
         'portfolios': st.lists(st.tuples(st.one_of(st.none(), floats(0, 1, 4)), GAPS, st.sampled_from(['list', 'iterator', 'reversed'])).map(list),
                                min_size=1, max_size=3)}), check_riskless, 'two state variables or more', 1200, 16000, 8, 8),
], assumptions=['bonds whose prices span the state variables (condition number below 1e6)'])
