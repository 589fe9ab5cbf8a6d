"""C26: bond prices, yields, forwards and covariances of the multivariate affine models."""
import math
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from ..affine import LARGE, PARAMETERS, build, horizon_of
from ..core import Facet, Property, Reject, all_close, close, ensure, expect_error, siblings
from ..gens import floats
from ..refs import clock, year_fraction
from ..stoch import RENEW, REUSE, SEEDS, grid_of, horizons, later, motion, purchase_and_maturity, step_of

from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import MultivariateVasicekModel, VasicekModel

REL = 1e-8


def check_affine(case, rec):
    grid = horizon_of(case)
    model, affine = build(case, grid)
    n = affine.dim
    model.generate_path(np.array(case['start'][:n]), set_path=True, seed=case['seed'])
    states = np.array(model.state_variables_diffusion_process.path)
    if case['model'] != 'general':         # the covariance of the shocks as it is shown
        all_close(model.variance_mat, affine.C, 'variance matrix', 1e-12, 1e-18)
    if np.abs(states).max() > 5:
        raise Reject('the increment is too coarse for the speed of reversion')
    all_close(model.path, affine.mu + affine.g @ states, 'short rate path', 1e-9, 1e-12)
    inside, last, asked = 0, None, None

    def renew(again, before):
        seed, set_path, shift = again
        rec.label('another path' if set_path else 'a path not set')
        model.generate_path(np.array(case['start'][:n]) + shift, set_path=set_path, seed=seed)
        if not set_path:
            return before
        path = np.array(model.state_variables_diffusion_process.path)
        if np.abs(path).max() > 5:
            raise Reject('the increment is too coarse for the speed of reversion')
        return path

    for op in case['ops']:
        name, u, days, seconds, reuse, again = op
        if again is not None:
            states = renew(again, states)
        purchase, maturity, given = purchase_and_maturity(grid, u, days, seconds, reuse, last)
        last = (purchase, maturity)
        name = asked = asked if asked and reuse and days % 2 else name      # often the same question about the same bond
        tau = year_fraction(purchase, maturity, grid.dcc)
        x = grid.interpolate(states, purchase)
        at = affine.at(tau, x)
        loss = affine.loss(x)
        more = [maturity, later(maturity, 30 + days // 2, 0), later(purchase, 7 + days // 3, 0)]
        if days % 4 == 0:          # many of them, also twice the same one
            more += [more[1], *[later(maturity, 11 * k, 0) for k in range(1, 6)]]
        if abs(at['log price']) > 30:
            continue
        price = math.exp(at['log price'])
        refuse = lambda call: expect_error(call, ValueError, f'{name} of a bond which matures at the purchase date')  # noqa: E731
        if name == 'price':
            close(model.zero_coupon_bond_price(maturity, **given), price, f'price at {purchase} of a bond maturing {maturity}', REL + loss, 0)
            close(model.zero_coupon_bond_price(purchase, **given), 1.0, 'price at maturity', 1e-9 + loss, 0)
        elif name == 'yield':
            close(model.zero_coupon_bond_yield(maturity, **given), -at['log price'] / tau, 'yield', REL, 1e-11 + loss / tau)
            refuse(lambda: model.zero_coupon_bond_yield(purchase, **given))
        elif name == 'state derivative':
            all_close(model.zero_coupon_bond_price_deriv_wrt_state_variables(maturity, **given), price * at['B'], 'derivative with respect to the state',
                      REL + loss, loss * price + 1e-13)
        elif name == 'maturity derivative':
            close(model.zero_coupon_price_deriv_wrt_maturity(maturity, **given), -price * at['forward'], 'derivative with respect to the maturity',
                  REL + loss, price * (loss + 1e-12))
        elif name == 'mean':
            all_close(model.expected_state_variable_mean(maturity, **given), at['mean'], 'expected state variables', REL, 1e-11 * affine.condition)
            close(model.expected_short_rate(maturity, **given), affine.mu + affine.g @ at['mean'], 'expected short rate', REL, 1e-11 * affine.condition)
        elif name == 'average':
            close(model.average_expected_short_rate(maturity, **given), at['average'], 'average expected short rate', REL, 1e-11 + loss / tau)
            refuse(lambda: model.average_expected_short_rate(purchase, **given))
        elif name == 'covariance':
            size = np.abs(affine.C).max() / affine.slow * 1e-12 * affine.condition ** 2
            all_close(model.state_variable_covariance(maturity, **given), at['covariance'], 'covariance of the state variables', REL, size)
            close(model.short_rate_variance(maturity, **given), affine.g @ at['covariance'] @ affine.g, 'variance of the short rate', REL, 9 * size)
        elif name == 'forward':
            close(model.instantaneous_forward_rate(maturity, **given), at['forward'], 'instantaneous forward rate', REL, 1e-11 + loss)
            close(model.instantaneous_forward_rate(purchase, **given), affine.mu + affine.g @ x, 'forward rate now', REL, 1e-11 + loss)
        else:
            terms = [year_fraction(purchase, d, grid.dcc) for d in more]
            ats = [affine.at(t, x) for t in terms]
            argument = iter(more) if case['seed'] % 2 else list(more)
            B = np.array([a['B'] / t for a, t in zip(ats, terms)])
            spread = 1e-10 * affine.condition ** 2 * np.abs(affine.C).max() * np.abs(affine.g).sum() ** 2
            if name == 'yield covariance':
                all_close(model.yield_covariance_matrix(argument, **given), B @ affine.C @ B.T, 'covariance of yields', REL, spread)
                close(model.yield_volatility(maturity, **given) ** 2, B[0] @ affine.C @ B[0], 'square of the yield volatility', REL, spread)
                refuse(lambda: model.yield_volatility(purchase, **given))
            elif name == 'forward covariance':
                slopes = np.array([a['dB'] for a in ats])
                all_close(model.instantaneous_forward_rate_covariance(argument, **given), slopes @ affine.C @ slopes.T, 'covariance of forward rates', REL, spread)
                close(model.instantaneous_forward_rate_volatility(maturity, **given) ** 2, slopes[0] @ affine.C @ slopes[0],
                      'square of the forward rate volatility', REL, spread)
                refuse(lambda: model.instantaneous_forward_rate_covariance([maturity, purchase], **given))
            elif name == 'price convexity':
                expected = [-0.5 * math.exp(a['log price']) * a['B'] @ affine.C @ a['B'] for a in ats]
                all_close(model.price_convexities(argument, **given), expected, 'price convexities', REL + loss, spread * max(terms) ** 2 * max(1, *[math.exp(a['log price']) for a in ats]))
                refuse(lambda: model.price_convexities([maturity, purchase], **given))
            else:
                close(model.yield_convexity(maturity, **given), -at['convexity'] / tau, 'yield convexity', REL, 1e-11 + 2 * loss / tau)
                refuse(lambda: model.yield_convexity(purchase, **given))
        inside += clock(purchase) > clock(grid.start)
        rec.label(name)
    ensure(np.array_equal(model.state_variables_diffusion_process.path, states), 'the path has changed')
    rec.label(case['model'], f'{n} state variables')
    rec.nontrivial(inside >= 1 and n >= 2)


def check_one_dimension(case, rec):
    """The multivariate model with one state variable is the Vasicek model; splitting the state is no change either."""
    grid = grid_of(case['horizon'])
    k, m, s = case['speeds'][0], case['level'], case['vols'][0]
    start, dt = case['start'][0], step_of(grid.dt)
    one = VasicekModel(reversion_level=m, reversion_speed=k, volatility=s, brownian_motion=motion(grid), dt=dt)
    many = MultivariateVasicekModel(short_rate_intercept=0.0, short_rate_coefficients=np.array([1.0]), reversion_level=np.array([m]),
                                    reversion_matrix=np.array([[k]]), volatility_matrix=np.array([[s]]), brownian_motion=motion(grid), dt=dt)
    # the short rate as the sum of two state variables of the same speed, one of them deterministic
    two = MultivariateVasicekModel(short_rate_intercept=0.01, short_rate_coefficients=np.array([1.0, 1.0]), reversion_level=np.array([m / 2, m / 2 - 0.01]),
                                   reversion_matrix=np.array([[k, 0.0], [0.0, k]]), volatility_matrix=np.array([[s, 0.0], [0.0, 0.0]]),
                                   brownian_motion=motion(grid, 2), dt=dt)
    path = one.generate_path(start, seed=case['seed'])
    if np.abs(path).max() > 5:
        raise Reject('the increment is too coarse for the speed of reversion')
    all_close(many.generate_path(np.array([start]), seed=case['seed']), path, 'path of the model with one state variable', 1e-9, 1e-12)
    two.generate_path(np.array([start / 2, start / 2 - 0.01]), seed=case['seed'])
    purchase = grid.start
    maturities = [later(purchase, d, 0) for d in case['days']]
    tolerance = dict(rel=1e-8, abs_=1e-9 * (1 + s ** 2 / k ** 3))
    for other in (many, two):
        for t in maturities:
            for name in ('zero_coupon_bond_price', 'zero_coupon_bond_yield', 'yield_volatility', 'yield_convexity', 'instantaneous_forward_rate',
                         'instantaneous_forward_rate_volatility', 'expected_short_rate', 'short_rate_variance', 'average_expected_short_rate'):
                close(getattr(other, name)(t), getattr(one, name)(t), f'{name} of {t} in two equal models', **tolerance)
        all_close(other.price_convexities(maturities), one.price_convexities(maturities), 'price convexities of two equal models', **tolerance)
    rec.nontrivial(s > 0)


NAMES = ['price', 'price', 'yield', 'state derivative', 'maturity derivative', 'mean', 'average', 'covariance', 'forward', 'yield covariance',
         'forward covariance', 'price convexity', 'yield convexity']
OPS = st.lists(st.tuples(st.sampled_from(NAMES), st.one_of(st.none(), floats(0, 1, 4), floats(0, 1, 4)),
                         st.one_of(st.integers(7, 400), st.integers(7, 8000)), st.sampled_from([0, 0, 3600, 86399]), REUSE, RENEW).map(list), min_size=1, max_size=5)
STARTS = st.lists(floats(-0.03, 0.15, 3), min_size=3, max_size=3)
MANY_STARTS = st.lists(floats(-0.03, 0.15, 3), min_size=5, max_size=5)
PROPERTY = Property('C26', [
    Facet('large', lambda: st.fixed_dictionaries({'horizon': horizons(max_count=10, coarse=True), **LARGE, 'start': MANY_STARTS, 'seed': SEEDS, 'ops': OPS}), check_affine,
          'several state variables and a purchase date after the start of the path', 120, 2400, 8, 8),
    Facet('formulas', lambda: st.fixed_dictionaries(
        {'horizon': horizons(max_count=10, coarse=True), **PARAMETERS, 'start': STARTS, 'seed': SEEDS, 'ops': OPS}), check_affine,
        'several state variables and a purchase date after the start of the path', 1600, 24000, 8, 8),
    Facet('one dimension', lambda: st.fixed_dictionaries(
        {'horizon': horizons(max_count=6, coarse=True), 'speeds': PARAMETERS['speeds'], 'level': PARAMETERS['level'], 'vols': PARAMETERS['vols'], 'start': STARTS,
         'seed': SEEDS, 'days': st.lists(st.integers(7, 8000), min_size=1, max_size=3)}), check_one_dimension, 'a positive volatility', 400, 6000, 4, 8),
    siblings(lambda: st.fixed_dictionaries({'horizon': horizons(max_count=6, coarse=True), **PARAMETERS, 'start': STARTS, 'seed': SEEDS, 'ops': OPS}), check_affine,
             'models', 100, 2000),
], assumptions=['ACT day counts; reversion matrices with positive real, well separated eigenvalues; bonds mature at least a week after the purchase date'])
