"""Multivariate affine models: generated parameters, real models, and an oracle by matrix exponentials and quadrature."""
import math

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from .core import Reject
from .gens import floats, table
from .stoch import CORRELATIONS, correlation_of, grid_of, motion, step_of

from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import DoublyMeanRevertingVasicek
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.stochastic_market_price_of_risk import StochasticMarketPriceOfRisk
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.trebly_mean_reverting_vasicek import TreblyMeanRevertingVasicek
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import MultivariateVasicekModel

NODES, WEIGHTS = np.polynomial.legendre.leggauss(28)


class Affine:
    """dX = K (level - X) dt + noise with covariance C dt; r = mu + g.X, under the pricing measure."""

    def __init__(self, mu, g, level, K, C):
        self.mu, self.g, self.level, self.K, self.C = mu, np.array(g, float), np.array(level, float), np.array(K, float), np.array(C, float)
        self.dim = len(self.g)
        values, vectors = np.linalg.eig(self.K)
        if np.abs(values.imag).max() > 0 or values.real.min() < 0.01:
            raise Reject('the reversion matrix has no positive real eigenvalues')
        self.slow, self.fast = values.real.min(), values.real.max()
        self.condition = np.linalg.cond(vectors)
        if self.condition > 300:
            raise Reject('the reversion matrix is almost defective')

    def nodes(self, tau):
        panels = max(1, math.ceil(2 * self.fast * tau / 8))
        h = tau / panels
        s = np.concatenate([h * (p + (NODES + 1) / 2) for p in range(panels)])
        return s, np.tile(h / 2 * WEIGHTS, panels)

    def transition(self, s):
        return scipy.linalg.expm(-np.asarray(s)[..., None, None] * self.K)

    def at(self, tau, x):
        """Everything at once for a term tau and a state x."""
        s, w = self.nodes(tau)
        flow = self.transition(s)
        end = self.transition(tau)
        covariance = np.einsum('n,nij,jk,nlk->il', w, flow, self.C, flow)
        average_flow = np.einsum('n,nij->ij', w, flow)
        # B(s) = -int_0^s exp(-K' u) g du = -(K')^-1 (1 - exp(-K' s)) g
        inverse = np.linalg.inv(self.K.T)
        loads = -np.einsum('ij,njk,k->ni', inverse, np.eye(self.dim) - np.swapaxes(flow, 1, 2), self.g)
        B = -average_flow.T @ self.g
        drift = self.K @ self.level
        convexity = 0.5 * np.einsum('n,ni,ij,nj->', w, loads, self.C, loads)
        A = -self.mu * tau + w @ loads @ drift + convexity
        slope_B = -end.T @ self.g
        slope_A = -self.mu + B @ drift + 0.5 * B @ self.C @ B
        mean = self.level + end @ (x - self.level)
        average = self.mu + self.g @ (self.level + average_flow @ (x - self.level) / tau)
        return {'A': A, 'B': B, 'dA': slope_A, 'dB': slope_B, 'mean': mean, 'average': average, 'covariance': covariance,
                'convexity': convexity, 'log price': A + B @ x, 'forward': -slope_A - slope_B @ x}

    def loss(self, x):
        """What rounding may cost in the closed forms."""
        size = abs(self.mu) + np.abs(self.g).sum() * (np.abs(self.level).max() + np.abs(x).max()) + \
            np.abs(self.g).sum() ** 2 * np.abs(self.C).max() / self.slow ** 2
        return 4e-15 * self.condition ** 2 * size / self.slow


def correlated(vols, correlation):
    return np.diag(vols) @ correlation @ np.diag(vols)


def pair_correlation(rows, dim):
    return np.eye(dim) if rows is None else correlation_of(rows, dim)


def build(case, grid):
    """(model, Affine)"""
    kind, p = case['model'], case
    speeds, vols, c = case['speeds'], case['vols'], case['correlation']
    ends = {'start_datetime': grid.start, 'end_datetime': grid.end, 'dt': step_of(grid.dt)}
    if kind == 'doubly':
        r = pair_correlation(c, 2)
        model = DoublyMeanRevertingVasicek(short_rate_reversion_speed=speeds[0], short_rate_volatility=vols[0], long_term_mean=p['level'],
                                           long_term_reversion_speed=speeds[1], long_term_volatility=vols[1],
                                           short_rate_long_term_correlation=r[0, 1], **ends)
        K = [[speeds[1], 0], [-speeds[0], speeds[0]]]
        flip = np.array([[1, r[0, 1]], [r[0, 1], 1]])
        return model, Affine(0.0, [0, 1], [p['level']] * 2, K, correlated([vols[1], vols[0]], flip))
    if kind == 'trebly':
        r = pair_correlation(c, 3)           # order: long, medium, short
        model = TreblyMeanRevertingVasicek(
            short_rate_reversion_speed=speeds[0], short_rate_volatility=vols[0], medium_rate_reversion_speed=speeds[1], medium_rate_volatility=vols[1],
            long_term_mean=p['level'], long_term_reversion_speed=speeds[2], long_term_volatility=vols[2], short_rate_medium_rate_correlation=r[1, 2],
            short_rate_long_term_correlation=r[0, 2], medium_rate_long_term_correlation_correlation=r[0, 1], **ends)
        K = [[speeds[2], 0, 0], [-speeds[1], speeds[1], 0], [0, -speeds[0], speeds[0]]]
        return model, Affine(0.0, [0, 0, 1], [p['level']] * 3, K, correlated(vols[::-1], r))
    if kind == 'risk':
        r = pair_correlation(c, 3)           # order: market price of risk, medium, short
        risk_vol = vols[2] * 5
        model = StochasticMarketPriceOfRisk(
            short_rate_reversion_speed=speeds[0], short_rate_vol=vols[0], medium_rate_reversion_speed=speeds[1], medium_rate_vol=vols[1],
            medium_rate_mean=p['level'], market_price_of_risk_reversion_speed=speeds[2], market_price_of_risk_vol=risk_vol,
            market_price_of_risk_mean=p['intercept'] * 3, short_rate_medium_rate_correlation=r[1, 2],
            short_rate_market_price_of_risk_correlation=r[0, 2], medium_rate_market_price_of_risk_correlation=r[0, 1], **ends)
        # d theta = k (theta_inf - theta) dt + lambda sigma dt
        K = np.array([[speeds[2], 0, 0], [-vols[1], speeds[1], 0], [0, -speeds[0], speeds[0]]])
        drift = np.array([speeds[2] * p['intercept'] * 3, speeds[1] * p['level'], 0.0])
        return model, Affine(0.0, [0, 0, 1], np.linalg.solve(K, drift), K, correlated([risk_vol, vols[1], vols[0]], r))
    dim = case['dim']
    base = np.eye(dim) + 0.4 * np.array(case['rows'])[:dim, :dim] * (1 - np.eye(dim))
    if abs(np.linalg.det(base)) < 0.05:
        raise Reject('the directions of reversion are almost dependent')
    K = base @ np.diag(speeds[:dim]) @ np.linalg.inv(base)
    loads = np.diag(vols[:dim]) @ (np.eye(dim) + 0.5 * np.array(case['loads'])[:dim, :dim])
    levels = case['level'] * (1 + np.array(case['rows'])[0, :dim])
    weights = np.array(case['weights'][:dim])
    correlation = correlation_of(c, dim)
    C = loads @ (np.eye(dim) if correlation is None else correlation) @ loads.T
    affine = Affine(case['intercept'], weights, levels, K, C)
    model = MultivariateVasicekModel(short_rate_intercept=case['intercept'], short_rate_coefficients=weights.copy(), reversion_level=levels.copy(),
                                     reversion_matrix=K.copy(), volatility_matrix=loads.copy(), brownian_motion=motion(grid, dim, correlation), dt=step_of(grid.dt))
    return model, affine


def speeds():
    """Three speeds which are not close to each other."""
    return st.tuples(floats(0.03, 0.3, 3), floats(1.25, 4, 2), floats(1.25, 4, 2), st.permutations([0, 1, 2])).map(
        lambda t: [[t[0], round(t[0] * t[1], 4), round(t[0] * t[1] * t[2], 4)][i] for i in t[3]])


ROWS = st.lists(st.lists(floats(-1, 1, 2), min_size=3, max_size=3), min_size=3, max_size=3)
PARAMETERS = {
    'model': st.sampled_from(['doubly', 'trebly', 'risk', 'general', 'general', 'general']), 'dim': st.integers(1, 3), 'speeds': speeds(),
    'vols': st.lists(floats(0.001, 0.03, 4), min_size=3, max_size=3), 'correlation': st.one_of(st.none(), CORRELATIONS, CORRELATIONS),
    'level': floats(-0.01, 0.12, 3), 'intercept': floats(-0.02, 0.05, 3), 'rows': ROWS, 'loads': ROWS,
    'weights': st.lists(floats(-1, 1.5, 2), min_size=3, max_size=3)}


# general models with more state variables than the named ones have
LARGE = {**PARAMETERS, 'model': st.just('general'), 'dim': st.integers(4, 5), 'rows': table(5, 5), 'loads': table(5, 5),
         'speeds': st.tuples(floats(0.05, 0.3, 3), st.permutations(range(5))).map(lambda t: [round(t[0] * 1.7 ** i, 4) for i in t[1]]),
         'vols': st.lists(floats(0.001, 0.03, 4), min_size=5, max_size=5), 'correlation': st.one_of(st.none(), table(5, 5), table(5, 5)),
         'weights': st.lists(floats(-1, 1.5, 2), min_size=5, max_size=5)}


def horizon_of(case):
    """The models which create their Brownian motion use its default day count convention."""
    return grid_of(case['horizon'], dcc=None if case['model'] == 'general' else 'ACTUAL_OVER_ACTUAL')
