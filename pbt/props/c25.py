"""C25: bond prices, yields and volatilities of the Vasicek model."""
import math
from datetime import datetime, timedelta

import numpy as np
from hypothesis import strategies as st

from ..core import Facet, Property, all_close, close, ensure, expect_error, siblings
from ..gens import floats
from ..refs import clock, year_fraction
from ..stoch import RENEW, REUSE, SEEDS, grid_of, horizons, later, motion, purchase_and_maturity, step_of

from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import VasicekModel

NODES, WEIGHTS = np.polynomial.legendre.leggauss(24)


def integral(function, upper, scale):
    """Integral from 0 to `upper` over panels on which exp(-scale s) is smooth."""
    panels = max(1, math.ceil(upper * scale / 4))
    h = upper / panels
    total = 0.0
    for p in range(panels):
        total = total + h / 2 * sum(w * function(h * (p + (x + 1) / 2)) for x, w in zip(NODES, WEIGHTS))
    return total


class Reference:
    """dr = k (m - r) dt + s dW under the pricing measure."""

    def __init__(self, k, m, s):
        self.k, self.m, self.s = k, m, s

    def duration(self, tau):
        return integral(lambda u: np.exp(-self.k * u), tau, self.k)

    def mean(self, r, tau):
        return self.m + (r - self.m) * math.exp(-self.k * tau)

    def average(self, r, tau):
        return integral(lambda u: self.m + (r - self.m) * np.exp(-self.k * u), tau, self.k) / tau

    def variance(self, tau):
        return integral(lambda u: self.s ** 2 * np.exp(-2 * self.k * u), tau, 2 * self.k)

    def convexity_of_log(self, tau):
        """half the variance of the integrated short rate"""
        return integral(lambda u: 0.5 * self.s ** 2 * ((1 - np.exp(-self.k * u)) / self.k) ** 2, tau, 2 * self.k)

    def log_price(self, r, tau):
        return -self.average(r, tau) * tau + self.convexity_of_log(tau)

    def forward(self, r, tau):
        return self.mean(r, tau) - 0.5 * self.s ** 2 * self.duration(tau) ** 2


def check_vasicek(case, rec):
    grid = grid_of(case['horizon'])
    k, m, s = case['speed'], case['level'], case['volatility']
    model = VasicekModel(reversion_level=m, reversion_speed=k, volatility=s, brownian_motion=motion(grid), dt=step_of(grid.dt))
    reference = Reference(k, m, s)
    ensure((model.reversion_speed, model.long_term_mean, model.volatility) == (k, m, s), 'parameters')
    states = model.generate_path(np.array([case['start']]), set_path=True, seed=case['seed'])
    scale = 1 + np.abs(states).max()
    if scale > 10:
        rec.label('exploding path')
    inside, last, asked = 0, None, None

    def renew(again, before):
        seed, set_path, shift = again
        rec.label('another path' if set_path else 'a path not set')
        path = model.generate_path(np.array([case['start'] + shift]), set_path=set_path, seed=seed)
        return path if set_path else before

    for op in case['ops']:
        name, u, days, seconds, reuse, again = op
        if again is not None:
            states = renew(again, states)
        purchase, maturity, given = purchase_and_maturity(grid, u, days, seconds, reuse, last)
        last = (purchase, maturity)
        name = asked = asked if asked and reuse and days % 2 else name      # often the same question about the same bond
        scale = 1 + np.abs(states).max()
        tau = year_fraction(purchase, maturity, grid.dcc)
        r = float(grid.interpolate(states, purchase))
        # what rounding costs in the closed forms, which subtract nearly equal numbers for short terms
        loss = 2e-14 * (abs(m) + abs(r) + s ** 2 / k ** 2) / k * scale
        log_price = reference.log_price(r, tau)
        price = math.exp(log_price) if log_price < 600 else math.inf
        if price == math.inf:
            continue
        y = -log_price / tau
        if name == 'price':
            close(model.zero_coupon_bond_price(maturity, **given), price, f'price at {purchase} of a bond maturing {maturity}', 1e-9 + loss, 0)
            close(model.zero_coupon_bond_price(purchase, **given), 1.0, 'price at maturity', 1e-12, 0)
        elif name == 'yield':
            for method in (model.zero_coupon_yield, model.zero_coupon_bond_yield):
                close(method(maturity, **given), y, f'yield at {purchase} of a bond maturing {maturity}', 1e-9, 1e-11 + loss / tau)
            close(math.exp(-model.zero_coupon_bond_yield(maturity, **given) * tau), model.zero_coupon_bond_price(maturity, **given),
                  'price from the yield', 1e-9 + loss, 0)
        elif name == 'mean':
            close(model.expected_short_rate(maturity, **given), reference.mean(r, tau), 'expected short rate', 1e-10, 1e-12 * scale)
            close(model.expected_short_rate(purchase, **given), r, 'expected short rate now', 1e-10, 1e-12 * scale)
        elif name == 'average':
            close(model.average_expected_short_rate(maturity, **given), reference.average(r, tau), 'average expected short rate', 1e-9, 1e-12 + loss / tau)
        elif name == 'variance':
            close(model.short_rate_variance(maturity, **given), reference.variance(tau), 'variance of the short rate', 1e-9, 1e-15 * s ** 2 / k)
        elif name == 'forward':
            close(model.instantaneous_forward_rate(maturity, **given), reference.forward(r, tau), 'instantaneous forward rate', 1e-9, 1e-12 * scale + loss)
            close(model.instantaneous_forward_rate_volatility(maturity, **given), s * math.exp(-k * tau), 'volatility of the forward rate', 1e-10, 0)
            close(model.instantaneous_forward_rate(purchase, **given), r, 'forward rate now', 1e-9, 1e-12 * scale)
        elif name == 'yield volatility':
            close(model.yield_volatility(maturity, **given), s * reference.duration(tau) / tau, 'yield volatility', 1e-9, 1e-14 * s / (k * tau))
        elif name == 'yield convexity':
            maturity = later(grid.start, days, seconds)
            term = year_fraction(grid.start, maturity, grid.dcc)
            close(model.yield_convexity(maturity), -reference.convexity_of_log(term) / term, 'yield convexity', 1e-9, 2e-15 * s ** 2 / k ** 3 / term)
        else:
            dates = [maturity, later(maturity, 30 + days // 2, 0), later(purchase, 1 + days // 3, 0)]
            if days % 4 == 0:      # many of them, also twice the same one
                dates += [dates[1], *[later(maturity, 11 * k, 0) for k in range(1, 6)]]
            expected = []
            for d in dates:
                t = year_fraction(purchase, d, grid.dcc)
                expected.append(-0.5 * math.exp(reference.log_price(r, t)) * (s * reference.duration(t)) ** 2)
            got = model.price_convexities(iter(dates) if case['seed'] % 2 else dates, **given)
            all_close(got, expected, 'price convexities', 1e-8 + loss, 1e-14)
            expect_error(lambda: model.price_convexities([maturity, purchase], **given), ValueError, 'price convexity of a bond maturing now')
        inside += clock(purchase) > clock(grid.start)
        rec.label(name)
    ensure(np.array_equal(model.path, states), 'the path has changed')
    rec.nontrivial(inside >= 1 and s > 0)


NAMES = ['price', 'yield', 'mean', 'average', 'variance', 'forward', 'yield volatility', 'yield convexity', 'price convexities']
OPS = st.lists(st.tuples(st.sampled_from(NAMES), st.one_of(st.none(), floats(0, 1, 4), floats(0, 1, 4)),
                         st.one_of(st.integers(7, 400), st.integers(7, 14000)), st.sampled_from([0, 0, 3600, 86399]), REUSE, RENEW).map(list), min_size=1, max_size=6)
PROPERTY = Property('C25', [
    Facet('closed forms', lambda: st.fixed_dictionaries(
        {'horizon': horizons(max_count=12, coarse=True), 'speed': st.one_of(floats(0.02, 0.4, 3), floats(0.02, 3, 2)), 'level': floats(-0.02, 0.12, 3),
         'volatility': st.one_of(floats(0, 0.03, 4), floats(0, 0.1, 3)), 'start': floats(-0.03, 0.15, 3), 'seed': SEEDS, 'ops': OPS}), check_vasicek,
        'a purchase date after the start of the path and a positive volatility', 1600, 24000, 8, 8),
    siblings(lambda: st.fixed_dictionaries(
        {'horizon': horizons(max_count=8, coarse=True), 'speed': floats(0.02, 3, 2), 'level': floats(-0.02, 0.12, 3),
         'volatility': floats(0, 0.1, 3), 'start': floats(-0.03, 0.15, 3), 'seed': SEEDS, 'ops': OPS}), check_vasicek, 'models', 100, 2000),
], assumptions=['ACT day counts; bonds mature at least a week after the purchase date; reversion speeds of at least 0.02'])
