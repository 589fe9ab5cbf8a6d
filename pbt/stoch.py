"""Time grids, Brownian motions and path oracles for the checks of the stochastic models."""
from bisect import bisect_left
from datetime import date, datetime, timedelta

import numpy as np
from dateutil.relativedelta import relativedelta
from hypothesis import strategies as st

from .core import Reject, all_close, ensure
from .gens import dates, datetimes, floats
from .refs import ACT, D, clock, shift_months, year_fraction

from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion

LO, HI = date(1990, 1, 1), date(2045, 12, 31)
SEEDS = st.integers(0, 2 ** 32 - 1)


def step_of(dt):
    """The increment handed to the code under test."""
    kind, n = dt
    if kind == 'timedelta':
        return timedelta(days=n)
    if kind == 'seconds':
        return timedelta(seconds=n)
    return relativedelta(**{kind: n})


def at_step(start, dt, k):
    kind, n = dt
    if kind == 'months':
        return shift_months(start, n * k)
    if kind == 'years':
        return shift_months(start, 12 * n * k)
    if kind == 'seconds':
        return start + timedelta(seconds=n * k)
    if kind == 'hours':
        return start + timedelta(hours=n * k)
    return start + timedelta(days=n * k)


class Grid:
    """start, start + dt, start + 2 dt, ... and the end."""

    def __init__(self, start, end, dt, dcc='ACTUAL_OVER_ACTUAL'):
        self.start, self.end, self.dt, self.dcc = start, end, dt, dcc
        self.regular, k = [], 0
        while at_step(start, dt, k) <= end:
            self.regular.append(at_step(start, dt, k))
            k += 1
            if k > 5000:
                raise Reject('grid too fine')
        self.times = self.regular + ([end] if self.regular[-1] < end else [])
        self.lengths = np.array([year_fraction(a, b, dcc) for a, b in zip(self.times, self.times[1:])])

    def interpolate(self, path, t):
        """Path value(s) at t, linear in day-count time between grid points."""
        i = bisect_left([clock(x) for x in self.times], clock(t))
        if clock(self.times[i]) == clock(t):
            return path[..., i]
        a, b = self.times[i - 1], self.times[i]
        w = year_fraction(a, t, self.dcc) / year_fraction(a, b, self.dcc)
        return path[..., i - 1] + w * (path[..., i] - path[..., i - 1])

    def moment(self, u):
        """A moment within the horizon, for 0 <= u <= 1: a grid point or in between."""
        if u >= 1:
            return self.end
        if not isinstance(self.start, datetime):
            return self.start + timedelta(days=int(u * (self.end - self.start).days))
        span = (self.end - self.start).total_seconds()
        return self.start + timedelta(seconds=int(u * span))


def purchase_and_maturity(grid, u, days, seconds, reuse, last):
    """The purchase date and maturity of a question; `reuse` asks about the bond of the last question again, or about one bought or maturing days away."""
    purchase = grid.start if u is None else grid.moment(u)
    maturity = later(purchase, days, seconds)
    if last and reuse:
        kind, shift = reuse
        before, matured = last
        moved = later(before, shift, 0)
        if kind == 'bond' and clock(matured) >= clock(later(purchase, 7, 0)):
            maturity = matured
        elif kind == 'purchase' and clock(moved) <= clock(grid.end) and clock(matured) >= clock(later(moved, 7, 0)):
            purchase, maturity, u = moved, matured, u or 0.0
        elif kind == 'maturity' and clock(matured) >= clock(later(before, 7, 0)):
            purchase, maturity, u = before, later(matured, shift, 0), u or 0.0
    return purchase, maturity, ({} if u is None else {'purchase_date': purchase})


REUSE = st.one_of(st.none(), st.tuples(st.sampled_from(['bond', 'purchase', 'maturity']), st.sampled_from([0, 1, 2, 10, 25])).map(list))


RENEW = st.one_of(*[st.none()] * 5, st.tuples(SEEDS, st.sampled_from([True, True, False]), floats(-0.02, 0.02, 3)).map(list))


def later(t, days, seconds):
    return t + timedelta(days=days) + (timedelta(seconds=seconds) if isinstance(t, datetime) else timedelta())


def dts(max_count=40, coarse=False):
    """(increment, horizon in increments, days beyond the last one)"""
    kinds = [st.tuples(st.just('months'), st.sampled_from([1, 3, 6, 12])),
             st.tuples(st.just('years'), st.sampled_from([1, 2])),
             st.tuples(st.just('timedelta'), st.integers(20, 400)),
             st.tuples(st.just('days'), st.integers(20, 400))]
    if not coarse:
        kinds += [st.tuples(st.just('hours'), st.sampled_from([1, 5, 12, 24, 36])),
                  st.tuples(st.just('days'), st.integers(1, 10)),
                  st.tuples(st.just('seconds'), st.integers(600, 10 ** 6))]
    return st.one_of(*kinds).map(list)


def horizons(max_count=30, coarse=False, only_datetimes=False):
    starts = datetimes(LO, HI) if only_datetimes else st.one_of(datetimes(LO, HI), datetimes(LO, HI), dates(LO, HI))
    return st.fixed_dictionaries({'start': starts, 'dt': dts(coarse=coarse), 'count': st.integers(1, max_count),
                                  'extra': st.one_of(st.just(0), floats(0, 1, 3)), 'dcc': st.sampled_from(ACT)})


def grid_of(spec, dt=None, dcc=None):
    start = D(spec['start'])
    count, first = spec['count'], spec['dt']
    if not isinstance(start, datetime) and first[0] in ('hours', 'seconds'):
        first = ['timedelta', 1 + first[1] % 300]
    last, after = at_step(start, first, count), at_step(start, first, count + 1)
    if isinstance(start, datetime):
        end = last + timedelta(seconds=int((after - last).total_seconds() * spec['extra']))
    else:
        end = last + timedelta(days=int((after - last).days * spec['extra']))
    if dt is not None and not isinstance(start, datetime) and dt[0] in ('hours', 'seconds'):
        dt = ['timedelta', 1 + dt[1] % 300]
    return Grid(start, end, first if dt is None else dt, dcc or spec['dcc'])


def fits(grid, dt):
    """An increment of which at most a few hundred fit into the horizon."""
    if not isinstance(grid.start, datetime) and dt[0] in ('hours', 'seconds'):
        dt = ['timedelta', 1 + dt[1] % 300]
    length = clock(at_step(grid.start, dt, 1)) - clock(grid.start)
    while (clock(grid.end) - clock(grid.start)) / length > 60:
        dt = [dt[0], dt[1] * 4]
        length *= 4
    return dt


CORRELATIONS = st.lists(st.lists(floats(-1, 1, 2), min_size=3, max_size=3), min_size=3, max_size=3)


def correlation_of(rows, dim):
    """A well-conditioned correlation matrix (None: the default, no correlation)."""
    if rows is None:
        return None
    a = np.array(rows)[:dim, :dim]
    c = a @ a.T + 0.3 * np.eye(dim)
    d = 1 / np.sqrt(np.diag(c))
    out = c * d[:, None] * d[None, :]
    np.fill_diagonal(out, 1.0)
    return out


def motion(grid, dim=1, correlation=None):
    return BrownianMotion(start_date_time=grid.start, end_date_time=grid.end, dimension=dim,
                          correlation_matrix=None if correlation is None else correlation.copy(),
                          day_count_convention=DayCountConvention[grid.dcc])


def twin_increments(grid, dim, correlation, seed):
    """The increments of an identically constructed Brownian motion."""
    return np.array(motion(grid, dim, correlation).generate_increments(step_of(grid.dt), seed=seed)[0])
