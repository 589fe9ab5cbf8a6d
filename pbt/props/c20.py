"""C20: portfolios."""
from datetime import timedelta

from hypothesis import strategies as st

from .. import refs
from ..core import Facet, Property, close, ensure, number, siblings
from ..gens import floats
from ..yieldtools import (YieldModel, build_yield_curve, cashflow_of, curve_specs, large_curve_specs, payments_of, tents)

from fixedIncome.src.assets.base_cashflow import CashflowCollection, CashflowKeys, ZeroCoupon
from fixedIncome.src.curves.base_curve import KnotValuePair
from fixedIncome.src.portfolio.base_portfolio import Portfolio, PortfolioEntry
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention


class Asset(CashflowCollection):
    """An asset with several payments; its knot is its last payment."""

    def __init__(self, payments):
        self.payments = payments
        super().__init__([cashflow_of(payments)], [CashflowKeys.COUPON_PAYMENTS])

    def to_knot_value_pair(self):
        return KnotValuePair(max(d for d, _ in self.payments), 1.0)

    def present_value(self, discount_curve):
        return self[CashflowKeys.COUPON_PAYMENTS].present_value(discount_curve)


def entries_of(model, specs):
    out = []
    for kind, quantity, fractions in specs:
        payments = payments_of(model, fractions)
        if kind == 'again' and out:        # another position in an asset that is there already
            out.append((quantity, *out[len(fractions) % len(out)][1:]))
            continue
        if kind == 'zero':
            payments = [(payments[0][0], 1.0)]
            asset = ZeroCoupon(payment_date=payments[0][0], price=0.9)
        else:
            asset = Asset(payments)
        out.append((quantity, asset, payments))
    return out


def check_portfolio(case, rec):
    model = YieldModel(case['curve'])
    curve = build_yield_curve(case['curve'])
    discount = curve.to_discount_curve()
    parts = entries_of(model, case['assets'])
    entries = [PortfolioEntry(quantity=q, asset=a) for q, a, _ in parts]
    portfolio = Portfolio(iter(entries), case['cash'])
    scale = 1 + abs(case['cash']) + sum(abs(q) * sum(abs(a) for _, a in p) for q, _, p in parts)
    expected = case['cash'] + sum(q * model.present_value(p) for q, _, p in parts)
    close(portfolio.present_value(discount), expected, 'present value', 1e-10, 1e-10 * scale)
    close(discount.present_value(portfolio), expected, 'present value from the discount curve', 1e-10, 1e-10 * scale)
    close(curve.present_value(portfolio), expected, 'present value from the yield curve', 1e-10, 1e-10 * scale)
    ensure(list(portfolio) == entries and portfolio.assets == entries and portfolio.cash_amount == case['cash'], 'entries')
    for _ in range(2):
        got = []
        while len(got) <= len(entries):
            try:
                got.append(next(portfolio))
            except StopIteration:
                break
        ensure(got == entries, 'entries by next()', len(got), len(entries))
    count = 0
    for first in portfolio:
        for second in portfolio:
            count += 1
            ensure(count <= len(entries) ** 2, 'nested loops do not end')
    ensure(count == len(entries) ** 2, 'nested loops', count)
    # splitting a portfolio does not change its value; cash counts once
    cut = case['cut'] % (len(entries) + 1)
    halves = Portfolio(entries[:cut], case['cash']), Portfolio(entries[cut:])
    close(sum(h.present_value(discount) for h in halves), expected, 'value of the two halves', 1e-10, 1e-10 * scale)
    close(Portfolio([], case['cash']).present_value(discount), case['cash'], 'value of cash', 1e-12, 1e-12)
    close(Portfolio([PortfolioEntry(2 * q, a) for q, a, _ in parts], 2 * case['cash']).present_value(discount), 2 * expected,
          'value of twice the portfolio', 1e-10, 1e-10 * scale)
    knots = sorted({max(d for d, _ in p) for _, _, p in parts})
    if parts:
        rates = portfolio.to_key_rate_collection(DayCountConvention[case['curve']['dcc']])
        ensure([kr.key_rate_date for kr in rates] == knots, 'key rates of the portfolio', [kr.key_rate_date for kr in rates], knots)
        bumps = tents(knots, [0.0001] * len(knots), case['curve']['dcc'])
        for kr, tent in zip(rates, bumps):
            for d in knots + [model.reference, model.dates[-1]]:
                close(kr(d), tent(d), f'key rate {kr.key_rate_date} on {d}', 1e-9, 1e-15)
            up = lambda d, f=tent: f(d) / 2  # noqa: E731
            want = sum(q * (model.present_value(p, up) - model.present_value(p, lambda d: -up(d))) for q, _, p in parts)
            close(curve.calculate_pv01_risk(portfolio, kr).pv01, want, f'PV01 of key rate {kr.key_rate_date}', 1e-5, 1e-10 * scale)
        rec.nontrivial(len(parts) >= 2)
        if len(knots) < len(parts):
            rec.label('assets with the same last payment')
    rec.label(f'{len(parts)} assets')


LEGS = st.lists(st.tuples(st.one_of(floats(0.01, 1, 3), floats(0.01, 1, 3), st.sampled_from([0.0, 1.0])), floats(-150, 150, 2)), min_size=1, max_size=4)
ASSET = st.tuples(st.sampled_from(['zero', 'asset', 'asset', 'again']), st.one_of(floats(-20, 20, 2), st.integers(-5, 5)), LEGS).map(list)
PROPERTY = Property('C20', [
    Facet('large', lambda: st.fixed_dictionaries(
        {'curve': large_curve_specs(), 'assets': st.lists(ASSET, min_size=6, max_size=20), 'cash': st.one_of(st.just(0.0), floats(-1000, 1000, 2)),
         'cut': st.integers(0, 20)}), check_portfolio, 'two assets or more', 16, 400, 8, 8),
    Facet('value', lambda: st.fixed_dictionaries(
        {'curve': curve_specs(max_knots=4), 'assets': st.lists(ASSET, max_size=5), 'cash': st.one_of(st.just(0.0), floats(-1000, 1000, 2)),
         'cut': st.integers(0, 5)}), check_portfolio, 'two assets or more', 320, 6000, 8, 8),
    siblings(lambda: st.fixed_dictionaries(
        {'curve': curve_specs(max_knots=4), 'assets': st.lists(ASSET, max_size=3), 'cash': st.one_of(st.just(0.0), floats(-1000, 1000, 2)),
         'cut': st.integers(0, 5)}), check_portfolio, 'portfolios or curves', 60, 1000, nested=('curve',)),
])
