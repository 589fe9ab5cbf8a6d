"""C09: accrued interest and full price."""
from datetime import timedelta

from hypothesis import strategies as st

from .. import refs
from ..bonds import Model, bond_specs, build, tenors
from ..core import Facet, Property, close, ensure, expect_error, number, siblings
from .c08 import AT, FREQUENCIES


def tolerance(model):
    return 1e-10 * (1 + abs(model.coupon))


def check_accrued(case, rec):
    model = Model(case)
    bond = build(case, model)
    got = number(bond.accrued_interest, 'accrued interest')
    expected = model.accrued(model.purchase)
    close(got, expected, f'accrued interest settling {model.settlement}', 1e-10, tolerance(model))
    close(bond.calculate_accrued_interest(), expected, 'recomputed accrued interest', 1e-10, tolerance(model))
    ensure(-1e-12 <= got <= model.coupon * (1 + 1e-12) + 1e-12, 'accrued interest outside [0, coupon]', got, model.coupon)
    close(bond.full_price, model.full_price(model.purchase), 'full price', 1e-10, 1e-9)
    close(bond.get_full_price(), model.full_price(model.purchase), 'recomputed full price', 1e-10, 1e-9)
    if not model.unadjusted:
        close(got, 0.0, 'a zero-coupon bond accrues', 0, 0)
    rec.nontrivial(0 < expected < model.coupon)
    settle = model.settlement
    rec.label(case['cls'], case['dcc'], 'first period' if model.unadjusted and settle <= model.unadjusted[0] else 'later period',
              'on a coupon date' if settle in model.unadjusted else '',
              'just after a coupon' if any(0 < (settle - u).days <= 5 for u in model.unadjusted) else '')


def check_history(case, rec):
    """Quotes as of other dates are right, and asking for them leaves the bond as it was."""
    model = Model(case)
    bond = build(case, model)
    first = (number(bond.accrued_interest, 'accrued'), number(bond.full_price, 'full price'))
    for kind, at in case['ops']:
        when = model.date_at(at)
        if kind == 'accrued':
            close(bond.calculate_accrued_interest(when), model.accrued(when), f'accrued interest if bought on {when}',
                  1e-10, tolerance(model))
        elif kind == 'full':
            close(bond.get_full_price(when), model.full_price(when), f'full price if bought on {when}', 1e-10, 1e-9)
        elif kind == 'ytm' and model.unadjusted and (model.maturity - when).days > 60:
            bond.yield_to_maturity(when)
        elif kind == 'discount' and model.unadjusted:
            bond.discount_cashflows_by_fixed_rate(0.03, when)
        ensure((bond.accrued_interest, bond.full_price) == first, f'asking for a {kind} on {when} changed the bond',
               (bond.accrued_interest, bond.full_price), first)
        close(bond.calculate_accrued_interest(), first[0], f'accrued interest at purchase after a {kind} on {when}', 1e-10,
              tolerance(model))
        ensure(bond.settlement_date == model.settlement, f'a {kind} on {when} moved the settlement', bond.settlement_date)
        close(bond.get_full_price(), first[1], f'full price at purchase after a {kind} on {when}', 1e-10, 1e-9)
        close(bond.calculate_accrued_interest(), first[0], f'accrued interest after a {kind} on {when}', 1e-10, tolerance(model))
        ensure(bond.settlement_date == model.settlement, f'a {kind} on {when} moved the settlement', bond.settlement_date)
        close(bond.calculate_accrued_interest(model.purchase), first[0], 'accrued interest at the purchase date', 1e-10,
              tolerance(model))
    rec.nontrivial(len(case['ops']) >= 2 and case['coupon'] > 0)


def check_edges(case, rec):
    """Every purchase date around the first coupon dates and the last ones, where the period changes."""
    model = Model(case)
    bond = build(case, model)
    ends = model.unadjusted[:3] + model.unadjusted[-2:]
    for end in ends:
        for shift in range(-5, 5):
            when = end + timedelta(days=shift)
            settled = model.settle(when)
            if when < model.dated or settled > model.maturity:
                continue
            close(bond.calculate_accrued_interest(when), model.accrued(when),
                  f'accrued interest if bought on {when}, settling {settled}', 1e-10, tolerance(model))
            close(bond.get_full_price(when), model.full_price(when), f'full price if bought on {when}', 1e-10, 1e-9)
            adjusted = model.adjust(end)
            if end < settled <= adjusted:
                rec.label(case['cls'] + ': between a coupon date and its payment' + (' (first coupon)' if end == ends[0] else ''))
                rec.nontrivial(model.coupon > 0)


def check_growth(case, rec):
    """Within a coupon period accrued interest grows with the settlement date; it resets after a coupon."""
    model = Model(case)
    bond = build(case, model)
    when = model.purchase
    values = []
    for k in range(14):
        day = when + timedelta(days=k * case['stride'])
        if model.settle(day) > model.maturity:
            break
        values.append((model.settle(day), number(bond.calculate_accrued_interest(day), 'accrued interest')))
    for (s0, a0), (s1, a1) in zip(values, values[1:]):
        crossed = any(s0 <= u < s1 for u in model.unadjusted)
        if not crossed:
            ensure(a1 >= a0 - 1e-9 * (1 + model.coupon), 'accrued interest falls within a coupon period', s0, a0, s1, a1)
        else:
            rec.nontrivial(model.coupon > 0)
            if any(u == s1 - timedelta(days=1) for u in model.unadjusted):
                ensure(a1 <= 0.06 * model.coupon + 1e-9, 'accrued interest is not reset after a coupon', s1, a1)
    before = model.dated - timedelta(days=12)
    expect_error(lambda: bond.calculate_accrued_interest(before), ValueError, 'settlement before the dated date')


def with_ops(spec):
    return st.lists(st.tuples(st.sampled_from(['accrued', 'full', 'ytm', 'discount']), AT).map(list), min_size=1,
                    max_size=5).map(lambda ops: {**spec, 'ops': ops})


BASE = {'cls': 'treasury', 'frequency': 'SEMI_ANNUAL', 'dcc': 'ACTUAL_OVER_ACTUAL', 'bda': 'FOLLOWING',
        'settle': 'T_PLUS_ONE_BUSINESS', 'coupon': 4.0, 'price': 99.0, 'principal': 100, 'tenor': '5Y',
        'maturity': '2028-08-15', 'at': ['coupon', 4, 0], 'calendar': None}
PROPERTY = Property('C09', [
    Facet('accrued', lambda: bond_specs(FREQUENCIES), check_accrued, 'part of a coupon has accrued', 900, 12000, 4, 8,
          examples=[BASE, {**BASE, 'cls': 'corporate'}, {**BASE, 'at': ['coupon', 3, 1]}, {**BASE, 'at': ['coupon', 3, -1]},
                    {**BASE, 'cls': 'corporate', 'at': ['coupon', 3, -1], 'maturity': '2026-02-15'}]),
    Facet('history', lambda: bond_specs(tenor=tenors(8)).flatmap(with_ops), check_history,
          'at least two questions about a coupon bond', 300, 4000, 2, 8),
    Facet('edges', lambda: bond_specs(('SEMI_ANNUAL', 'QUARTERLY', 'ANNUAL'), tenor=tenors(6)), check_edges,
          'a settlement between a coupon date and the payment of the coupon', 150, 2500, 2, 8,
          examples=[{**BASE, 'cls': 'corporate', 'tenor': '2Y', 'maturity': '2024-09-18'},
                    {**BASE, 'tenor': '2Y', 'maturity': '2024-09-18'}]),
    Facet('growth', lambda: bond_specs(('SEMI_ANNUAL', 'QUARTERLY', 'ANNUAL'), tenor=tenors(5)).flatmap(
        lambda s: st.integers(3, 25).map(lambda k: {**s, 'stride': k})), check_growth,
        'settlement dates on both sides of a coupon date', 200, 3000, 2, 8),
    siblings(lambda: bond_specs(FREQUENCIES, tenor=tenors(8)), check_accrued, 'bonds', 120, 3000),
], assumptions=['the trade settles within the life of the bond', 'a coupon whose unadjusted date is the settlement date '
                'belongs to the buyer, so a whole coupon has accrued then (the code\'s own rule for received payments)'])
