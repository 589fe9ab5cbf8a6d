"""C08: bond payment schedules."""
from datetime import date, timedelta

from hypothesis import strategies as st

from ..bonds import CLASSES, MONTHS, Model, bond_specs, build, tenor_months, tenors
from ..core import Facet, Property, close, ensure, expect_error, siblings
from ..curvetools import floats
from ..gens import dates
from ..refs import D

from fixedIncome.src.assets.base_cashflow import CashflowKeys
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentFrequency


def listing(flow):
    return [(p.unadjusted_payment_date, p.payment_date, p.payment) for p in flow]


def check_schedule(case, rec):
    model = Model(case)
    bond = build(case, model)
    coupons, principal = model.payments()
    got = listing(bond[CashflowKeys.COUPON_PAYMENTS])
    ensure([(u, p) for u, p, _ in got] == [(u, p) for u, p, _ in coupons],
           f'coupon dates of the {case["tenor"]} maturing {model.maturity}',
           [(str(u), str(p)) for u, p, _ in got][:5], [(str(u), str(p)) for u, p, _ in coupons][:5])
    for u, _, amount in got:
        close(amount, model.coupon, f'coupon paid on {u}', 1e-12, 1e-12)
    close(bond.coupon_payment, model.coupon, 'coupon payment', 1e-12, 1e-12)
    ensure(listing(bond[CashflowKeys.SINGLE_PAYMENT]) == principal, 'principal repayment',
           listing(bond[CashflowKeys.SINGLE_PAYMENT]), principal)
    ensure(bond.dated_date == model.dated, 'dated date', bond.dated_date, model.dated)
    ensure(bond.settlement_date == model.settlement, 'settlement date', bond.settlement_date, model.settlement)
    knot = bond.to_knot_value_pair()
    last = max([p for _, p, _ in coupons + principal])
    ensure(knot.knot == last and knot.value == case['price'], 'knot-value pair', knot, last)
    months = tenor_months(case['tenor'])
    if coupons and months % MONTHS[case['frequency']] == 0:
        ensure(len(got) == months // MONTHS[case['frequency']], 'number of coupons', len(got))
        rec.label('whole periods')
    ensure(len(bond) == 2 and CashflowKeys.COUPON_PAYMENTS in bond, 'legs of the bond')
    rec.nontrivial(len(coupons) >= 2 and any(u != p for u, p, _ in coupons))
    rec.label(case['cls'], case['frequency'], 'month end' if model.maturity.day > 28 else 'mid month', case['bda'])


def check_received(case, rec):
    model = Model(case)
    bond = build(case, model)
    payments = list(bond[CashflowKeys.COUPON_PAYMENTS]) + list(bond[CashflowKeys.SINGLE_PAYMENT])
    for p in payments:
        ensure(bool(bond.is_payment_received(p)) == (p.unadjusted_payment_date >= model.settlement),
               f'payment of {p.unadjusted_payment_date} received when settling on {model.settlement}')
    partial = False
    for at in case['others']:
        when = model.date_at(at)
        settled = model.settle(when)
        flags = [bool(bond.is_payment_received(p, reference_date=when)) for p in payments]
        ensure(flags == [p.unadjusted_payment_date >= settled for p in payments],
               f'payments received when bought on {when} ({case["settle"]})')
        partial = partial or (any(flags) and not all(flags))
    rec.nontrivial(partial)
    rec.label(case['settle'])


def check_rejected(case, rec):
    cls, maturity = CLASSES[case['cls']], D(case['maturity'])
    kw = dict(price=99.0, coupon_rate=3.0, principal=100, tenor='2Y', purchase_date=maturity - timedelta(days=300),
              maturity_date=maturity)
    expect_error(lambda: cls(**{**kw, 'payment_frequency': PaymentFrequency.MONTHLY}), ValueError, 'monthly coupons')
    expect_error(lambda: cls(**{**kw, 'tenor': case['tenor']}), ValueError, f'tenor {case["tenor"]!r}')
    expect_error(lambda: cls(**{**kw, 'purchase_date': maturity - timedelta(days=760)}), ValueError,
                 'a purchase that settles before the dated date')
    rec.nontrivial()


AT = st.one_of(st.tuples(st.just('coupon'), st.integers(0, 130), st.integers(-6, 6)).map(list),
               st.tuples(st.just('fraction'), floats(0, 1, 4)).map(list))
LATE_AT = st.one_of(AT, AT, AT, st.tuples(st.just('late'), st.integers(-7, 4)).map(list))
FREQUENCIES = ('ANNUAL', 'SEMI_ANNUAL', 'SEMI_ANNUAL', 'QUARTERLY', 'QUARTERLY', 'ZERO_COUPON')
PROPERTY = Property('C08', [
    Facet('schedule', lambda: bond_specs(FREQUENCIES), check_schedule, 'two coupons or more, one of them moved off a '
          'non-business day', 700, 10000, 4, 8,
          examples=[{'cls': c, 'frequency': 'SEMI_ANNUAL', 'dcc': 'ACTUAL_OVER_ACTUAL', 'bda': 'FOLLOWING',
                     'settle': 'T_PLUS_ONE_BUSINESS', 'coupon': 4.0, 'price': 99.0, 'principal': 100, 'tenor': '3Y',
                     'maturity': '2026-08-31', 'at': ['fraction', 0.4], 'calendar': None}
                    for c in ('treasury', 'corporate')]),
    Facet('received', lambda: bond_specs(tenor=tenors(8)).flatmap(lambda s: st.lists(LATE_AT, min_size=1, max_size=4).map(
        lambda o: {**s, 'others': o})), check_received, 'some but not all payments are received', 300, 5000, 2, 8),
    Facet('rejected', lambda: st.fixed_dictionaries(
        {'cls': st.sampled_from(sorted(CLASSES)), 'maturity': dates(date(2000, 1, 1), date(2050, 1, 1)),
         'tenor': st.sampled_from(['2D', '10W', '3X', '1y'])}), check_rejected, 'every case', 60, 600),
    siblings(lambda: bond_specs(FREQUENCIES, tenor=tenors(8)), check_schedule, 'bonds', 120, 3000),
], assumptions=['tenor in months or years; coupon frequencies annual, semi-annual, quarterly or zero-coupon (monthly is '
                'refused by the code)', 'settlement conventions T+0 to T+3 business days'])
