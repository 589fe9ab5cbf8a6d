"""Bond generators, builders and reference schedules."""
from datetime import date, timedelta

from hypothesis import strategies as st

from . import refs
from .core import Reject
from .gens import dates, floats
from .refs import D, shift_months
from .props.c03 import US, build_calendar, custom_calendars, reference_predicate

from fixedIncome.src.assets.credit.corporate_bond import FixedRateBond
from fixedIncome.src.assets.us_treasury_instruments.us_treasury_instruments import UsTreasuryBond
from fixedIncome.src.scheduling_tools.schedule_enumerations import (BusinessDayAdjustment, DayCountConvention,
                                                                    PaymentFrequency, SettlementConvention)

CLASSES = {'treasury': UsTreasuryBond, 'corporate': FixedRateBond}
MONTHS = {'ANNUAL': 12, 'SEMI_ANNUAL': 6, 'QUARTERLY': 3}
PER_YEAR = {'ANNUAL': 1, 'SEMI_ANNUAL': 2, 'QUARTERLY': 4, 'ZERO_COUPON': 0}
SETTLE = ('T_PLUS_ZERO_BUSINESS', 'T_PLUS_ONE_BUSINESS', 'T_PLUS_TWO_BUSINESS', 'T_PLUS_THREE_BUSINESS')
MATURITIES = dates(date(1995, 1, 1), date(2065, 12, 31))


def tenor_months(tenor: str) -> int:
    return int(tenor[:-1]) * (12 if tenor[-1] == 'Y' else 1)


def tenors(max_years=30):
    return st.one_of(st.integers(2, max_years).map(lambda n: f'{n}Y'), st.integers(1, max_years).map(lambda n: f'{n}Y'),
                     st.integers(2, 40).map(lambda n: f'{n}M'), st.integers(2, 10).map(lambda n: f'{3 * n}M'))


def bond_specs(frequencies=('ANNUAL', 'SEMI_ANNUAL', 'SEMI_ANNUAL', 'QUARTERLY'), tenor=None, calendars=True,
               min_price=60, max_price=140):
    return st.fixed_dictionaries({
        'cls': st.sampled_from(['treasury', 'corporate']), 'frequency': st.sampled_from(frequencies),
        'dcc': st.one_of(st.just('ACTUAL_OVER_ACTUAL'), st.sampled_from(refs.CONVENTIONS)),
        'bda': st.sampled_from(['FOLLOWING', 'MODIFIED_FOLLOWING']),
        'settle': st.one_of(st.just('T_PLUS_ONE_BUSINESS'), st.sampled_from(SETTLE)),
        'coupon': floats(0, 12, 3), 'price': floats(min_price, max_price, 3),
        'principal': st.sampled_from([100, 1, 1000, 10_000, 1_000_000]), 'tenor': tenor or tenors(),
        'maturity': MATURITIES,
        # where in the bond's life it is bought: a coupon date plus a few days, or anywhere
        'at': st.one_of(st.tuples(st.just('coupon'), st.integers(0, 130), st.integers(-6, 6)).map(list),
                        st.tuples(st.just('fraction'), floats(0, 1, 4)).map(list)),
        'calendar': st.one_of(st.none(), st.none(), custom_calendars()) if calendars else st.none()})


class Model:
    """What the bond's schedule has to be, from the specification alone."""

    def __init__(self, spec):
        self.spec = spec
        self.is_business = refs.is_us_business_day if spec['calendar'] is None else reference_predicate(spec['calendar'])
        self.maturity = D(spec['maturity'])
        self.dated = shift_months(self.maturity, -tenor_months(spec['tenor']))
        self.unadjusted = []
        if spec['frequency'] != 'ZERO_COUPON':
            k = 0
            while True:
                d = shift_months(self.maturity, -MONTHS[spec['frequency']] * k)
                if d <= self.dated:
                    break
                self.unadjusted.insert(0, d)
                k += 1
        self.coupon = 0.0 if not self.unadjusted else \
            spec['principal'] * spec['coupon'] / 100.0 / PER_YEAR[spec['frequency']]
        self.purchase = self.date_at(spec['at'])
        self.settlement = self.settle(self.purchase)

    def date_at(self, at):
        if at[0] == 'date':
            return D(at[1])
        if at[0] == 'late':         # around the maturity, also where a trade settles after it
            return max(self.maturity + timedelta(days=at[1]), self.dated)
        if at[0] == 'coupon' and self.unadjusted:
            anchors = [self.dated] + self.unadjusted
            when = anchors[at[1] % len(anchors)] + timedelta(days=at[2])
        else:
            fraction = at[1] if at[0] == 'fraction' else (at[1] % 10) / 10
            when = self.dated + timedelta(days=int(fraction * (self.maturity - self.dated).days))
        latest = self.maturity
        while self.settle(latest) > self.maturity:      # must settle by maturity
            latest -= timedelta(days=1)
        return max(min(when, latest), self.dated)

    def settle(self, when):
        return refs.settlement(when, self.spec['settle'], self.is_business)

    def adjust(self, when):
        f = refs.following if self.spec['bda'] == 'FOLLOWING' else refs.modified_following
        return f(when, self.is_business)

    def payments(self):
        """(unadjusted date, payment date, amount), coupons then principal."""
        coupons = [(d, self.adjust(d), self.coupon) for d in self.unadjusted]
        return coupons, [(self.maturity, self.adjust(self.maturity), self.spec['principal'])]

    def received(self, when):
        coupons, principal = self.payments()
        settled = self.settle(when)
        return [p for p in coupons + principal if p[0] >= settled]

    def accrued(self, when):
        if not self.unadjusted:
            return 0.0
        settled = self.settle(when)
        previous, following = self.dated, self.unadjusted[0]
        for d in self.unadjusted:
            if d < settled:
                previous = d
        following = min(d for d in self.unadjusted if d >= settled)
        dcc = self.spec['dcc']
        return self.coupon * refs.day_count(previous, settled, dcc) / refs.day_count(previous, following, dcc)

    def full_price(self, when):
        return self.spec['price'] + self.accrued(when) / self.spec['principal'] * 100.0

    def discounted(self, rate, when):
        n = PER_YEAR[self.spec['frequency']]
        return sum(amount * (1 + rate / n) ** (-n * refs.day_count(when, paid, self.spec['dcc']))
                   for _, paid, amount in self.received(when))

    def flows(self, when):
        return [(refs.day_count(when, paid, self.spec['dcc']), amount) for _, paid, amount in self.received(when)]


def build(spec, model=None, **changes):
    model = model or Model(spec)
    spec = {**spec, **changes}
    if model.settlement > model.maturity or model.settlement < model.dated:
        raise Reject('the trade does not settle within the life of the bond')
    return CLASSES[spec['cls']](
        price=spec['price'], coupon_rate=spec['coupon'], principal=spec['principal'], tenor=spec['tenor'],
        purchase_date=model.purchase, maturity_date=model.maturity,
        settlement_convention=SettlementConvention[spec['settle']], payment_frequency=PaymentFrequency[spec['frequency']],
        day_count_convention=DayCountConvention[spec['dcc']], business_day_adjustment=BusinessDayAdjustment[spec['bda']],
        holiday_calendar=US if spec['calendar'] is None else build_calendar(spec['calendar']))
