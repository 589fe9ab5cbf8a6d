"""Swap generators, builders and the reference of their schedules and legs."""
import math
from datetime import date, timedelta

from hypothesis import strategies as st

from . import refs
from .bonds import MONTHS, SETTLE, tenor_months
from .gens import dates, floats
from .props.c03 import US, build_calendar, custom_calendars, reference_predicate
from .refs import D, shift_months

from fixedIncome.src.assets.base_cashflow import CashflowKeys
from fixedIncome.src.assets.rates.linear_rates.interest_rate_swap import (InterestRateSwapDirection, OvernightIndexSwap,
                                                                          TermInterestRateSwap)
from fixedIncome.src.curves.curve_enumerations import CurveIndex
from fixedIncome.src.scheduling_tools.schedule_enumerations import (BusinessDayAdjustment, DayCountConvention,
                                                                    PaymentFrequency, SettlementConvention)

SWAPS = {'term': TermInterestRateSwap, 'overnight': OvernightIndexSwap}
FREQUENCY = st.sampled_from(['SEMI_ANNUAL', 'QUARTERLY', 'ANNUAL'])
TENOR = st.one_of(st.integers(1, 6).map(lambda n: f'{n}Y'), st.integers(1, 40).map(lambda n: f'{n}M'),
                  st.integers(1, 12).map(lambda n: f'{3 * n}M'))


def swap_specs(kinds=('term', 'overnight'), max_fraction=True):
    return st.fixed_dictionaries({
        'kind': st.sampled_from(kinds), 'payer': st.booleans(), 'rate': floats(-0.01, 0.12, 4),
        'notional': st.sampled_from([100, 1_000_000, 1]), 'purchase': dates(date(1995, 1, 1), date(2060, 1, 1)),
        'settle': st.sampled_from(SETTLE), 'tenor': TENOR, 'float_frequency': FREQUENCY, 'fixed_frequency': FREQUENCY,
        'float_dcc': st.sampled_from(refs.CONVENTIONS), 'fixed_dcc': st.sampled_from(refs.CONVENTIONS),
        'fixing': st.sampled_from(['T_MINUS_TWO_BUSINESS', 'T_MINUS_ONE_BUSINESS', 'T_MINUS_ZERO_BUSINESS', 'T_PLUS_ZERO_BUSINESS']),
        'delay': st.sampled_from(SETTLE), 'bda': st.sampled_from(['FOLLOWING', 'MODIFIED_FOLLOWING']),
        'calendar': st.one_of(st.none(), st.none(), custom_calendars()),
        'curve': st.tuples(floats(-0.02, 0.1, 3), floats(0, 0.05, 3), st.integers(30, 2000)).map(list)})


class SwapModel:
    def __init__(self, spec):
        self.spec = spec
        self.is_business = refs.is_us_business_day if spec['calendar'] is None else reference_predicate(spec['calendar'])
        self.purchase = D(spec['purchase'])
        self.start = self.settle(self.purchase, spec['settle'])
        self.end = shift_months(self.start, tenor_months(spec['tenor']))

    def settle(self, when, convention):
        return refs.settlement(when, convention, self.is_business)

    def adjust(self, when):
        f = refs.following if self.spec['bda'] == 'FOLLOWING' else refs.modified_following
        return f(when, self.is_business)

    def schedule(self, leg):
        """[(start, end, accrual)], stepping back from the end; what is left at the front is a stub."""
        months, boundaries, k = MONTHS[self.spec[f'{leg}_frequency']], [], 0
        while True:
            d = shift_months(self.end, -months * k)
            if d <= self.start:
                break
            boundaries.insert(0, d)
            k += 1
        boundaries.insert(0, self.start)
        self.stub = shift_months(self.end, -months * k) != self.start
        adjusted = [self.adjust(d) for d in boundaries]
        return [(a, b, refs.day_count(a, b, self.spec[f'{leg}_dcc'])) for a, b in zip(adjusted, adjusted[1:])]

    def paid(self, accrual_end):
        return self.settle(accrual_end, self.spec['delay'])

    def rate(self, when):
        """A deterministic short rate: level, amplitude and period from the case."""
        level, amplitude, period = self.spec['curve']
        return level + amplitude * math.sin(when.toordinal() / period)

    def overnight(self, start, end, rate=None):
        rate = rate or self.rate
        growth, total, d = 1.0, 0.0, start
        while d < end:
            following = refs.add_business_days(d, 1, self.is_business)
            accrual = (following - d).days / 360.0
            growth *= 1.0 + rate(d) * accrual
            total += accrual
            d = following
        return (growth - 1.0) / total

    def floating(self, rate=None):
        rate = rate or self.rate
        out = []
        for start, end, accrual in self.schedule('float'):
            fixing = rate(self.settle(start, self.spec['fixing'])) if self.spec['kind'] == 'term' else \
                self.overnight(start, end, rate)
            out.append((self.paid(end), accrual * self.spec['notional'] * fixing))
        return out

    def fixed(self, rate=None):
        rate = self.spec['rate'] if rate is None else rate
        return [(self.paid(end), accrual * self.spec['notional'] * rate) for _, end, accrual in self.schedule('fixed')]


def build_swap(spec, **changes):
    spec = {**spec, **changes}
    return SWAPS[spec['kind']](
        float_index=CurveIndex.SOFR if spec['kind'] == 'overnight' else CurveIndex.LIBOR_3M,
        direction=InterestRateSwapDirection.PAYER_FIXED if spec['payer'] else InterestRateSwapDirection.RECEIVER_FIXED,
        fixed_rate=spec['rate'], notional=spec['notional'], purchase_date=D(spec['purchase']),
        settlement_convention=SettlementConvention[spec['settle']], tenor=spec['tenor'],
        floating_leg_payment_frequency=PaymentFrequency[spec['float_frequency']],
        fixed_leg_payment_frequency=PaymentFrequency[spec['fixed_frequency']],
        floating_leg_day_count_convention=DayCountConvention[spec['float_dcc']],
        fixed_leg_day_count_convention=DayCountConvention[spec['fixed_dcc']],
        holiday_calendar=US if spec['calendar'] is None else build_calendar(spec['calendar']),
        fixing_date_for_accrual_period=SettlementConvention[spec['fixing']],
        payment_delay=SettlementConvention[spec['delay']], business_day_adjustment=BusinessDayAdjustment[spec['bda']])
