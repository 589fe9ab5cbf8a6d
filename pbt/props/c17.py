"""C17: accrual schedules and cashflows of interest rate swaps."""
from datetime import timedelta

from hypothesis import strategies as st

from .. import refs
from ..core import Facet, Property, close, ensure, expect_error, number, siblings
from ..swaps import SwapModel, build_swap, swap_specs

from fixedIncome.src.assets.base_cashflow import CashflowKeys
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentFrequency

LONG = st.one_of(st.integers(7, 40).map(lambda n: f'{n}Y'), st.integers(41, 400).map(lambda n: f'{n}M'))
MISSHAPEN = ['W', 'D', 'y', 'm', 'B']        # units which are not years or months


def long_specs(*kinds):
    """Swaps of up to forty years, of which some are asked for misshapen variants."""
    return st.tuples(swap_specs(*kinds), st.one_of(st.none(), st.none(), LONG),
                     st.one_of(st.none(), st.sampled_from(MISSHAPEN))).map(
        lambda t: {**t[0], 'tenor': t[1] or t[0]['tenor'], 'unit': t[2]})


def same_cashflow(cashflow, expected, what, scale):
    ensure(len(cashflow) == len(expected), f'number of payments of the {what}', len(cashflow), len(expected))
    for payment, (paid, amount) in zip(cashflow, expected):
        ensure(payment.payment_date == paid, f'payment date of the {what}', payment.payment_date, paid)
        close(payment.payment, amount, f'payment of the {what} on {paid}', 1e-9, 1e-9 * scale)


def check_schedule(case, rec):
    model, swap = SwapModel(case), build_swap(case)
    ensure((swap.start_accrual_date, swap.end_accrual_date) == (model.start, model.end), 'accrual start and end',
           swap.start_accrual_date, swap.end_accrual_date, model.start, model.end)
    stubs, moved = 0, 0
    for leg, generate in (('float', swap.generate_floating_leg_accrual_schedule),
                          ('fixed', swap.generate_fixed_leg_accrual_schedule)):
        expected = model.schedule(leg)
        stubs += model.stub
        for attempt in range(2):
            got = generate()
            ensure(len(got) == len(expected), f'number of accrual periods of the {leg} leg', len(got), len(expected))
            for period, (a, b, accrual) in zip(got, expected):
                ensure((period.start_accrual, period.end_accrual) == (a, b), f'accrual period of the {leg} leg',
                       period.start_accrual, period.end_accrual, a, b)
                close(period.accrual_factor, accrual, f'accrual of the {leg} leg from {a}', 1e-10, 1e-12)
        # the periods tile the life of the swap without gap or overlap
        ensure(got[0].start_accrual == model.start and got[-1].end_accrual == model.adjust(model.end),
               f'the {leg} leg does not span the life of the swap', got[0], got[-1])
        for one, two in zip(got, got[1:]):
            ensure(one.end_accrual == two.start_accrual, f'gap in the {leg} leg', one, two)
        ensure(all(model.is_business(p.end_accrual) for p in got), f'period of the {leg} leg ends on a holiday')
        if case[f'{leg}_dcc'] != 'THIRTY_OVER_THREESIXTY':
            close(sum(p.accrual_factor for p in got), refs.day_count(model.start, model.adjust(model.end), case[f'{leg}_dcc']),
                  f'total accrual of the {leg} leg', 1e-10, 1e-10)
        moved += sum(p.end_accrual.day != model.end.day for p in got)
    terms = {'payer': swap.direction.name == 'PAYER_FIXED', 'rate': swap.fixed_rate, 'notional': swap.notional,
             'purchase': swap.purchase_date, 'settle': swap.settlement_convention.name, 'tenor': swap.tenor,
             'float_frequency': swap.floating_leg_payment_frequency.name, 'fixed_frequency': swap.fixed_leg_payment_frequency.name,
             'float_dcc': swap.floating_leg_day_count_convention.name, 'fixed_dcc': swap.fixed_leg_day_count_convention.name,
             'fixing': swap.fixing_date_for_accrual_period.name, 'delay': swap.payment_delay.name, 'bda': swap.business_day_adjustment.name}
    for name, value in terms.items():
        ensure(value == (model.purchase if name == 'purchase' else case[name]), f'term of the swap: {name}', value, case[name])
    knot = swap.to_knot_value_pair()
    ensure((knot.knot, knot.value) == (model.end, case['rate']), 'knot of the swap', knot)
    if case.get('unit'):       # what is no tenor or frequency of a swap is refused
        expect_error(lambda: build_swap(case, tenor=case['tenor'][:-1] + case['unit']), ValueError, f'a tenor in {case["unit"]}')
        for leg in ('float', 'fixed'):
            for frequency in (PaymentFrequency.MONTHLY, PaymentFrequency.ZERO_COUPON):
                other = build_swap(case, **{f'{leg}_frequency': frequency.name})
                expect_error(other.generate_floating_leg_accrual_schedule if leg == 'float' else other.generate_fixed_leg_accrual_schedule,
                             ValueError, f'a {leg} leg of frequency {frequency}')
    rec.nontrivial(stubs > 0 or moved > 0)
    rec.label('stub' if stubs else 'regular', case['kind'])


def check_legs(case, rec):
    model, swap = SwapModel(case), build_swap(case)
    scale = case['notional']
    fixed, floating = model.fixed(), model.floating()
    calls = []

    def rate(when):
        calls.append(when)
        return model.rate(when)

    ensure(swap[CashflowKeys.FIXED_LEG] is None and swap[CashflowKeys.FLOATING_LEG] is None, 'legs before generation')
    same_cashflow(swap.generate_fixed_leg_cashflow(set_cashflow=False), fixed, 'fixed leg', scale)
    same_cashflow(swap.generate_floating_leg_cashflow(rate, set_cashflow=False), floating, 'floating leg', scale)
    ensure(swap.fixed_leg is None and swap.floating_leg is None, 'legs were stored although set_cashflow is False')
    swap.generate_fixed_leg_cashflow()
    ensure(swap.floating_leg is None, 'generating the fixed leg stored a floating leg')
    swap.generate_floating_leg_cashflow(lambda d: 0.5)
    swap.generate_floating_leg_cashflow(rate)
    same_cashflow(swap.fixed_leg, fixed, 'stored fixed leg', scale)
    same_cashflow(swap.floating_leg, floating, 'stored floating leg', scale)
    ensure(list(swap) == [(CashflowKeys.FIXED_LEG, swap.fixed_leg), (CashflowKeys.FLOATING_LEG, swap.floating_leg)],
           'legs of the collection')
    ensure(all(model.is_business(d) for d in calls), 'a rate is fixed on a holiday')
    if case['kind'] == 'overnight':
        first, last = model.schedule('float')[0][0], model.schedule('float')[-1][1]
        expected = []
        while first < last:
            expected.append(first)
            first = refs.add_business_days(first, 1, model.is_business)
        ensure(sorted(set(calls)) == expected, 'the overnight leg does not compound over every business day of its life')
    # constant rates: both legs pay the same rate on their own accruals
    flat = swap.generate_floating_leg_cashflow(lambda d: 0.0, set_cashflow=False)
    ensure(all(p.payment == 0 for p in flat), 'payments at a zero rate', [p.payment for p in flat])
    if case['kind'] == 'term':
        flat = swap.generate_floating_leg_cashflow(lambda d: 0.03, set_cashflow=False)
        close(sum(p.payment for p in flat), 0.03 * scale * sum(a for _, _, a in model.schedule('float')),
              'floating leg at a constant rate', 1e-9, 1e-9 * scale)
    rec.nontrivial(len(fixed) >= 2 and len(floating) >= 2)
    rec.label(case['kind'])


def check_overnight(case, rec):
    model, swap = SwapModel(case), build_swap(case)
    start = refs.following(model.start + timedelta(days=case['skip']), model.is_business)
    end = refs.following(start + timedelta(days=case['length']), model.is_business)
    got = number(swap.calculate_annualized_rate(model.rate, start, end), 'annualised overnight rate')
    close(got, model.overnight(start, end), f'annualised overnight rate from {start} to {end}', 1e-9, 1e-12)
    # compounding: growth over the whole is the product of the growths over the parts
    middle = refs.following(start + timedelta(days=max(1, int(case['length'] * case['split']))), model.is_business)
    if start < middle < end:
        growth = [1 + swap.calculate_annualized_rate(model.rate, a, b) * (b - a).days / 360 for a, b in
                  ((start, middle), (middle, end), (start, end))]
        close(growth[0] * growth[1], growth[2], f'growth over {start}, {middle}, {end}', 1e-10, 0)
        rec.nontrivial(True)
    one = refs.add_business_days(start, 1, model.is_business)
    close(swap.calculate_annualized_rate(model.rate, start, one), model.rate(start), 'rate over one business day', 1e-9, 1e-10)


PROPERTY = Property('C17', [
    Facet('schedule', long_specs, check_schedule, 'a stub, or a date moved off a holiday', 700, 12000, 4, 8,
          examples=[]),
    Facet('legs', swap_specs, check_legs, 'two payments or more on either leg', 320, 6000, 8, 8),
    Facet('overnight', lambda: swap_specs(('overnight',)).flatmap(lambda s: st.tuples(
        st.integers(0, 400), st.integers(1, 120), st.floats(0, 1)).map(
        lambda t: {**s, 'skip': t[0], 'length': t[1], 'split': round(t[2], 3)})), check_overnight,
        'the interval can be split', 400, 6000, 4, 8),
    siblings(swap_specs, lambda c, r: (check_schedule(c, r), check_legs(c, r)), 'swaps', 40, 1000),
], assumptions=['accrual start is the settlement date, the end is the start plus the tenor; a broken first period is a '
                'short stub at the front'])
