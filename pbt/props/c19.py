"""C19: loan amortisation."""
import calendar
from datetime import date, timedelta

from dateutil.relativedelta import relativedelta
from hypothesis import strategies as st

from .. import refs
from ..core import Facet, Property, close, ensure, expect_error, number, siblings
from ..curvetools import LinearReference, discount_pairs, flat_discount_curve
from ..gens import dates, floats
from ..refs import D, shift_months

from fixedIncome.src.assets.credit.loan import Loan
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention, PaymentFrequency, PaymentTime

MONTHS = {'MONTHLY': 1, 'QUARTERLY': 3, 'SEMI_ANNUAL': 6, 'ANNUAL': 12}


def month_end(d):
    return d.replace(day=calendar.monthrange(d.year, d.month)[1])


class LoanModel:
    def __init__(self, spec):
        self.spec = spec
        self.origination = D(spec['origination'])
        self.months = spec['periods'] * MONTHS[spec['frequency']] + spec['odd']
        self.step = MONTHS[spec['frequency']]
        self.per_year = 12 / self.step
        at_end = spec['time'] == 'END_OF_MONTH'
        first = month_end(self.origination) if at_end else shift_months(self.origination.replace(day=1), 1)
        self.dates = [month_end(shift_months(first, k)) if at_end else shift_months(first, k)
                      for k in range(0, self.months + 1, self.step)]

    def accrual(self, a, b):
        return refs.day_count(a, b, self.spec['dcc'])

    def level_payment(self):
        years = self.accrual(self.origination, shift_months(self.origination, self.months))
        n, r = years * self.per_year, self.spec['rate'] / self.per_year
        if r == 0:
            return self.spec['principal'] / n
        growth = (1 + r) ** n
        return self.spec['principal'] * r * growth / (growth - 1)

    def schedule(self, amount, extras):
        balance, out = self.spec['principal'], []
        for i, (a, b) in enumerate(zip(self.dates, self.dates[1:])):
            interest = balance * self.spec['rate'] * self.accrual(a, b)
            principal = min(balance, amount - interest + (extras[i] if i < len(extras) else 0.0))
            out.append((b, principal, interest))
            balance -= principal
        return out, balance


def build_loan(spec, frequency=None, time=None):
    months = spec['periods'] * MONTHS[spec['frequency']] + spec['odd']
    term = relativedelta(months=months) if months % 12 or spec['odd'] else relativedelta(years=months // 12)
    return Loan(principal=spec['principal'], interest_rate=spec['rate'], origination_date=D(spec['origination']),
                term_length=term, day_count_convention=DayCountConvention[spec['dcc']],
                payment_frequency=PaymentFrequency[frequency or spec['frequency']],
                payment_time=PaymentTime[time or spec['time']])


def given(extra, n):
    """The extra payments as handed to the loan, and as a list."""
    kind, value = extra
    if kind == 'none':
        return None, []
    if kind in ('amount', 'whole'):
        return (float(value[0]) if kind == 'amount' else int(value[0])), [float(value[0]) if kind == 'amount' else int(value[0])] * n
    return (list(value) if kind == 'list' else iter(list(value))), list(value)


def check_schedule(case, rec):
    model, loan = LoanModel(case), build_loan(case)
    principal = case['principal']
    n = len(model.dates) - 1
    level = number(loan.calculate_fixed_payment_amount(), 'level payment')
    close(level, model.level_payment(), 'level payment', 1e-9, 1e-9 * principal)
    amount = level if case['amount'] is None else case['amount'] * principal
    handed, extras = given(case['extra'], n)
    expected, left = model.schedule(amount, extras)
    for attempt in range(2):
        handed, extras = given(case['extra'], n)
        got = loan.generate_payment_schedule(amount) if handed is None else \
            loan.generate_payment_schedule(amount, handed) if attempt else \
            loan.generate_payment_schedule(payment_amount=amount, extra_payments=handed)
        ensure([p.payment_date for p in got] == [d for d, _, _ in expected], 'payment dates',
               [p.payment_date for p in got][:4], [d for d, _, _ in expected][:4], len(got), len(expected))
        balance = principal
        for payment, (when, repaid, interest) in zip(got, expected):
            close(payment.principal_payment, repaid, f'principal repaid on {when}', 1e-8, 1e-8 * principal)
            close(payment.interest_payment, interest, f'interest paid on {when}', 1e-8, 1e-8 * principal)
            close(payment.payment, payment.principal_payment + payment.interest_payment,
                  f'payment on {when} against principal plus interest', 1e-12, 1e-9 * principal)
            balance -= payment.principal_payment
            ensure(balance >= -1e-9 * principal, 'more principal is repaid than is owed', when, balance)
        close(balance, left, 'balance after the last payment', 1e-8, 1e-7 * principal)
    ensure(loan.principal == principal, 'principal of the loan changed', loan.principal)
    for odd, what in (({'frequency': 'ZERO_COUPON'}, 'a loan which never pays'), ({'time': 'FIXED_DATE'}, 'a loan paid on an unknown day of the month')):
        other = build_loan(case, **odd)
        expect_error(lambda: other.generate_payment_schedule(amount), ValueError, what)
    plain = case['dcc'] == 'THIRTY_OVER_THREESIXTY' and case['time'] == 'START_OF_MONTH' and not case['odd'] and \
        model.origination.day <= 27
    if plain and case['amount'] is None:
        close(sum(p.principal_payment for p in got), principal, 'sum of principal repaid by level payments', 1e-9, 1e-7 * principal)
        if not any(extras):
            for p in got:
                close(p.payment, level, 'level payment in the schedule', 1e-7, 1e-7 * principal)
    rec.nontrivial(n >= 3 and (bool(extras) or case['amount'] is not None or case['time'] == 'END_OF_MONTH'))
    rec.label(case['time'], case['frequency'], case['extra'][0], 'repaid' if left < 1e-6 * principal else 'balance left')


def check_value(case, rec):
    model, loan = LoanModel(case), build_loan(case)
    principal = case['principal']
    expected, _ = model.schedule(model.level_payment(), [])
    if case.get('on') is None:
        as_of = model.origination + timedelta(days=int(case['age'] * (model.dates[-1] - model.origination).days))
    else:                                  # on a payment date, or a day before or after
        as_of = max(model.origination, model.dates[1 + case['on'] % (len(model.dates) - 1)] + timedelta(days=case['beside']))
        rec.label('on a payment date' if not case['beside'] else 'beside a payment date')
    rate, slope = case['curve']
    pairs = discount_pairs(as_of, max(model.dates[-1], as_of) + timedelta(days=3), lambda t: rate + slope * t, 150)
    curve = flat_discount_curve(as_of, max(model.dates[-1], as_of) + timedelta(days=3), rate, slope, step=150)
    reference = LinearReference(pairs, as_of, 'ACTUAL_OVER_365')
    want = sum((p + i) * reference(d) for d, p, i in expected if d >= as_of)
    got = number(loan.present_value(curve), 'present value')
    close(got, want, f'present value on {as_of}', 1e-8, 1e-8 * principal)
    close(curve.present_value(loan), got, 'the curve values the loan differently', 1e-11, 1e-11 * principal)
    twice = build_loan({**case, 'principal': 2 * principal})
    close(twice.present_value(curve), 2 * got, 'value of twice the loan', 1e-8, 1e-8 * principal)
    rec.nontrivial(len(expected) >= 3)


def loan_specs(max_periods=60):
    extra = st.one_of(
        st.just(['none', []]), st.tuples(st.sampled_from(['amount', 'whole']), st.lists(st.integers(0, 400), min_size=1, max_size=1)).map(list),
        st.tuples(st.sampled_from(['list', 'iterator']), st.lists(st.one_of(floats(0, 3000, 2), st.just(0.0)), max_size=12)).map(list))
    return st.fixed_dictionaries({
        'principal': st.sampled_from([1000.0, 10_000.0, 558_750.0, 100]), 'rate': st.one_of(floats(0, 0.25, 4), st.just(0.0)),
        'origination': dates(date(1990, 1, 1), date(2060, 1, 1)), 'frequency': st.sampled_from(sorted(MONTHS)),
        'periods': st.integers(1, max_periods), 'odd': st.one_of(st.just(0), st.just(0), st.integers(0, 11)),
        'dcc': st.one_of(st.just('THIRTY_OVER_THREESIXTY'), st.sampled_from(refs.CONVENTIONS)),
        'time': st.sampled_from(['START_OF_MONTH', 'END_OF_MONTH']),
        'amount': st.one_of(st.none(), st.none(), floats(0.0, 0.6, 3)), 'extra': extra})


PROPERTY = Property('C19', [
    Facet('long', lambda: st.tuples(loan_specs(), st.integers(61, 480)).map(lambda t: {**t[0], 'periods': t[1]}), check_schedule,
          'three payments or more with extra payments, another amount or month-end dates', 40, 800, 4, 8),
    Facet('schedule', loan_specs, check_schedule, 'three payments or more with extra payments, another amount or month-end dates',
          1500, 25000, 4, 8),
    Facet('value', lambda: st.tuples(loan_specs(40), st.tuples(floats(-0.01, 0.1, 3), floats(-0.001, 0.002, 4)).map(list), floats(0, 1, 2),
                                        st.one_of(st.none(), st.integers(0, 40)), st.sampled_from([0, 0, -1, 1])).map(
        lambda t: {**t[0], 'curve': t[1], 'age': t[2], 'on': t[3], 'beside': t[4]}), check_value, 'three payments or more', 300, 5000, 4, 8),
    siblings(lambda: loan_specs(30), check_schedule, 'loans', 120, 3000),
], assumptions=['terms of whole months', 'a payment that does not cover the interest lets the balance grow (as the code does)'])
