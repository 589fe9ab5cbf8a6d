#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (one entry per property)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'fixedIncome/src/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, state=state, observe=observe))


SCHED = SRC + 'scheduling_tools/'
prop('C01', 'Day-count accruals between calendar dates follow their conventions',
     'For every supported day-count convention (ACT/360, ACT/365, ACT/365.25, ACT/ACT, 30/360) and every pair of dates in order, the accrual equals '
     'the value the convention defines, including leap days, year ends and month ends. It is zero for equal dates, never negative, '
     'monotone in the end date and, for the actual-day conventions, additive over a split of the interval. Dates in the wrong '
     'order and unknown conventions are refused with an error.',
     ['inputs'], 'all pairs and triples of dates from 1901 to 2299 and all five conventions',
     'The tests compare four hand-picked pairs; month-end, leap-year and year-boundary combinations are a product space they do not touch.',
     [SCHED + 'day_count_calculator.py'], [('DayCountCalculator.compute_accrual_length', SCHED + 'day_count_calculator.py')],
     'property-based testing against an independent reference and algebraic laws',
     'Search over generated date pairs with an independently written reference implementation; not a proof. ACT/ACT is read as the code documents it: each day is weighed by the length of the year it ends in.')
prop('C02', 'Day-count accruals between timestamps refine those between dates',
     'For timestamps the accrual of an actual-day convention counts the elapsed time in fractions of a day, agrees exactly with the accrual '
     'between dates when both timestamps are midnights, is zero on an empty interval, additive and monotone. 30/360 never decreases as the end moves '
     'and lies between the accruals of the surrounding midnights. Timestamps in the wrong order, even within one day, are refused.',
     ['inputs'], 'all ordered pairs and triples of naive timestamps with whole seconds, all five conventions',
     'The tests evaluate a couple of timestamps; the fraction of the first and last day, intervals inside one day and intervals crossing a year end are only reached by generation.',
     [SCHED + 'day_count_calculator.py'], [('datetime overloads of the accrual functions', SCHED + 'day_count_calculator.py')],
     'property-based testing: reference model, midnight consistency, additivity and monotonicity',
     'Search over generated timestamps. Time zones and sub-second precision are outside the domain.')
prop('C03', 'Holiday calendars and the business-day predicate agree in every year',
     'A date is a business day exactly if it is neither on a weekend nor a day on which a holiday of the calendar is observed, where a fixed-date holiday that falls '
     'on a weekend is observed on the neighbouring weekday even when that lies in the neighbouring year. Floating holidays fall on '
     'the n-th (or last) weekday of their month in every year.',
     ['inputs', 'configurations'], 'every date from 1901 to 2299, the US federal calendar and generated custom calendars',
     'The tests check a few holidays of 2022/2023; observation rules at year ends only bite in particular years.',
     [SCHED + 'holidays.py', SCHED + 'scheduler.py'], [('Scheduler.is_business_day', SCHED + 'scheduler.py'), ('Holiday, HolidayCalendar', SCHED + 'holidays.py')],
     'property-based testing against an independent calendar model',
     'Search over generated dates, weighted to days around holidays and year ends. The US calendar is the one that the repository\'s own tests pin.')
prop('C04', 'Business-day rolling, arithmetic and settlement land on the right day',
     'Following, preceding, modified following and modified preceding adjustments return the nearest business day in their direction (staying in the month for the modified ones) and '
     'leave business days alone; adding n business days moves over exactly n business days, and adding and subtracting are inverse from a business day. '
     'Settlement dates are business days at the distance of their convention from the trade date.',
     ['inputs', 'configurations'], 'every date, shift and calendar (US federal and generated custom ones)',
     'Tests roll a handful of dates; runs of holidays across weekends, month ends and year ends are what breaks a roll.',
     [SCHED + 'scheduler.py', SCHED + 'holidays.py'], [('Scheduler business-day functions', SCHED + 'scheduler.py')],
     'property-based testing against a counting reference model and inverse laws',
     'Search over generated dates and calendars. Calendar-day settlement conventions are refused by the code and outside the domain.')
prop('C05', 'Generated date sequences are evenly spaced and stay in range',
     'A generated sequence of dates starts at the start, its k-th date is the start shifted by k increments (month ends do not drift), moves in one direction and never passes the end. '
     'The end is included exactly if it is hit. A sequence over the maximal number of dates is stopped.',
     ['inputs'], 'all starts (dates and timestamps), increments of months, days and seconds in both directions, and lengths',
     'The tests use single starts in the middle of a month; drift shows up only for starts on the 29th to 31st and several steps.',
     [SCHED + 'scheduler.py'], [('Scheduler.generate_dates_by_increments', SCHED + 'scheduler.py')],
     'property-based testing against a closed-form reference',
     'Search over generated starts and increments. The date that trips the maximal count may itself be returned.')
CUR = SRC + 'curves/'
prop('C06', 'Curves interpolate exactly, in every state they can be put into',
     'A curve returns its knot values at its knots (from either side for step curves), the value defined by its interpolation method between knots (piecewise linear, previous value, spline) '
     'and the documented constant or error beyond its ends, plus any adjustment given with the query. The result depends only on the current knots and the query, '
     'not on earlier queries or on knots that have since been replaced.',
     ['inputs', 'histories'], 'all knot sets, methods, axis conventions, query moments and sequences of queries, adjustments and resets',
     'Tests query two curves at a few dates; stale interpolators and end effects need other orders of operations and queries past both ends.',
     [CUR + 'base_curve.py', CUR + 'curve_enumerations.py'], [('Curve', CUR + 'base_curve.py'), ('DiscountCurve', CUR + 'base_curve.py')],
     'property-based and stateful testing against an interpolation reference (and polynomial reproduction for splines)',
     'Search over generated curves and operation histories. Splines are decided by interpolation and by reproducing polynomials of their degree.')
prop('C07', 'Cashflow containers account for every payment',
     'A cashflow holds exactly the payments put into it in date order, however they are added, sliced or iterated, and its present value is the sum of the discount factors times the amounts of the payments on or after the reference date of the curve, '
     'linear in the payments. A collection returns, for each key, the cashflow last stored under that key, in every view it offers.',
     ['inputs', 'histories'], 'all payment lists, insertion and replacement sequences, slices, and discount curves',
     'Tests build one cashflow; lost or double payments need duplicates, unsorted insertions, replacements and reference dates on a payment date.',
     [SRC + 'assets/base_cashflow.py'], [('Cashflow, CashflowCollection', SRC + 'assets/base_cashflow.py')],
     'stateful property-based testing against a list/dictionary model and a discounting reference',
     'Search over generated payments, operations and curves whose knots cover the payments.')
BONDS = [SRC + 'assets/us_treasury_instruments/us_treasury_instruments.py', SRC + 'assets/credit/corporate_bond.py', SRC + 'assets/base_cashflow.py']
BM = [('UsTreasuryBond', BONDS[0]), ('FixedRateBond', BONDS[1])]
prop('C08', 'Bond payment schedules promise the right amounts on the right days',
     'A bond pays its coupon rate over its payment frequency on every coupon date obtained by stepping back from the unadjusted maturity, each moved to a business day by the bond\'s convention, and its principal once at the adjusted maturity. '
     'The amounts scale with the principal. A payment is still received by a buyer on a date exactly if that date\'s settlement date is not after the payment\'s unadjusted date.',
     ['inputs', 'configurations'], 'all tenors, frequencies, coupons, principals, business-day conventions, purchase and maturity dates, for treasury and corporate bonds',
     'Tests construct a few bonds; month-end maturities, holidays and leap years change the schedule in ways those do not exercise.',
     BONDS, BM, 'property-based testing against an independent schedule model',
     'Search over generated bonds, treasury and corporate. Tenors in months and years; futures are abstract in the code and outside the domain.')
prop('C09', 'Accrued interest is the elapsed share of the running coupon',
     'As of any date, accrued interest is the coupon times the share of the running coupon period elapsed at settlement, between zero and one coupon, and falls back to zero on coupon dates. '
     'The full price is the clean price plus the accrued interest, and asking for one date does not change the answer for another.',
     ['inputs', 'histories'], 'all bonds and trade dates within their lives, and sequences of questions about different dates',
     'Tests fix two bonds and one date each; trade dates around coupon dates and settlement over holidays are generated here.',
     BONDS, BM, 'property-based testing against a reference, with growth and history-independence relations',
     'Search over generated bonds and trade dates within the life of the bond.')
prop('C10', 'Yield, duration and convexity describe the same price function',
     'Discounting the remaining payments at the yield to maturity returns the full price, and the price function falls as the yield rises. '
     'DV01, modified and Macaulay duration and convexity are the first and second derivatives of that price function relative to the price (the value itself for DV01), whatever the principal, '
     'and Macaulay duration is the present-value-weighted time to payment.',
     ['inputs'], 'all coupon bonds, prices, principals and reference dates with at least half a year to maturity and yields between -6% and 30%',
     'Tests compare one or two bonds at one principal to stored numbers.',
     BONDS, BM, 'property-based testing: round trip price-yield-price and analytic derivatives as oracle',
     'Search over generated bonds; durations and convexities are finite differences in the code and compared to 5e-5 and 2e-3. A recorded finding: zero-coupon yields raise ZeroDivisionError.')
prop('C11', 'The present value of a bond is the discounted sum of what it still pays',
     'On any discount curve, the present value of a bond is the sum over the payments a buyer at the curve\'s reference date still receives (those whose unadjusted date is not before the settlement date) of amount times discount factor, scales with principal, and does not change the curve or the bond.',
     ['inputs'], 'all bonds, curves and valuation dates',
     'One stored value per bond in the tests; payments near the valuation date and curves with structure are needed to see a wrong or missing payment.',
     BONDS + [CUR + 'base_curve.py'], BM, 'property-based testing against a discounting reference',
     'Search over generated bonds and curves; all remaining payments within the knots of the curve.')

exec(open(os.path.join(HERE, 'tools', 'meta_more.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'meta_more.py')) else None


def main():
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as out:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            out.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                            'observe_at': list(p['observe']) or ['return values of the public API'], 'hook_needed': None}}) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -m pbt.selftest',
        'checks': [{
            'property': p['id'], 'quick_cmd': f'./check.sh {p["id"]} quick', 'thorough_cmd': f'./check.sh {p["id"]} thorough',
            'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']}
            for p in P],
        'not_applicable': [],
        'notes': 'No hooks: every property is observed through the public API of the package.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as out:
        json.dump(manifest, out, indent=1)
        out.write('\n')


main()
