"""C14: key rates are tent functions."""
from datetime import date, timedelta

from hypothesis import strategies as st

from .. import refs
from ..core import Facet, Property, close, ensure, expect_error, siblings
from ..gens import dates, floats
from ..refs import D
from ..yieldtools import key_rate, tent

GAP = st.one_of(st.none(), st.integers(2, 60), st.integers(2, 6000))
BUMP = st.one_of(floats(-0.05, 0.05, 5), st.sampled_from([0.0001, -0.00005, 1.0, 0.0]))
OPS = st.lists(st.one_of(
    st.tuples(st.just('bump'), BUMP), st.tuples(st.just('prior'), GAP), st.tuples(st.just('next'), GAP),
    st.tuples(st.just('bad_prior'), st.integers(0, 400)), st.tuples(st.just('bad_next'), st.integers(0, 400)),
    st.tuples(st.just('recreate'), st.none())).map(list), max_size=6)


def shifted(middle, gap, sign):
    return None if gap is None else middle + timedelta(days=sign * gap)


def usable(middle, previous, following, convention):
    return (previous is None or refs.day_count(previous, middle, convention) > 0) and \
           (following is None or refs.day_count(middle, following, convention) > 0)


def queries(middle, previous, following, fractions):
    out = [middle, middle - timedelta(days=1), middle + timedelta(days=1), middle - timedelta(days=4000),
           middle + timedelta(days=4000)]
    for neighbour in (previous, following):
        if neighbour is not None:
            span = (middle - neighbour).days
            out += [neighbour, neighbour + timedelta(days=1), neighbour - timedelta(days=1)]
            out += [neighbour + timedelta(days=int(f * span)) for f in fractions]
    return out


def check_tent(case, rec):
    middle, convention = D(case['date']), case['dcc']
    previous, following, bump = shifted(middle, case['prior'], -1), shifted(middle, case['next'], 1), 0.0001
    if not usable(middle, previous, following, convention):
        previous = following = None
    kr = key_rate(middle, convention, previous, following)

    def agree(moment):
        reference = tent(previous, middle, following, bump, convention)
        for when in queries(middle, previous, following, case['fractions']):
            close(kr(when), reference(when), f'key rate on {when} {moment}', 1e-10, 1e-15)
            close(kr.adjustment_fxcn(when), reference(when), f'adjustment function on {when} {moment}', 1e-10, 1e-15)
        ensure((kr.prior_date, kr.key_rate_date, kr.next_date) == (previous, middle, following),
               f'dates of the key rate {moment}', kr.prior_date, kr.next_date)
        close(kr.bump_val, bump, f'bump of the key rate {moment}', 1e-12, 1e-15)

    agree('when created')
    for name, value in case['ops']:
        if name == 'bump':
            bump = value
            kr.set_bump_val(value)
        elif name == 'prior':
            candidate = shifted(middle, value, -1)
            if usable(middle, candidate, following, convention):
                previous = candidate
                kr.set_prior_date(candidate)
        elif name == 'next':
            candidate = shifted(middle, value, 1)
            if usable(middle, previous, candidate, convention):
                following = candidate
                kr.set_next_date(candidate)
        elif name == 'bad_prior':
            expect_error(lambda: kr.set_prior_date(middle + timedelta(days=value)), ValueError, 'prior date after the key rate')
        elif name == 'bad_next':
            expect_error(lambda: kr.set_next_date(middle - timedelta(days=value)), ValueError, 'next date before the key rate')
        else:
            kr.create_adjustment_function()
        agree(f'after {name}')
    rec.nontrivial(bool(case['ops']) and (previous is not None or following is not None))
    rec.label({(True, True): 'only', (True, False): 'first', (False, True): 'last'}.get(
        (previous is None, following is None), 'middle'))
    if previous is not None or following is not None:
        expect_error(lambda: kr('2024-01-01'), TypeError, 'a key rate called with a string')


def check_order(case, rec):
    a, b = (key_rate(D(d), c) for d, c in case['pair'])
    da, db = (D(d) for d, _ in case['pair'])
    same = case['pair'][0] == case['pair'][1]
    ensure((a < b, a <= b, a > b, a >= b) == (da < db, da <= db, da > db, da >= db), 'order of key rates', da, db)
    ensure((a == b) == same and (a != b) == (not same), 'equality of key rates', case['pair'])
    if same:
        ensure(hash(a) == hash(b), 'equal key rates with different hashes')
        b.set_prior_date(db - timedelta(days=40))
        b.set_bump_val(0.5)
        ensure(a == b and hash(a) == hash(b), 'equality depends on neighbours or bump')
        close(a(da), 0.0001, 'another key rate changed this one', 1e-12, 1e-15)
    ensure(list(a) == [a], 'iterating over a key rate')
    rec.nontrivial(True)


PROPERTY = Property('C14', [
    Facet('tent', lambda: st.fixed_dictionaries(
        {'date': dates(date(1980, 1, 1), date(2080, 1, 1)), 'prior': GAP, 'next': GAP, 'dcc': st.sampled_from(refs.CONVENTIONS),
         'ops': OPS, 'fractions': st.lists(floats(0, 1, 3), max_size=3)}), check_tent,
        'a neighbour and at least one operation', 1500, 25000, 2, 8),
    Facet('order', lambda: st.tuples(dates(), st.sampled_from(refs.ACT[:2]), st.one_of(st.none(), dates()), st.sampled_from(refs.ACT[:2])).map(
        lambda t: {'pair': [[t[0], t[1]], [t[2] or t[0], t[3]]]}), check_order, 'every case', 600, 8000),
    siblings(lambda: st.fixed_dictionaries(
        {'date': dates(date(1980, 1, 1), date(2080, 1, 1)), 'prior': GAP, 'next': GAP, 'dcc': st.sampled_from(refs.CONVENTIONS),
         'ops': OPS, 'fractions': st.lists(floats(0, 1, 3), max_size=3)}), check_tent, 'key rates', 120, 3000),
], assumptions=['neighbours at a positive accrual from the key rate date'])
