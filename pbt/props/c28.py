"""C28: the factorized calibration of the doubly mean reverting model."""
import os
import sys
from contextlib import contextmanager
from datetime import date, datetime, timedelta

import numpy as np
from hypothesis import strategies as st
from scipy.optimize import least_squares

from ..affine import Affine
from ..core import Facet, Property, Reject, all_close, close, ensure, number
from ..gens import dates, floats
from ..refs import D, year_fraction

from dateutil.relativedelta import relativedelta
from fixedIncome.src.stochastics.calibrators.factorized_calibrator import CalibrationInput, VolatilityFactorizedCalibrator
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.doubly_mean_reverting_vasicek import DoublyMeanRevertingVasicek
from fixedIncome.src.stochastics.brownian_motion import BrownianMotion
from fixedIncome.src.stochastics.short_rate_models.affine_yield_curve_models.vasicek_model import CalibrationParamterType, VasicekModel

VOLATILITY, SHAPE, STATE = (CalibrationParamterType.VOLATILITY, CalibrationParamterType.SHAPE, CalibrationParamterType.STATE_VARIABLES)


@contextmanager
def silenced():
    """The optimiser reports on the standard output and error of the process."""
    sys.stdout.flush()
    sys.stderr.flush()
    kept, null = [os.dup(1), os.dup(2)], os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    try:
        yield
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        for fd, keep in zip((1, 2), kept):
            os.dup2(keep, fd)
            os.close(keep)
        os.close(null)


def affine_of(volatility, level):
    a, long_vol, k, short_vol, rho = volatility
    cross = rho * long_vol * short_vol
    return Affine(0.0, [0, 1], [level, level], [[a, 0], [-k, k]], [[long_vol ** 2, cross], [cross, short_vol ** 2]])


def yield_vols(affine, terms):
    out = []
    for t in terms:
        B = affine.at(t, np.zeros(2))['B'] / t
        out.append(np.sqrt(B @ affine.C @ B))
    return np.array(out)


def prices(affine, state, terms):
    return np.array([np.exp(affine.at(t, np.array(state))['log price']) for t in terms])


def check_calibration(case, rec):
    start = D(case['start'])
    end = start + timedelta(days=case['horizon'])
    true_volatility = [case['true'][0], case['true'][1], round(case['true'][0] * case['true'][2], 4), case['true'][3], case['true'][4]]
    own = case['own']
    volatility = true_volatility if case['at the truth'] else [own[0], own[1], round(own[0] * own[2], 4), own[3], own[4]]
    level, state = (case['level'], case['state']) if case['at the truth'] else (case['own level'], case['own state'])

    def new_model():
        model = DoublyMeanRevertingVasicek(short_rate_reversion_speed=volatility[2], short_rate_volatility=volatility[3], long_term_mean=level,
                                           long_term_reversion_speed=volatility[0], long_term_volatility=volatility[1],
                                           short_rate_long_term_correlation=volatility[4], start_datetime=start, end_datetime=end, dt=relativedelta(years=4))
        model.parameter_calibration_dict[STATE][:] = list(state)
        return model

    maturities = [start + timedelta(days=d) for d in sorted(set(case['vol days']))]
    price_maturities = [start + timedelta(days=d) for d in sorted(set(case['price days']))]
    terms = [year_fraction(start, t, 'ACTUAL_OVER_ACTUAL') for t in maturities]
    price_terms = [year_fraction(start, t, 'ACTUAL_OVER_ACTUAL') for t in price_maturities]
    truth = affine_of(true_volatility, case['level'])
    noise = 0.0 if case['at the truth'] else case['noise']
    vol_targets = yield_vols(truth, terms) * (1 + noise * np.sin(np.arange(len(terms)) + 1))
    price_targets = prices(truth, case['state'], price_terms) * np.exp(-0.1 * noise * np.cos(np.arange(len(price_terms))))
    vol_inputs = [CalibrationInput(d, float(v)) for d, v in zip(maturities, vol_targets)]
    price_inputs = [CalibrationInput(d, float(v)) for d, v in zip(price_maturities, price_targets)]

    model = new_model()
    ensure(list(model.parameter_calibration_dict[VOLATILITY]) == volatility and list(model.parameter_calibration_dict[SHAPE]) == [level],
           'calibration parameters of a new model')
    calibrator = VolatilityFactorizedCalibrator(iter(vol_inputs), iter(price_inputs))
    with silenced():
        fitted = calibrator.calibrate(model)
    ensure(isinstance(fitted, DoublyMeanRevertingVasicek), 'type of the calibrated model', type(fitted).__name__)
    ensure(fitted.start_date_time == start and fitted.end_date_time == end and fitted.dt == relativedelta(years=4), 'horizon of the calibrated model')
    ensure(calibrator.volatility_inputs == vol_inputs and calibrator.price_inputs == price_inputs, 'the inputs have changed')
    got = fitted.parameter_calibration_dict
    new_volatility = [number(v, 'calibrated parameter') for v in got[VOLATILITY]]
    new_level, new_state = number(got[SHAPE][0]), [number(v, 'calibrated state') for v in got[STATE]]
    ensure(len(new_volatility) == 5 and len(new_state) == 2, 'calibrated parameters', got)
    # the model is the model of its parameters
    ensure([fitted.long_term_reversion_speed, fitted.long_term_volatility, fitted.short_rate_reversion_speed, fitted.short_rate_volatility,
            fitted.short_rate_long_term_correlation] == new_volatility and fitted.long_term_mean == new_level, 'the model has other parameters than its dictionary')
    all_close(fitted.starting_state_variables, new_state, 'starting state variables', 1e-12, 1e-14)
    all_close(fitted.state_variables_diffusion_process(start), new_state, 'state at the start of the path', 1e-12, 1e-14)
    try:
        after = affine_of(new_volatility, new_level)
    except Reject:
        raise Reject('calibrated to an almost defective model')
    tolerance = 1e-8 + after.loss(np.array(new_state))
    own_vols = np.array([fitted.yield_volatility(t) for t in maturities])
    own_prices = np.array([fitted.zero_coupon_bond_price(t) for t in price_maturities])
    all_close(own_vols ** 2, yield_vols(after, terms) ** 2, 'squared yield volatilities of the calibrated model', 1e-6, 1e-10)
    all_close(own_prices, prices(after, new_state, price_terms), 'prices of the calibrated model', 1e-6 + tolerance, 0)
    # it explains the volatilities no worse than the model it started from, and the prices no worse than the model with the calibrated volatilities did
    before = affine_of(volatility, level)
    distance = lambda a, b: float(np.sqrt(np.sum((a - b) ** 2)))  # noqa: E731
    vol_before, vol_after = distance(yield_vols(before, terms), vol_targets), distance(yield_vols(after, terms), vol_targets)
    ensure(vol_after <= vol_before * (1 + 1e-6) + 1e-7, 'the volatilities fit worse than before', vol_after, vol_before)
    fit = yield_vols(after, terms)
    best_scale = distance(fit @ vol_targets / (fit @ fit) * fit, vol_targets)  # the volatilities of the yields scale with those of the model
    if max(new_volatility[1], new_volatility[3]) < 0.5:
        ensure(vol_after <= best_scale + 1.5e-3 + 0.1 * vol_before, 'rescaled volatilities would fit better', vol_after, best_scale, vol_before)
    halfway = affine_of(new_volatility, level)
    price_before, price_after = distance(prices(halfway, state, price_terms), price_targets), distance(prices(after, new_state, price_terms), price_targets)
    ensure(price_after <= price_before * (1 + 1e-6) + 1e-7, 'the prices fit worse than before', price_after, price_before)
    if price_before > 0.05:
        price_best = float(np.linalg.norm(least_squares(
            lambda x: prices(Affine(0.0, [0, 1], [x[0], x[0]], after.K, after.C), x[1:], price_terms) - price_targets,
            np.clip([level] + list(state), 1e-6, 1 - 1e-6), bounds=([0] * 3, [1] * 3)).fun))
        if price_before > price_best + 0.05:
            ensure(price_after <= price_best + 0.7 * (price_before - price_best), 'the shape and state hardly improve on those of the starting model',
                   price_after, price_before, price_best)
            rec.label('prices far off at the start')
    # its two steps can be taken one by one
    by_steps = new_model()
    with silenced():
        first = calibrator.calibrate_volatility_parameters(by_steps)
        ensure(list(by_steps.parameter_calibration_dict[VOLATILITY]) == list(first.x) == list(got[VOLATILITY]), 'the volatility step', first.x, got)
        ensure(list(by_steps.parameter_calibration_dict[SHAPE]) == [level] and list(by_steps.parameter_calibration_dict[STATE]) == list(state),
               'the volatility step has changed shape or state')
        again = DoublyMeanRevertingVasicek.from_volatility_shape_parameters(by_steps.parameter_calibration_dict, start_datetime=start, end_datetime=end,
                                                                            dt=relativedelta(years=4))
        second = calibrator.calibrate_shape_state_variable_parameters(again)
    ensure(list(second.x) == list(got[SHAPE]) + list(got[STATE]), 'the shape and state step', second.x, got)
    ensure(list(again.parameter_calibration_dict[SHAPE]) + list(again.parameter_calibration_dict[STATE]) == list(second.x)
           and list(again.parameter_calibration_dict[VOLATILITY]) == list(first.x), 'parameters after the shape and state step')
    # and the order of the inputs does not matter
    turned = VolatilityFactorizedCalibrator(vol_inputs[::-1], price_inputs[1:] + price_inputs[:1])
    with silenced():
        again = turned.calibrate(new_model()).parameter_calibration_dict
    ensure(all(list(again[kind]) == list(got[kind]) for kind in (VOLATILITY, SHAPE, STATE)), 'the calibration depends on the order of the inputs', again, got)
    rec.label('at the truth' if case['at the truth'] else 'elsewhere', 'much better' if vol_after < vol_before / 2 else 'a little better')
    rec.nontrivial(not case['at the truth'] and vol_after < 0.9 * vol_before)


def check_parameters(case, rec):
    """Models and their calibration dictionaries: a model of a dictionary has exactly its parameters and shares no list with it."""
    start = D(case['start'])
    end = start + timedelta(days=case['horizon'])
    term_days = [d for d in case['days'] if d <= case['horizon']]
    live = []      # (model, volatility, level, state)

    def spread(volatility):
        a, long_vol, ratio, short_vol, rho = volatility
        return [a, long_vol, round(a * ratio, 4), short_vol, rho]

    def verify(what):
        for model, volatility, level, state in live:
            got = model.parameter_calibration_dict
            ensure(set(got) == {VOLATILITY, SHAPE, STATE}, f'entries of the dictionary after {what}', got)
            ensure(list(got[VOLATILITY]) == volatility, f'volatility parameters in the dictionary after {what}', got[VOLATILITY], volatility)
            ensure(list(got[SHAPE]) == [level], f'shape parameters in the dictionary after {what}', got[SHAPE], level)
            ensure(list(got[STATE]) == state, f'state variables in the dictionary after {what}', got[STATE], state)
            ensure([model.long_term_reversion_speed, model.long_term_volatility, model.short_rate_reversion_speed, model.short_rate_volatility,
                    model.short_rate_long_term_correlation] == volatility, f'attributes after {what}')
            ensure(model.long_term_mean == level, f'long term mean after {what}', model.long_term_mean, level)
            ensure(list(model.starting_state_variables) == state, f'starting state variables after {what}', model.starting_state_variables, state)
            affine = affine_of(volatility, level)
            tolerance = 1e-8 + affine.loss(np.array(state))
            ensure((model.start_date_time, model.end_date_time) == (start, end), f'horizon after {what}')
            if model.path is not None:
                all_close(model.state_variables_diffusion_process(start), state, f'state at the start of the path after {what}', 1e-12, 1e-14)
                close(number(model(start)), state[1], f'short rate at the start of the path after {what}', 1e-12, 1e-14)
                for days in term_days:
                    t = start + timedelta(days=days)
                    tau = year_fraction(start, t, 'ACTUAL_OVER_ACTUAL')
                    close(number(model.zero_coupon_bond_price(t)), prices(affine, state, [tau])[0], f'price at {t} after {what}', 1e-6 + tolerance, 0)
                    close(number(model.yield_volatility(t)) ** 2, yield_vols(affine, [tau])[0] ** 2, f'squared yield volatility at {t} after {what}', 1e-6, 1e-10)

    volatility = spread(case['own'])
    model = DoublyMeanRevertingVasicek(short_rate_reversion_speed=volatility[2], short_rate_volatility=volatility[3], long_term_mean=case['level'],
                                       long_term_reversion_speed=volatility[0], long_term_volatility=volatility[1],
                                       short_rate_long_term_correlation=volatility[4], start_datetime=start, end_datetime=end, dt=relativedelta(years=2))
    live.append([model, volatility, case['level'], [0.0, 0.0]])
    verify('the construction')
    for op in case['ops']:
        source = live[op['of'] % len(live)]
        given = {VOLATILITY: list(source[1]), SHAPE: [source[2]], STATE: list(source[3])}
        if op['change'] in ('volatility', 'all'):
            given[VOLATILITY] = spread(op['volatility'])
        if op['change'] in ('shape', 'all'):
            given[SHAPE] = [op['level']]
        if op['change'] in ('state', 'all'):
            given[STATE] = list(op['state'])
        expected = [list(given[VOLATILITY]), given[SHAPE][0], list(given[STATE])]
        if op['change'] == 'none':
            given = source[0].parameter_calibration_dict        # of another model
        elif op['type'] == 'array':
            given[STATE] = np.array(given[STATE])
        elif op['type'] == 'tuple':
            given = {kind: tuple(values) for kind, values in given.items()}
        more = {} if op['seed'] is None else {'seed': op['seed']}
        new = DoublyMeanRevertingVasicek.from_volatility_shape_parameters(given, start, end, relativedelta(years=2), **more)
        live.append([new] + expected)
        verify('a model from parameters')
        twin = DoublyMeanRevertingVasicek.from_volatility_shape_parameters(given, start_datetime=start, end_datetime=end, dt=relativedelta(years=2), seed=1 if op['seed'] is None else op['seed'])
        all_close(twin.path, new.path, 'path of the same seed', 1e-12, 1e-14)
        if op['change'] == 'state' and op['type'] == 'list':
            given[VOLATILITY][0], given[SHAPE][0], given[STATE][0] = 7.0, 8.0, 9.0      # a list of the caller, not of the model
            verify('a change of the given lists')
        rec.label('from ' + op['change'])
    # parameters set back from the dictionary, each from its own entry
    model, volatility, level, state = live[-1]
    new_volatility, new_level, new_state = spread(case['set']), case['set level'], case['set state']
    model.parameter_calibration_dict[VOLATILITY][:] = new_volatility
    model.parameter_calibration_dict[SHAPE][:] = [new_level]
    model.parameter_calibration_dict[STATE][:] = new_state
    observed = lambda: [[model.long_term_reversion_speed, model.long_term_volatility, model.short_rate_reversion_speed, model.short_rate_volatility,  # noqa: E731
                         model.short_rate_long_term_correlation], model.long_term_mean, list(model.starting_state_variables)]
    values = [volatility, level, state]
    for which in case['set order']:
        [model.set_volatiltiy_parameters_from_dict, model.set_shape_parameters_from_dict, model.set_state_variables_from_dict][which]()
        values[which] = [new_volatility, new_level, new_state][which]
        ensure(observed() == values, f'attributes after setting {which} from the dictionary', observed(), values)
    live.pop()
    verify('changes of another model')
    # the model of a single factor
    def one_factor(numbers):
        (vol, speed), mean = numbers
        return VasicekModel(reversion_level=mean, reversion_speed=speed, volatility=vol,
                            brownian_motion=BrownianMotion(start_date_time=start, end_date_time=end, dimension=1), dt=relativedelta(years=2))

    single = one_factor([(volatility[3], volatility[2]), level])
    if case['days'][0] % 2:
        single.generate_path(0.01, seed=4)
    own = single.parameter_calibration_dict
    ensure(list(own[VOLATILITY]) == [volatility[3], volatility[2]] and list(own[SHAPE]) == [level], 'dictionary of the model of a single factor', own)
    own[VOLATILITY], own[SHAPE], own[STATE] = [new_volatility[3], new_volatility[2]], [new_level], [new_state[1]]
    values = [(volatility[3], volatility[2]), level]
    for which in case['set order']:
        [single.set_volatiltiy_parameters_from_dict, single.set_shape_parameters_from_dict, single.set_state_variables_from_dict][which]()
        if which < 2:
            values[which] = [(new_volatility[3], new_volatility[2]), new_level][which]
        else:
            ensure(number(single.calibrated_starting_short_rate) == new_state[1], 'starting short rate', single.calibrated_starting_short_rate, new_state)
        ensure([(single.volatility, single.reversion_speed), single.long_term_mean] == values, 'parameters of the model of a single factor')
        twin = one_factor(values)
        paths = [each.generate_path(new_state[1], seed=5) for each in (single, twin)]
        all_close(*paths, f'path after setting {which} from the dictionary', 1e-12, 1e-14)
        for days in term_days:
            t = start + timedelta(days=days)
            for name in ('zero_coupon_bond_price', 'zero_coupon_yield', 'yield_volatility', 'instantaneous_forward_rate', 'expected_short_rate'):
                close(getattr(single, name)(t), getattr(twin, name)(t), f'{name} after setting {which} from the dictionary', 1e-11, 1e-13)
    ensure(number(single.calibrated_starting_short_rate) == new_state[1], 'starting short rate', single.calibrated_starting_short_rate, new_state)
    rec.nontrivial(len(case['ops']) > 1)


PARAMETERS = st.tuples(floats(0.03, 0.3, 3), floats(0.002, 0.02, 4), floats(1.5, 3, 2), floats(0.002, 0.02, 4), floats(-0.8, 0.8, 2)).map(list)
DAYS = st.lists(st.integers(200, 7000), min_size=1, max_size=7, unique=True)
STATE_VALUES = st.lists(floats(0.005, 0.1, 3), min_size=2, max_size=2)
PROPERTY = Property('C28', [
    Facet('calibrate', lambda: st.fixed_dictionaries(
        {'start': dates(date(2000, 1, 1), date(2040, 1, 1)).flatmap(lambda d: st.sampled_from([d, d + 'T00:00:00', d + 'T12:30:00'])), 'horizon': st.integers(3000, 9000),
         'true': PARAMETERS, 'own': PARAMETERS, 'level': floats(0.01, 0.1, 3), 'own level': floats(0.01, 0.1, 3), 'state': STATE_VALUES, 'own state': STATE_VALUES,
         'at the truth': st.sampled_from([False, False, False, True]), 'noise': floats(0, 0.2, 2), 'vol days': DAYS, 'price days': DAYS}), check_calibration,
        'the volatilities fit clearly better than before', 80, 1600, 8, 8),
    Facet('parameters', lambda: st.fixed_dictionaries(
        {'start': dates(date(2000, 1, 1), date(2040, 1, 1)).flatmap(lambda d: st.sampled_from([d, d + 'T00:00:00', d + 'T12:30:00'])), 'horizon': st.integers(1000, 5000),
         'own': PARAMETERS, 'level': floats(-0.01, 0.1, 3), 'days': st.lists(st.integers(30, 5000), min_size=1, max_size=3, unique=True),
         'ops': st.lists(st.fixed_dictionaries({'of': st.integers(0, 5), 'change': st.sampled_from(['none', 'volatility', 'shape', 'state', 'state', 'all']),
                                                'volatility': PARAMETERS, 'level': floats(-0.01, 0.1, 3), 'state': STATE_VALUES,
                                                'type': st.sampled_from(['list', 'list', 'array', 'tuple']), 'seed': st.one_of(st.none(), st.integers(0, 99))}),
                         min_size=1, max_size=4),
         'set': PARAMETERS, 'set level': floats(-0.01, 0.1, 3), 'set state': STATE_VALUES, 'set order': st.permutations([0, 1, 2])}), check_parameters,
        'at least two models are made from parameters', 400, 6000),
], assumptions=['doubly mean reverting models; the calibration does not end at a defective reversion matrix'])
