""" C19: forecasters leave their inputs alone and repeat themselves. """

from collections.abc import Mapping
from copy import deepcopy
from decimal import Decimal
from vmon import gen, world
from vmon.core import Workload
from checks.c03 import photograph, everyone
from forecaster import (
    Forecaster, LivingExpensesStrategy, Parameter, Scenario, Settings, Tax,
    TransactionStrategy)
from forecaster.canada import ForecasterCanada, TaxCanada
from forecaster.canada.settings import SettingsCanada
from forecaster.strategy import AllocationStrategy

PROPERTY = 'C19'
SCALE = 10
RULE = (
    'Random households are forecast again and again: the same one twice, '
    'with other households, scenarios and settings in between, from copies '
    'and from fresh objects, from explicit strategies and from the same '
    'values in settings. All histories of all people, accounts, debts and '
    'sub-forecasts are compared, and the inputs photographed before and '
    'after. Separately, parameters are built, read and set in random '
    'sequences and compared with what settings and arguments say. '
    'Non-trivial: the forecasts compared cover at least two years with '
    'accounts that change, or settings that override defaults.')


def distinct(spec):
    """ Leaves no ties between debts, whose order would be arbitrary. """
    for i, debt in enumerate(spec['debts']):
        debt['rate'] = round(debt['rate'] + i * 0.00037, 5)
        debt['balance'] -= i * 1.37 + 0.11
    return spec


def picture(forecast):
    people = world.tagged(forecast.people)
    made = type('Made', (), dict(
        people=people, accounts=world.tagged(forecast.assets),
        debts=world.tagged(forecast.debts)))
    return photograph(everyone(forecast, made))


def household(rng, **kwargs):
    """ A household; in most, all moves happen at the start of the year. """
    spec = distinct(world.make_spec(rng, **kwargs))
    kind = rng.random()
    if kind < 0.6:
        for person in spec['people']:
            person['timing'] = {0: 1}
        spec['payment_timing'] = spec['refund_timing'] = 0
        spec['orderly'] = 'flat'
    elif kind < 0.75:
        spec['people'], spec['spouses'] = spec['people'][:1], False
        spec['accounts'], spec['debts'] = spec['accounts'][:1], []
        spec['accounts'][0]['owner'] = 0
        spec['accounts'][0].pop('contributor', None)
        spec['orderly'] = 'simple'
    return spec


def alike(mon, one, two, mechanism, spec, **detail):
    """ Two pictures agree up to rounding. """
    mon.check(set(one) == set(two), mechanism, missing=sorted(
        map(str, set(one) ^ set(two)))[:5], **detail)
    bad = []
    for key, value in one.items():
        other = two.get(key, 'missing')
        if value == other or near(value, other):
            continue
        bad.append((key, value, other))
    mon.oracle += len(one)
    mon.event('compared', len(one))
    mon.event('orderly' if 'orderly' in spec else 'any-order')
    if bad and 'orderly' not in spec and retimed(one, two, min(
            k[2] for k, _, _ in bad if isinstance(k[2], int))):
        mechanism = 'order-dependent-timing'
    mon.check(not bad, mechanism, first=bad[:3], count=len(bad), **detail)


STEPS = ['income', 'living_expenses', 'saving', 'withdrawal', 'tax']


def retimed(one, two, year):
    """ Whether the first difference is one of timing, by `year`.

    That is: in the first year in which money moves differently, every
    account starts with the same balance, and the first sub-forecast to
    differ moves the same amounts between the same parties, but at other
    times. (What later ones do depends on the times.)
    """
    def parties(pic, step, when):
        return {name: dict(flows) for name, flows in dict(
            pic[step, 'transactions_history', when]).items()}
    first = min(k[2] for k in one if k[1] == 'transactions_history')
    for when in range(first, year + 1):
        for key, value in one.items():
            if key[1:] == ('balance_history', when) and not near(
                    value, two[key]):
                return False
        for step in STEPS:
            old, new = parties(one, step, when), parties(two, step, when)
            late = False
            for name in set(old) | set(new):
                a, b = old.get(name, {}), new.get(name, {})
                total = sum(a.values())
                if abs(total - sum(b.values())) > 0.05 + 1e-6 * abs(total):
                    return False
                late = late or any(
                    abs(a.get(t, 0) - b.get(t, 0)) > 0.02
                    for t in set(a) | set(b))
            if late:
                return True
    return False


def near(one, two):
    if isinstance(one, tuple) and isinstance(two, tuple):
        # Flows: rounding may move them in time; compare amounts by name.
        return near_flows(one, two)
    if isinstance(one, (int, float)) and isinstance(two, (int, float)):
        return abs(one - two) <= max(0.5, 1e-5 * abs(one))
    return False


def near_flows(one, two):
    return near(amount(one), amount(two))


def amount(val):
    if isinstance(val, tuple):
        return sum(amount(v) for _, v in val)
    return float(val or 0)


def inputs(made):
    """ Everything that may be seen of the inputs. """
    out = {}
    for group, items in (('person', made.people), ('account', made.accounts),
                         ('debt', made.debts)):
        for item in items:
            name = '%s-%d' % (group, item.verif_tag)
            out.update(photograph([(name, item)]))
            out[name, 'year'] = item.this_year, item.initial_year
            if group == 'person':
                out[name, 'facts'] = (
                    item.name, str(item.birth_date),
                    str(item.retirement_date), item.spouse,
                    frozenset(item.accounts), item.tax_treatment,
                    dict(item.payment_timing))
            else:
                out[name, 'facts'] = (
                    item.owner, item.nper, dict(item.transactions),
                    dict(item.default_timing), dict(item.inputs))
    scenario = made.scenario
    out['scenario'] = tuple(
        getattr(scenario, n)[y] for y in list(scenario) for n in (
            'inflation', 'stock_return', 'bond_return', 'other_return',
            'management_fees')) + (
                scenario.initial_year, scenario.num_years)
    for name in ('saving', 'withdrawal'):
        strategy = getattr(made, name)
        out[name] = strategy.strategy, dict(strategy.weights)
    return out


def repeat(rng, mon):
    spec = household(rng, years=rng.choice([2, 3, 4, 5]))
    made = world.build(spec)
    mon.note(spec=spec)
    before = inputs(made)
    forecaster = made.forecaster
    params = {p: getattr(forecaster, str(p)) for p in Parameter}
    first = world.run(made)
    shot = picture(first)
    mon.check(inputs(made) == before, 'inputs-changed')
    mon.event('forecast')
    relations(mon, made, first)
    other = None
    for _ in range(rng.randint(1, 3)):
        step = rng.choice(['again', 'fresh', 'direct', 'other', 'scenario',
                           'meddle', 'copy'])
        mon.event(step)
        if step == 'again':
            alike(mon, shot, picture(world.run(made)), 'again', spec)
        elif step == 'fresh':
            alike(mon, shot, picture(world.run(world.build(spec))),
                  'fresh', spec)
        elif step == 'direct':
            alike(mon, shot, picture(world.run_direct(world.build(spec))),
                  'direct', spec)
        elif step == 'copy':
            people, accounts, debts = deepcopy(
                (set(made.people), set(made.accounts), set(made.debts)))
            alike(mon, shot, picture(forecaster.run_forecast(
                people, accounts, debts)), 'copy', spec)
        elif step == 'other':
            # Somebody else's forecast, in another precision perhaps.
            other = distinct(world.make_spec(rng, years=2))
            world.run(world.build(other))
            alike(mon, shot, picture(world.run(made)), 'after-another', spec)
        elif step == 'scenario':
            scenario = made.scenario
            data = world.make_spec(
                rng, years=spec['years'], hp=spec['hp'])['scenario']
            data = dict(spec['scenario'], stock_return=0.5, **{
                k: v for k, v in data.items() if not isinstance(v, dict)
                and k != 'stock_return'})
            forecaster.scenario = Scenario(
                initial_year=spec['year'], num_years=spec['years'],
                **{k: world._rate(made.mod, v) for k, v in data.items()})
            world.run(made)
            forecaster.scenario = scenario
            alike(mon, shot, picture(world.run(made)), 'after-scenario', spec)
        elif step == 'meddle':
            # What is done to a forecast's objects stays there.
            forecast = world.run(made)
            for account in forecast.assets:
                account.add_transaction(made.mod(1000), made.mod(0.5))
                account.inputs['returns'] = {}
            for person in forecast.people:
                year = person.this_year + 1
                person.gross_income = made.mod(1)
                person.next_year()
                for account in person.accounts:
                    while account.this_year < year:
                        account.next_year()
            mon.check(inputs(made) == before, 'inputs-shared')
            alike(mon, shot, picture(first), 'forecast-changed', spec)
    mon.check(inputs(made) == before, 'inputs-changed')
    for param, value in params.items():
        mon.check(getattr(forecaster, str(param)) is value, 'param-changed',
                  param=str(param))
    alike(mon, shot, picture(first), 'forecast-changed', spec)
    balances = {round(v, 2) for k, v in shot.items()
                if k[1] == 'balance_history' and v}
    mon.obs(sorted(balances))
    mon.interesting(len(balances) > 1)


def relations(mon, made, forecast):
    """ Copies relate to each other as the originals do. """
    people = world.tagged(forecast.people)
    accounts = world.tagged(forecast.assets) + world.tagged(forecast.debts)
    originals = made.accounts + made.debts
    mon.check([p.verif_tag for p in people]
              == [p.verif_tag for p in made.people]
              and len(accounts) == len(originals), 'not-all-copied')
    for one, two in zip(people, made.people):
        mon.check(one is not two, 'person-not-copied')
        mon.check((one.spouse is None) == (two.spouse is None) and (
            one.spouse is None or one.spouse is people[
                two.spouse.verif_tag]), 'spouse')
        mon.check(one.name == two.name and one.birth_date == two.birth_date
                  and one.retirement_date == two.retirement_date,
                  'person-facts')
        mon.check({id(a) for a in one.accounts} == {
            id(accounts[originals.index(a)]) for a in two.accounts},
                  'accounts-of-person')
    for one, two in zip(accounts, originals):
        mon.check(one is not two, 'account-not-copied')
        mon.check(one.owner is people[two.owner.verif_tag], 'owner')
        mon.check(type(one) is type(two), 'class')
        if hasattr(two, 'contributor'):
            mon.check(one.contributor is people[two.contributor.verif_tag],
                      'contributor')
    mon.event('relations')


# -- settings ----------------------------------------------------------

def from_settings(rng, mon):
    """ Settings and explicit parameters of the same values agree. """
    spec = household(rng, years=rng.choice([2, 3, 4]))
    if spec['canada'] and spec.get('orderly') == 'flat':
        # The default timings of Canadian tax are not the start of the year.
        spec.pop('orderly', None)
    spec['plain_timing'] = spec['tax_inflation'] = True
    spec.pop('retired_living', None)
    spec['living']['inflation_adjust'] = True
    for name in ('saving', 'withdrawal'):
        for key in ('debt_strategy', 'threshold'):
            spec[name].pop(key, None)
    mon.note(spec=spec)
    made = world.build(spec)
    mod = made.mod
    shot = picture(world.run(made))
    values = setting_values(spec, mod)
    settings = (SettingsCanada if spec['canada'] else Settings)(**mod.kw)
    for key, value in values.items():
        setattr(settings, key, value)
    make = ForecasterCanada if spec['canada'] else Forecaster
    # Some parameters explicitly, the others from settings.
    explicit = {
        'scenario': made.scenario, 'tax_treatment': made.tax,
        'living_expenses_strategy': made.living,
        'saving_strategy': made.saving,
        'withdrawal_strategy': made.withdrawal}
    given = {k: v for k, v in explicit.items() if rng.random() < 0.3}
    forecaster = make(settings=settings, **given, **mod.kw)
    result = forecaster.run_forecast(
        set(made.people), set(made.accounts), set(made.debts))
    alike(mon, shot, picture(result), 'settings', spec, given=sorted(given))
    mon.event('from-settings')
    mon.interesting(spec['years'] > 1)
    mon.obs(sorted(given), spec['year'])
    for name in explicit:
        mon.check(getattr(forecaster, name) is given.get(name),
                  'param-set', name=name)
    for key, value in values.items():
        mon.check(getattr(settings, key) == value, 'settings-changed',
                  key=key)
    # Those built share one scenario.
    if 'scenario' not in given:
        mon.check(result.scenario is not made.scenario, 'scenario')


def setting_values(spec, mod):
    out = {k: world._rate(mod, v) for k, v in spec['scenario'].items()}
    out.update(
        initial_year=spec['year'], num_years=spec['years'],
        living_expenses_strategy=spec['living']['strategy'],
        living_expenses_base_amount=mod(spec['living']['base_amount']),
        living_expenses_rate=mod(spec['living']['rate']))
    for name in ('saving', 'withdrawal'):
        out[name + '_strategy'] = spec[name]['strategy']
        out[name + '_weights'] = {
            k: mod(v) for k, v in spec[name]['weights'].items()}
    if spec['canada']:
        out['tax_province'] = spec['province']
    else:
        tax = spec['tax']
        out.update(
            tax_brackets={y: {mod(k): mod(r) for k, r in b.items()}
                          for y, b in tax['tax_brackets'].items()},
            tax_personal_deduction={
                y: mod(v) for y, v in tax['personal_deduction'].items()},
            tax_credit_rate={
                y: mod(v) for y, v in tax['credit_rate'].items()},
            tax_payment_timing=world.tax_timing(
                mod, spec['payment_timing']))
    return out


# What each parameter takes from settings, and where it shows.
SHOWN = {
    'scenario': {
        'initial_year': 'initial_year', 'num_years': 'num_years',
        'inflation': 'inflation', 'stock_return': 'stock_return',
        'bond_return': 'bond_return', 'other_return': 'other_return',
        'management_fees': 'management_fees'},
    'living_expenses_strategy': {
        'strategy': 'living_expenses_strategy',
        'base_amount': 'living_expenses_base_amount',
        'rate': 'living_expenses_rate'},
    'saving_strategy': {
        'strategy': 'saving_strategy', 'weights': 'saving_weights'},
    'withdrawal_strategy': {
        'strategy': 'withdrawal_strategy', 'weights': 'withdrawal_weights'},
    'allocation_strategy': {
        'strategy': 'allocation_strategy', 'target': 'allocation_target',
        'min_equity': 'allocation_min_equity',
        'max_equity': 'allocation_max_equity',
        'standard_retirement_age': 'allocation_std_retirement_age',
        'risk_transition_period': 'allocation_risk_trans_period',
        'adjust_for_retirement_plan': 'allocation_adjust_retirement'}}
TYPES = {
    'scenario': Scenario, 'living_expenses_strategy': LivingExpensesStrategy,
    'saving_strategy': TransactionStrategy,
    'withdrawal_strategy': TransactionStrategy,
    'allocation_strategy': AllocationStrategy}


def random_value(rng, key):
    if key in ('initial_year', 'num_years'):
        return rng.randint(2000, 2030) if key == 'initial_year' \
            else rng.randint(1, 60)
    if key == 'living_expenses_strategy':
        return rng.choice(world.LIVING)
    if key in ('saving_strategy', 'withdrawal_strategy'):
        return rng.choice(['Ordered', 'Weighted'])
    if key.endswith('_weights'):
        return {n: rng.randint(1, 9) for n in rng.sample(
            ['Account', 'RRSP', 'TFSA', 'Debt'], rng.randint(1, 4))}
    if key == 'allocation_strategy':
        return rng.choice(['n-age', 'Transition to constant'])
    if key == 'allocation_adjust_retirement':
        return rng.random() < 0.5
    if key in ('allocation_target', 'allocation_std_retirement_age'):
        return rng.randint(40, 130)
    if key == 'allocation_risk_trans_period':
        return rng.randint(1, 30)
    if key == 'allocation_min_equity':
        return round(rng.uniform(0, 0.3), 2)
    if key == 'allocation_max_equity':
        return round(rng.uniform(0.31, 1), 2)
    if key == 'living_expenses_base_amount':
        return rng.randint(0, 90000)
    return round(rng.uniform(0, 0.2), 4)


def shown(param, attr):
    value = getattr(param, attr)
    if isinstance(value, Mapping) and attr != 'weights':
        # A rate: the same in every year here.
        value = value[param.initial_year]
    return value


def params(rng, mon):
    """ Building, reading and setting parameters, in any order. """
    canada = rng.random() < 0.4
    mod = gen.mode(rng, 0.3)
    settings = (SettingsCanada if canada else Settings)(**mod.kw)
    make = ForecasterCanada if canada else Forecaster
    values = {key: getattr(settings, key)
              for keys in TYPES for key in SHOWN[keys].values()}
    forecaster = make(settings=settings, **mod.kw)
    fixed = {name: None for name in TYPES}
    log = mon.notes['log'] = []
    for _ in range(rng.randint(3, 12)):
        name = rng.choice(sorted(TYPES))
        word = rng.choice([name, Parameter(name)])
        step = rng.choice(['setting', 'setting', 'get', 'get', 'build',
                           'set', 'unset'])
        keys = SHOWN[name]
        log.append((step, name))
        if step == 'setting':
            key = rng.choice(sorted(keys.values()))
            values[key] = random_value(rng, key)
            if isinstance(values[key], float):
                values[key] = mod(values[key])
            setattr(settings, key, values[key])
            mon.interesting()
        elif step == 'get':
            param = forecaster.get_param(word)
            if fixed[name] is not None:
                mon.check(param is fixed[name], 'get-explicit', name=name)
                mon.event('explicit')
            else:
                compare(mon, name, param, values, {}, 'get-built')
                mon.check(getattr(forecaster, name) is None, 'get-sets',
                          name=name)
        elif step == 'build' or step == 'set':
            args = {}
            for attr, key in keys.items():
                if rng.random() < 0.3 and attr != 'initial_year':
                    args[attr] = random_value(rng, key)
                    if isinstance(args[attr], float):
                        args[attr] = mod(args[attr])
            if step == 'build':
                if name == 'allocation_strategy' and rng.random() < 0.5:
                    param = forecaster.build_allocation_strategy(**args)
                else:
                    param = forecaster.build_param(word, **args)
                mon.check(getattr(forecaster, name) is fixed[name],
                          'build-sets', name=name)
            else:
                forecaster.set_param(word, **args)
                param = getattr(forecaster, name)
                fixed[name] = param
            compare(mon, name, param, values, args, step)
            if args:
                mon.event('overridden')
        elif rng.random() < 0.3:
            # A parameter given as text is read as a number if it is one.
            text, want = rng.choice([
                ('12', 12), ('-3', -3), ('7.0', 7), ('some text', None),
                ('0.1', mod(0.1)), ('-2.75', mod(-2.75)),
                ('1.0004', mod(1.0004)), ('0.30000000000000000001', 0.3)])
            if mod.hp and want == 0.3:
                want = mod.hp(text)
            setattr(forecaster, name, text)
            got = forecaster.get_param(word)
            want = text if want is None else want
            mon.check(got == want and type(got) is type(want), 'text',
                      text=text, observed=repr(got))
            mon.check(getattr(forecaster, name) == text, 'text-kept')
            mon.event('text')
            setattr(forecaster, name, fixed[name])
        else:
            setattr(forecaster, name, None)
            fixed[name] = None
    # Another forecaster has settings of its own.
    fresh = make(**mod.kw)
    plain = (SettingsCanada if canada else Settings)(**mod.kw)
    for name in sorted(TYPES):
        param = fresh.get_param(name)
        defaults = {k: getattr(plain, k) for k in SHOWN[name].values()}
        compare(mon, name, param, defaults, {}, 'another')
    tax = fresh.get_param('tax_treatment')
    mon.check(isinstance(tax, TaxCanada if canada else Tax), 'tax-type')
    mon.obs(log)


def compare(mon, name, param, values, args, mechanism):
    mon.event('built')
    mon.check(type(param) is TYPES[name], mechanism, name=name,
              type=type(param).__name__)
    for attr, key in SHOWN[name].items():
        want = args.get(attr, values[key])
        got = shown(param, attr)
        good = got == want or isinstance(want, (float, Decimal)) and abs(
            float(got) - float(want)) < 1e-12
        mon.check(good, mechanism, name=name, attr=attr, got=got, want=want)


WORKLOADS = [Workload('repeat', repeat, 160, 6000),
             Workload('settings', from_settings, 120, 5000),
             Workload('params', params, 800, 20000)]
REQUIRED = {'forecast': 120, 'again': 20, 'fresh': 20, 'direct': 20,
            'copy': 20, 'other': 20, 'scenario': 20, 'meddle': 20,
            'from-settings': 100, 'explicit': 100, 'overridden': 300, 'text': 40,
            'compared': 50000}
