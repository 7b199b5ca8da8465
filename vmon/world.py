""" Whole forecasts as plain data, and the objects built from that data.

`make_spec` describes a household (people, accounts, debts, economy,
strategies, tax) with plain numbers only; `build` turns a description into
fresh objects, as often as needed.  Every account, debt and person carries a
`verif_tag` naming its entry in the description; copies keep it.
"""

from types import SimpleNamespace

from vmon import gen
from forecaster import (
    Account, Debt, Person, Scenario, Settings, Tax, Timing,
    LivingExpensesStrategy, TransactionStrategy, Forecaster, Forecast)
from forecaster.strategy.allocation import RateFunction
from forecaster.strategy import (
    AllocationStrategy, LivingExpensesStrategySchedule)
from forecaster.canada import ForecasterCanada, TaxCanada
from forecaster.canada.settings import SettingsCanada
from forecaster.canada.accounts import (
    RRSP, TFSA, TaxableAccount, PrincipleResidence)

CLASSES = {cls.__name__: cls for cls in (
    Account, RRSP, TFSA, TaxableAccount, PrincipleResidence)}
LIVING = ['Constant contribution', 'Constant living expenses',
          'Percentage of net income', 'Percentage of gross income',
          'Percentage of earnings growth']
AFTER = ['Percentage of principal at retirement',
         'Percentage of net income at retirement',
         'Percentage of gross income at retirement']


def _series(rng, year, count, low, high, wide=False):
    """ A rate: one number, or one per year. """
    if rng.random() < 0.5:
        return round(rng.uniform(low, high), 4)
    first, last = year - 2, year + count + 3
    if wide:
        first, last = min(first - 3, 2005), max(last, 2020)
    return {y: round(rng.uniform(low, high), 4)
            for y in range(first, last)}


def _brackets(rng):
    out, level = {}, 0
    rates = sorted(round(rng.uniform(0, 0.5), 3) for _ in range(4))
    for rate in rates[:rng.randint(1, 4)]:
        out[level] = rate
        level += rng.choice([5000, 10000, 25000, 60000])
    return out


def _living(rng, after=False):
    kind = rng.choice(AFTER if after else LIVING)
    return {'strategy': kind,
            'base_amount': round(rng.uniform(5000, 70000), -2),
            'rate': round(rng.uniform(0.1, 0.9), 2),
            'inflation_adjust': rng.random() < 0.7}


def make_spec(rng, canada=None, years=None, hp=None):
    """ A random household, as plain data. """
    if canada is None:
        canada = rng.random() < 0.5
    if hp is None:
        hp = rng.random() < 0.3
    year = rng.randint(2009, 2024) if canada else rng.randint(1995, 2030)
    if years is None:
        years = rng.choice([1, 2, 3, 4, 5, 6, 8])
    spec = {
        'canada': canada, 'hp': hp, 'year': year, 'years': years,
        'scenario': {
            'inflation': _series(rng, year, years, 0, 0.05, wide=True),
            'stock_return': _series(rng, year, years, -0.2, 0.2),
            'bond_return': _series(rng, year, years, 0, 0.07),
            'other_return': _series(rng, year, years, 0, 0.05),
            'management_fees': round(rng.uniform(0, 0.02), 4)},
        'tax_inflation': rng.random() < 0.7,
        'province': 'BC',
        'tax': {
            'tax_brackets': {year - rng.randint(0, 3): _brackets(rng)},
            'personal_deduction': {
                year: rng.choice([0, 5000, 12000])},
            'credit_rate': {year: rng.choice([0.1, 0.5, 1])}},
        'payment_timing': gen.when(rng, words=False),
        'refund_timing': gen.when(rng, words=False),
        'payment_word': rng.random() < 0.5,
    }
    for name in ('payment_timing', 'refund_timing'):
        if rng.random() < 0.2:
            spec[name] = gen.timing(rng)
    count = rng.choice([1, 1, 1, 2, 2, 3])
    people = []
    for i in range(count):
        born = year - rng.randint(19, 80)
        retire = max(year + rng.randint(-3, years + 2), born + 19)
        people.append({
            'born': '%d-%02d-%02d' % (
                born, rng.randint(1, 12), rng.randint(1, 28)),
            'retire': retire,
            'income': 0 if rng.random() < 0.15 else round(
                rng.uniform(5000, 180000), -1),
            'raise': _series(rng, year, years, -0.02, 0.06),
            'timing': gen.timing(rng) if rng.random() < 0.5 else None,
            'taxed': rng.random() < 0.7})
    spec['people'] = people
    spec['spouses'] = count >= 2 and rng.random() < 0.7
    names = ['RRSP', 'TFSA', 'TaxableAccount', 'Account',
             'PrincipleResidence'] if canada else ['Account']
    accounts = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        name = rng.choice(names[:3] * 3 + names)
        rate = _series(rng, year, years, -0.1, 0.15)
        if rng.random() < 0.25:
            rate = 'allocation'
        acct = {
            'cls': name, 'owner': rng.randrange(count),
            'balance': 0 if rng.random() < 0.15 else round(
                rng.uniform(0, 400000), -1),
            'rate': rate, 'nper': gen.nper(rng),
            'timing': gen.timing(rng) if rng.random() < 0.4 else None}
        if name == 'RRSP' and rng.random() < 0.3:
            acct['contributor'] = rng.randrange(count)
        if name in ('RRSP', 'TFSA') and rng.random() < 0.7:
            acct['room'] = round(rng.uniform(0, 60000), -1)
        accounts.append(acct)
    spec['accounts'] = accounts
    debts = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        debts.append({
            'owner': rng.randrange(count),
            'balance': -round(rng.uniform(0, 150000), -1),
            'rate': round(rng.uniform(0, 0.2), 3), 'nper': gen.nper(rng),
            'minimum': round(rng.uniform(0, 8000), -1),
            'accel': rng.choice([0, 5000, 'inf']),
            'timing': gen.timing(rng) if rng.random() < 0.4 else None})
    spec['debts'] = debts
    living = _living(rng)
    spec['living'] = living
    if rng.random() < 0.4 and min(p['retire'] for p in people) >= year:
        spec['retired_living'] = _living(rng, rng.random() < 0.6)
        spec['minimum_living'] = rng.choice(
            [None, round(rng.uniform(0, 30000))])
    for name in ('saving', 'withdrawal'):
        keys = ['RRSP', 'TFSA', 'TaxableAccount'] if canada else []
        weights = list(range(1, len(keys) + 2))
        rng.shuffle(weights)
        spec[name] = {
            'strategy': rng.choice(['Ordered', 'Weighted']),
            'weights': dict(zip(keys + ['Account'], weights))}
        if debts and rng.random() < 0.5:
            spec[name]['weights']['Debt'] = len(weights) + 1
        if name == 'saving' and rng.random() < 0.5:
            spec[name]['debt_strategy'] = rng.choice(
                ['Avalanche', 'Snowball'])
            if rng.random() < 0.7:
                spec[name]['threshold'] = round(rng.uniform(0, 0.15), 3)
    spec['route'] = rng.choice(['explicit', 'settings'])
    return spec


def mode_of(spec):
    return gen.DECIMAL if spec['hp'] else gen.FLOAT


def _rate(mod, val):
    if isinstance(val, dict):
        return {y: mod(r) for y, r in val.items()}
    return mod(val)


def _timing(mod, val):
    if val is None:
        return None
    return Timing(gen.conv(mod, val), **mod.kw)


def _living_strategy(mod, scenario, say, data):
    return LivingExpensesStrategy(
        strategy=say.strategy(data['strategy'], LivingExpensesStrategy),
        base_amount=say.amount(mod(data['base_amount'])),
        rate=say.amount(mod(data['rate'])),
        inflation_adjust=say.inflation(
            scenario.inflation_adjust if data['inflation_adjust'] else None),
        **mod.kw)


def _transaction_strategy(mod, data, say):
    kwargs = dict(mod.kw)
    if 'debt_strategy' in data:
        kwargs['debt_strategy'] = data['debt_strategy']
    if 'threshold' in data:
        kwargs['high_interest_threshold'] = mod(data['threshold'])
    return TransactionStrategy(
        say.strategy(data['strategy'], TransactionStrategy), say.weights(
            {k: mod(v) for k, v in data['weights'].items()}), **kwargs)


def tax_timing(mod, val):
    """ A time, or times with weights, in the mode's number type. """
    return gen.conv(mod, val) if isinstance(val, dict) else mod(val)


def make_tax(spec, mod, scenario, say=None):
    """ The tax treatment described by `spec`. """
    say = say or Plain()
    adjust = say.table(
        scenario.inflation_adjust if spec['tax_inflation'] else None)
    pay = say.timing(tax_timing(mod, spec['payment_timing']))
    refund = say.timing(tax_timing(mod, spec['refund_timing']))
    if spec['canada']:
        tax = TaxCanada(
            adjust, spec['province'], constants=spec.get('constants'),
            **mod.kw)
        if spec.get('plain_timing'):
            return tax
        tax.payment_timing = pay
        tax.refund_timing = refund
        return tax
    data = spec['tax']
    timing = dict(payment_timing=pay, refund_timing=refund)
    if spec.get('plain_timing'):
        del timing['refund_timing']
    return Tax(
        say.brackets({y: {mod(k): mod(r) for k, r in b.items()}
                      for y, b in data['tax_brackets'].items()}),
        personal_deduction={
            y: mod(v) for y, v in data['personal_deduction'].items()},
        credit_rate={y: mod(v) for y, v in data['credit_rate'].items()},
        inflation_adjust=adjust, **timing, **mod.kw)


class Plain:
    """ How inputs are put into words: plainly, as the spec has them. """

    def __getattr__(self, name):
        return lambda val, *args: val

    def person(self, kwargs, _year):
        return kwargs

    def account(self, kwargs, _year):
        return kwargs


def build(spec, say=None):
    """ Fresh objects for `spec`, ready to be forecast.

    `say` may put each input in other words that mean the same.
    """
    mod = mode_of(spec)
    say = say or Plain()
    year = spec['year']
    world = SimpleNamespace(spec=spec, mod=mod)
    eco = {k: say.scenario(_rate(mod, v), k)
           for k, v in spec['scenario'].items()}
    scenario = Scenario(
        initial_year=say.year(year), num_years=say.year(spec['years']), **eco)
    world.scenario = scenario
    world.tax = say.tax(make_tax(spec, mod, scenario, say))
    world.people = []
    for i, data in enumerate(spec['people']):
        person = Person(
            say.year(year), 'P%d' % i, say.born(data['born']),
            **say.person(dict(
                retirement_date=say.retire(data['retire'], data['born']),
                gross_income=say.amount(mod(data['income'])),
                raise_rate=say.rate(_rate(mod, data['raise'])),
                tax_treatment=world.tax if data['taxed'] else None,
                payment_timing=(
                    None if data['timing'] is None
                    else say.timing(gen.conv(mod, data['timing'])))), year),
            **mod.kw)
        person.verif_tag = i
        world.people.append(person)
    if spec['spouses']:
        one, two = say.couple(world.people[:2])
        one.spouse = two
    allocation = AllocationStrategy(
        'n-age', target=100, min_equity=mod(0.2), max_equity=mod(0.9),
        **mod.kw)
    world.accounts = []
    for i, data in enumerate(spec['accounts']):
        owner = world.people[data['owner']]
        if data['rate'] == 'allocation':
            rate = RateFunction(scenario, owner, allocation)
        else:
            rate = say.rate(_rate(mod, data['rate']))
        kwargs = dict(
            mod.kw, balance=say.amount(mod(data['balance'])), rate=rate,
            nper=say.nper(data['nper']))
        if data['timing'] is not None:
            kwargs['default_timing'] = say.timing(
                _timing(mod, data['timing']))
        if data['cls'] in ('RRSP', 'TFSA'):
            kwargs['inflation_adjust'] = say.table(
                scenario.inflation_adjust)
            if 'constants' in spec:
                kwargs['constants'] = spec['constants']
            if 'room' in data:
                kwargs['contribution_room'] = say.amount(mod(data['room']))
        if 'contributor' in data:
            kwargs['contributor'] = world.people[data['contributor']]
        acct = CLASSES[data['cls']](
            owner=owner, **say.account(kwargs, year))
        acct.verif_tag = i
        world.accounts.append(acct)
    world.debts = []
    for i, data in enumerate(spec['debts']):
        kwargs = dict(mod.kw)
        if data['timing'] is not None:
            kwargs['default_timing'] = say.timing(
                _timing(mod, data['timing']))
        kwargs.update(
            balance=say.amount(mod(data['balance'])),
            rate=say.rate(mod(data['rate'])), nper=say.nper(data['nper']),
            minimum_payment=say.amount(mod(data['minimum'])),
            accelerated_payment=mod(float(data['accel'])))
        debt = Debt(
            world.people[data['owner']], **say.account(kwargs, year))
        debt.verif_tag = i
        world.debts.append(debt)
    working = _living_strategy(mod, scenario, say, spec['living'])
    if 'retired_living' in spec:
        retired = _living_strategy(mod, scenario, say, spec['retired_living'])
        minimum = None
        if spec['minimum_living'] is not None:
            minimum = _living_strategy(mod, scenario, say, {
                'strategy': 'Constant living expenses', 'rate': 0,
                'base_amount': spec['minimum_living'],
                'inflation_adjust': True})
        world.living = LivingExpensesStrategySchedule(
            working, retired, minimum)
    else:
        world.living = working
    world.saving = _transaction_strategy(mod, spec['saving'], say)
    world.withdrawal = _transaction_strategy(mod, spec['withdrawal'], say)
    make = ForecasterCanada if spec['canada'] else Forecaster
    world.forecaster = make(
        scenario=scenario, living_expenses_strategy=world.living,
        saving_strategy=world.saving, withdrawal_strategy=world.withdrawal,
        tax_treatment=world.tax, **mod.kw)
    return world


def run(world, group=set):
    """ The forecast of `world`'s household. """
    return world.forecaster.run_forecast(
        group(world.people), group(world.accounts), group(world.debts))


def tagged(items):
    """ Objects in the order of their description. """
    return sorted(items, key=lambda item: item.verif_tag)


def subforecasts(world, people=None, accounts=None, debts=None):
    """ The sub-forecasts of a forecast of these very objects. """
    from forecaster import (
        IncomeForecast, LivingExpensesForecast, SavingForecast,
        WithdrawalForecast, TaxForecast)
    year, kwargs = world.spec['year'], dict(world.mod.kw)
    people = set(world.people) if people is None else people
    accounts = set(world.accounts) if accounts is None else accounts
    debts = set(world.debts) if debts is None else debts
    return {
        'income_forecast': IncomeForecast(year, people, **kwargs),
        'living_expenses_forecast': LivingExpensesForecast(
            year, people, world.living, **kwargs),
        'saving_forecast': SavingForecast(
            year, accounts, debts, world.saving, **kwargs),
        'withdrawal_forecast': WithdrawalForecast(
            year, people, accounts, world.withdrawal, **kwargs),
        'tax_forecast': TaxForecast(year, people, world.tax, **kwargs)}


def run_direct(world, cls=Forecast):
    """ A forecast of `world`'s own objects, without copying them. """
    return cls(scenario=world.scenario, **subforecasts(world),
               **world.mod.kw)
