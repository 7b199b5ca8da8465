""" C26: people live off what their strategy says, in today's money. """

from decimal import Decimal
from vmon import gen, world
from vmon.core import Workload
from vmon.eco import Economy
from forecaster import (
    Account, LivingExpensesStrategy, Person)
from forecaster.strategy import LivingExpensesStrategySchedule

PROPERTY = 'C26'
SCALE = 12
RULE = (
    'Groups of people with histories of incomes, tax and balances are asked '
    'year by year for living expenses under every strategy, with amounts '
    'in nominal or real terms, and under schedules and minimums nested at '
    'random; compared with the plain formulas applied to incomes, balances '
    'and inflation kept apart. The expenses of whole forecasts are compared '
    'with the same formulas applied to their histories. Non-trivial: '
    'expenses change from year to year, or a floor or minimum binds.')

TOL = dict(rel=1e-9, abs_=1e-6)
KINDS = world.LIVING + world.AFTER
METHODS = {
    key: func for key, func in LivingExpensesStrategy.strategies.items()}


class Money:
    """ Inflation adjustment, or none. """

    def __init__(self, rng, mod):
        self.eco = Economy(rng, mod)
        kind = self.eco.kind
        arg = self.eco.arg()
        if kind == 'dict':
            table, first = arg, self.eco.FIRST

            def arg(year, base_year=first):
                return table[year] / table[base_year]
        self.arg = arg
        self.kind = kind
        self.base = 2000 if kind == 'scenario' else self.eco.FIRST

    def factor(self, year, base=None):
        return self.eco.factor(year, self.base if base is None else base)


class Flat:
    """ No adjustment. """
    arg, kind = None, 'none'

    @staticmethod
    def factor(year, base=None):
        return 1.0


def formula(data, facts, year, retired):
    """ Living expenses by the book. """
    kind, rate, base = data['strategy'], data['rate'], data['base']
    money = data['money']
    if kind == 'Constant contribution':
        out = facts['net'][year] - base * money.factor(year)
    elif kind == 'Constant living expenses':
        out = base * money.factor(year)
    elif kind == 'Percentage of net income':
        out = rate * facts['net'][year]
    elif kind == 'Percentage of gross income':
        out = rate * facts['gross'][year]
    elif kind == 'Percentage of earnings growth':
        floor = base * money.factor(year)
        out = floor + (facts['net'][year] - floor) * rate
    elif kind == 'Percentage of principal at retirement':
        out = rate * facts['balance'][retired] * money.factor(year, retired)
    elif kind == 'Percentage of net income at retirement':
        out = rate * facts['net'][retired] * money.factor(year, retired)
    else:
        out = rate * facts['gross'][retired] * money.factor(year, retired)
    return max(out, 0.0)


def scheme(rng, mod, depth=2):
    """ A strategy, and how it should behave. """
    if depth and rng.random() < 0.5:
        parts = [scheme(rng, mod, depth - 1) for _ in range(2)]
        least = scheme(rng, mod, depth - 1) if rng.random() < 0.6 else None
        made = LivingExpensesStrategySchedule(
            parts[0][0], parts[1][0], least[0] if least else None)
        if least is None and rng.random() < 0.5:
            made = LivingExpensesStrategySchedule(
                working=parts[0][0], retirement=parts[1][0])
        return made, {'working': parts[0][1], 'retirement': parts[1][1],
                      'minimum': least[1] if least else None}
    return simple(rng, mod)


def simple(rng, mod, kind=None):
    money = Flat if rng.random() < 0.25 else Money(rng, mod)
    kind = kind or rng.choice(KINDS)
    data = {'strategy': kind, 'money': money,
            'base': gen.money(rng, 0, 1e5),
            'rate': rng.choice([0, 1, round(rng.random(), 3),
                                round(rng.uniform(0, 1.5), 2)])}
    name = METHODS[kind] if rng.random() < 0.3 else kind
    kwargs = {'base_amount': mod(data['base']), 'rate': mod(data['rate']),
              'inflation_adjust': money.arg}
    for key, nothing in [('base_amount', data['base'] == 0),
                         ('rate', data['rate'] == 0),
                         ('inflation_adjust', money.arg is None)]:
        if nothing and rng.random() < 0.5:
            del kwargs[key]
    return LivingExpensesStrategy(name, **kwargs, **mod.kw), data


def expect(mon, data, facts, year, retired):
    """ What the scheme should say. """
    if 'strategy' in data:
        mon.event(data['strategy'])
        out = formula(data, facts, year, retired)
        if out == 0:
            mon.event('nothing')
        return out
    old = year is not None and retired is not None and year > retired
    mon.event('retired' if old else 'working')
    out = expect(mon, data['retirement' if old else 'working'], facts, year,
                 retired)
    if data['minimum'] is not None:
        least = expect(mon, data['minimum'], facts, year, retired)
        if least > out:
            mon.event('minimum-bound')
            mon.interesting()
            return least
    return out


def show(data):
    if 'strategy' in data:
        return {k: v.kind if k == 'money' else v for k, v in data.items()}
    return {k: v and show(v) for k, v in data.items()}


class Group:
    """ People, what they earn and what they hold. """

    def __init__(self, rng, mod, year):
        self.rng, self.mod, self.year = rng, mod, year
        self.people, self.accounts = [], []
        self.facts = {'net': {}, 'gross': {}, 'balance': {}}
        self.rows = []
        for i in range(rng.choice([1, 1, 2, 3])):
            income = 0 if rng.random() < 0.15 else gen.money(rng, 0, 2e5)
            raise_ = gen.rate(rng, -0.1, 0.3)
            taxed = rng.choice([None, round(rng.random() * 0.6, 2)])
            kwargs = {}
            if taxed is not None:
                share = mod(taxed)
                kwargs['tax_treatment'] = Flatly(share)
            self.people.append(Person(
                year, 'P%d' % i, 1960, retirement_date=2099,
                gross_income=mod(income), raise_rate=mod(raise_), **kwargs,
                **mod.kw))
            self.rows.append([income, raise_, taxed or 0.0])
        if len(self.people) > 1 and rng.random() < 0.5:
            self.people[0].spouse = self.people[1]
        for _ in range(rng.choice([0, 1, 2, 4])):
            self.accounts.append(self.open())

    def open(self):
        rng, mod = self.rng, self.mod
        owner = rng.choice(self.people)
        acct = Account(owner, balance=mod(gen.money(rng, 0, 5e5)),
                       rate=mod(gen.rate(rng, -0.1, 0.2)), nper='A',
                       **mod.kw)
        if len(self.people) > 1 and rng.random() < 0.3:
            # Held jointly: still only one account.
            other = rng.choice(self.people)
            other.accounts.add(acct)
        return acct

    def record(self, year):
        facts = self.facts
        facts['gross'][year] = sum(r[0] for r in self.rows)
        facts['net'][year] = sum(r[0] * (1 - r[2]) for r in self.rows)
        facts['balance'][year] = float(sum(
            a.balance for a in self.accounts))

    def next_year(self):
        for row in self.rows:
            row[0] *= 1 + row[1]
        for person in self.people:
            person.next_year()
        for acct in self.accounts:
            if self.rng.random() < 0.5:
                acct[self.mod(0.5)] += self.mod(
                    gen.money(self.rng, 0, 1e4))
            acct.next_year()


class Flatly:
    """ A flat tax. """

    def __init__(self, share):
        self.share = share

    def __call__(self, income, year):
        return income * self.share


def years(rng, mon):
    mod = gen.mode(rng)
    start = rng.randint(1995, 2030)
    group = Group(rng, mod, start)
    schemes = [simple(rng, mod, kind) for kind in KINDS] + [
        scheme(rng, mod) for _ in range(4)]
    mon.note(mode=mod.name, rows=repr(group.rows),
             schemes=[show(data) for _, data in schemes])
    seen = []
    last = start + rng.randint(1, 6)
    retired = rng.randint(start, last + 1)
    for year in range(start, last + 1):
        group.record(year)
        people = group.people
        people = rng.choice([list, tuple, set])(people)
        when = retired if retired <= year else rng.choice([None, retired])
        row = []
        for made, data in schemes:
            if not answerable(data, when, year):
                continue
            kwargs = {'people': people, 'year': year}
            if when is not None or rng.random() < 0.5:
                kwargs['retirement_year'] = when
            if rng.random() < 0.2:
                kwargs['other'] = None
            got = made(**kwargs)
            want = expect(mon, data, group.facts, year, when)
            mon.close(got, want, 'amount', **TOL, year=year, retired=when,
                      scheme=show(data))
            mon.check(got >= 0, 'negative', got=got)
            if mod.hp is not None:
                mon.check(isinstance(got, (Decimal, int)), 'precision',
                          got=repr(got), scheme=show(data))
            again = made(**kwargs)
            mon.check(again == got, 'repeatable', got=got, again=again)
            if 'working' in data and undated(data):
                # Without a date, they're assumed to be working.
                known = {'people': people}
                if rng.random() < 0.5:
                    known['retirement_year'] = rng.choice(
                        [None, start - 5, retired])
                mon.close(
                    made(**known),
                    expect(mon, data, group.facts, year, None), 'undated',
                    **TOL, year=year, scheme=show(data))
                mon.event('undated')
            mon.event('asked')
            row.append(round(float(got), 2))
        seen.append(row)
        group.next_year()
    mon.interesting(len({tuple(r) for r in seen}) > 1)
    mon.obs(seen)


def answerable(data, retired, year):
    """ Whether the strategy has what it needs. """
    if 'strategy' in data:
        return 'at retirement' not in data['strategy'] or (
            retired is not None and retired <= year)
    old = retired is not None and year > retired
    return answerable(
        data['retirement' if old else 'working'], retired, year) and (
            data['minimum'] is None
            or answerable(data['minimum'], retired, year))


def undated(data):
    """ Whether the strategy needn't know the year (while working). """
    if 'strategy' in data:
        return data['strategy'] in (
            'Percentage of net income', 'Percentage of gross income') or (
                data['money'] is Flat
                and 'at retirement' not in data['strategy'])
    return undated(data['working']) and (
        data['minimum'] is None or undated(data['minimum']))


def alone(rng, mon):
    """ Strategies without people, and invalid ones. """
    mod = gen.mode(rng)
    for _ in range(4):
        made, data = simple(rng, mod, 'Constant living expenses')
        year = rng.randint(2000, 2050)
        got = made(year=year) if rng.random() < 0.5 else made(
            year=year, people=rng.choice([set(), []]))
        mon.close(got, formula(data, None, year, None), 'amount', **TOL,
                  year=year, scheme=show(data))
        mon.interesting(data['money'] is not Flat)
        mon.event('asked')
        mon.obs(round(float(got), 4))
    for value, error in [('Percentage of nothing', ValueError),
                         (rng.choice([None, 5, ['Constant contribution']]),
                          TypeError)]:
        try:
            LivingExpensesStrategy(value, **mod.kw)
        except error:
            mon.event('rejected')
        else:
            mon.check(False, 'accepted', value=repr(value))


def forecasts(rng, mon):
    """ The living expenses of whole forecasts. """
    spec = world.make_spec(rng, years=rng.choice([2, 3, 4, 5, 6]))
    spec['debts'] = []
    made = world.build(spec)
    mon.note(spec=spec)
    result = world.run(made)
    people = result.people
    inflation = spec['scenario']['inflation']
    start = spec['year']
    level = {start: 1.0}
    for year in range(start + 1, start + spec['years'] + 1):
        rate = (inflation[year - 1] if isinstance(inflation, dict)
                else inflation)
        level[year] = level[year - 1] * (1 + rate)

    class Real:
        @staticmethod
        def factor(year, base=start):
            return level[year] / level[base]

    def scheme_of(data):
        return {'strategy': data['strategy'], 'rate': data['rate'],
                'base': data['base_amount'],
                'money': Real if data['inflation_adjust'] else Flat}
    data = scheme_of(spec['living'])
    if 'retired_living' in spec:
        least = spec['minimum_living']
        data = {'working': data,
                'retirement': scheme_of(spec['retired_living']),
                'minimum': least and {
                    'strategy': 'Constant living expenses', 'rate': 0,
                    'base': least, 'money': Real}}
    retired = min(p['retire'] for p in spec['people'])
    seen = set()
    facts = {'net': {}, 'gross': {}, 'balance': {}}
    for year in range(start, start + spec['years']):
        facts['net'][year] = sum(
            float(p.net_income_history[year]) for p in people)
        facts['gross'][year] = sum(
            float(p.gross_income_history[year]) for p in people)
        facts['balance'][year] = sum(
            float(a.balance_history[year]) for a in result.assets)
    for year in range(start, start + spec['years']):
        got = result.living_expenses_history[year]
        want = expect(mon, data, facts, year, retired)
        mon.close(got, want, 'forecast', rel=1e-9, abs_=1e-5, year=year,
                  retired=retired, scheme=spec['living'])
        mon.event('forecast-year')
        seen.add(round(float(got), 2))
    mon.interesting(len(seen) > 1)
    mon.obs(sorted(seen))


WORKLOADS = [Workload('years', years, 1200, 40000),
             Workload('alone', alone, 600, 10000),
             Workload('forecasts', forecasts, 300, 10000)]
REQUIRED = dict({kind: 500 for kind in KINDS}, **{
    'asked': 20000, 'retired': 1000, 'working': 1000, 'minimum-bound': 400,
    'nothing': 500, 'rejected': 400, 'forecast-year': 500, 'undated': 300})
