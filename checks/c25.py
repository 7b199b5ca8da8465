""" C25: portfolios keep to their bounds and earn what they hold. """

from decimal import Decimal
from fractions import Fraction
from vmon import gen
from vmon.core import Workload
from forecaster import Account, Person, Scenario
from forecaster.strategy import AllocationStrategy
from forecaster.strategy.allocation import AssetAllocation
from forecaster.strategy.base import strategy_method

PROPERTY = 'C25'
SCALE = 32
RULE = (
    'Allocation strategies with random targets, bounds, transition periods '
    'and retirement ages are asked for allocations at ages from childhood '
    'to 120 and compared with exact rational arithmetic; strategies of '
    'our own return random portfolios of three assets to be kept within '
    'bounds; accounts whose rate follows a strategy are taken through '
    'years, changed scenarios and retirement plans, and compared with the '
    'weighted returns. Non-trivial: bounds bind, or the allocation '
    'changes from year to year.')

TOL = 1e-9


def rough(one, two):
    return abs(float(one) - float(two)) <= TOL


class Random(AllocationStrategy):
    """ A strategy that holds what it is told to hold. """

    @strategy_method('given')
    def strategy_given(self, age, *args, given=None, **kwargs):
        """ Returns `given`, or that for this age. """
        if callable(given):
            given = given(age)
        return AssetAllocation(*given)


def bounds(rng, mod):
    low = rng.choice([0, 0, 0.3, round(rng.random(), 2)])
    high = rng.choice([1, 1, 0.8, round(rng.random(), 2), low])
    return mod(min(low, high)), mod(max(low, high))


def clamp(value, low, high):
    return min(max(value, Fraction(low)), Fraction(high))


def plan(rng, mod):
    low, high = bounds(rng, mod)
    kind = rng.choice(['n-age', 'Transition to constant'])
    if kind == 'n-age':
        target = rng.choice([100, 110, 125, rng.randint(0, 250)])
    else:
        target = rng.choice([0.5, 0.7, 0, 1, round(rng.random(), 2)])
    out = {
        'strategy': kind, 'target': mod(target), 'min_equity': low,
        'max_equity': high,
        'standard_retirement_age': rng.choice([65, 60, rng.randint(40, 80)]),
        'risk_transition_period': rng.choice([20, 1, 0, rng.randint(1, 40)]),
        'adjust_for_retirement_plan': rng.random() < 0.6}
    if rng.random() < 0.3:
        for name in rng.sample(['min_equity', 'max_equity',
                                'standard_retirement_age',
                                'risk_transition_period',
                                'adjust_for_retirement_plan'], 2):
            default = {'min_equity': mod(0), 'max_equity': mod(1),
                       'standard_retirement_age': 65,
                       'risk_transition_period': 20,
                       'adjust_for_retirement_plan': True}[name]
            out[name] = default
            out.setdefault('_left', []).append(name)
    return out


def make(cls, mod, data):
    left = data.get('_left', [])
    return cls(**{k: v for k, v in data.items()
                  if k != '_left' and k not in left}, **mod.kw)


def stocks(data, age, retirement_age):
    """ The share of stocks, by the book. """
    target = Fraction(data['target'])
    low, high = Fraction(data['min_equity']), Fraction(data['max_equity'])
    standard = data['standard_retirement_age']
    adjust = data['adjust_for_retirement_plan']
    if data['strategy'] == 'n-age':
        if adjust:
            age = age + standard - retirement_age
        return clamp((target - age) / 100, low, high)
    retire = retirement_age if adjust else standard
    period = data['risk_transition_period']
    left = retire - age
    if left >= period:
        share = high
    elif left <= 0:
        share = target
    else:
        share = target + (high - target) * Fraction(left, period)
    return clamp(share, low, high)


def valid(mon, got, data, mod, detail):
    mon.check(isinstance(got, AssetAllocation), 'type', got=repr(got))
    mon.check(rough(sum(got), 1), 'sum', got=repr(got), **detail)
    mon.check(float(data['min_equity']) - TOL <= got.stocks
              <= float(data['max_equity']) + TOL, 'bounds', got=repr(got),
              **detail)
    if mod.hp is not None:
        mon.check(all(isinstance(v, (Decimal, int)) for v in got),
                  'precision', got=repr(got), **detail)


def ages(rng, mon):
    mod = gen.mode(rng)
    data = plan(rng, mod)
    strategy = make(AllocationStrategy, mod, data)
    mon.note(mode=mod.name, plan=repr(data))
    detail = {k: repr(v) for k, v in data.items()}
    retire = rng.choice([65, rng.randint(30, 90)])
    shares = []
    for age in sorted(rng.sample(range(0, 121), 12)) + [
            retire, retire - data['risk_transition_period']]:
        if rng.random() < 0.2:
            retire = rng.randint(30, 90)
            shares = []
        if data['adjust_for_retirement_plan'] or rng.random() < 0.6:
            got = strategy(age, retirement_age=retire) \
                if rng.random() < 0.5 else strategy(
                    retirement_age=retire, age=age)
        else:
            got = strategy(age=age)
            mon.event('no-retirement-age')
        valid(mon, got, data, mod, detail)
        want = stocks(data, age, retire)
        mon.check(rough(got.stocks, want), 'stocks', got=repr(got),
                  want=float(want), age=age, retire=retire, **detail)
        mon.check(rough(got.bonds, 1 - want) and got.other == 0, 'bonds',
                  got=repr(got), age=age, **detail)
        shares.append((age, got.stocks))
        mon.event('allocation')
        mon.event(data['strategy'])
        if data['min_equity'] < want < data['max_equity']:
            mon.event('between-bounds')
    # Nobody takes more risk as they get older.
    shares.sort(key=lambda pair: pair[0])
    if data['strategy'] == 'n-age' or data['target'] <= data['max_equity']:
        mon.check(all(a >= b - type(b)(1) / 10 ** 9 for (_, a), (_, b)
                      in zip(shares, shares[1:])), 'riskier-with-age',
                  shares=repr(shares), **detail)
    mon.interesting(len({s for _, s in shares}) > 1)
    mon.obs([round(float(s), 6) for _, s in shares])
    if data['adjust_for_retirement_plan'] and rng.random() < 0.1:
        try:
            strategy(50)
        except ValueError:
            mon.event('rejected')
        else:
            mon.check(False, 'no-retirement-age-accepted')
    if rng.random() < 0.1:
        try:
            AllocationStrategy('n-age', 100, min_equity=mod(0.6),
                               max_equity=mod(0.4), **mod.kw)
        except ValueError:
            mon.event('rejected')
        else:
            mon.check(False, 'bounds-accepted')


def holding(rng, mod):
    """ A random portfolio that adds up to 1. """
    if rng.random() < 0.3:
        first = rng.choice([0, 1, 0.5, round(rng.random(), 3)])
        split = rng.choice([[1 - first, 0], [0, 1 - first]])
        return tuple(mod(round(v, 6)) for v in [first] + split)
    parts = [rng.randint(0, 1000) for _ in range(3)]
    whole = sum(parts) or 1
    if not sum(parts):
        parts[0] = 1
    if mod.hp is not None:
        parts = [mod.hp(p) / whole for p in parts]
    else:
        parts = [p / whole for p in parts]
    return tuple(parts)


def portfolios(rng, mon):
    mod = gen.mode(rng)
    low, high = bounds(rng, mod)
    strategy = Random('given', 0, min_equity=low, max_equity=high, **mod.kw)
    data = {'min_equity': low, 'max_equity': high}
    for _ in range(5):
        given = holding(rng, mod)
        detail = dict(low=low, high=high, given=repr(given))
        got = strategy(40, given=given)
        valid(mon, got, data, mod, detail)
        want = balanced(given, low, high)
        mon.check(all(map(rough, got, want)), 'balanced', got=repr(got),
                  want=[float(w) for w in want], **detail)
        if want[0] != Fraction(given[0]):
            mon.interesting()
            mon.event('rebalanced')
        else:
            mon.event('left-alone')
        mon.obs([round(float(v), 9) for v in got])


def balanced(given, low, high):
    """ Keeps stocks within bounds, and the rest in proportion. """
    share, bonds, other = map(Fraction, given)
    rest = bonds + other
    weight = bonds / rest if rest else Fraction(1)
    share2 = clamp(share, low, high)
    # (what is given may not add up to precisely 1)
    rest += share - share2
    return share2, rest * weight, rest * (1 - weight)


def rates(rng, mon):
    """ Accounts that follow a strategy through the years. """
    mod = gen.mode(rng)
    year, span = rng.randint(1995, 2030), rng.randint(1, 8)
    custom = rng.random() < 0.3
    if custom:
        low, high = bounds(rng, mod)
        held = {a: holding(rng, mod) for a in range(121)}
        data = {'min_equity': low, 'max_equity': high}
        strategy = Custom('held', 0, min_equity=low, max_equity=high,
                          **mod.kw)
        strategy.held = held
    else:
        data = plan(rng, mod)
        strategy = make(AllocationStrategy, mod, data)

    def weights(age, retire):
        if custom:
            return balanced(held[age], data['min_equity'],
                            data['max_equity'])
        share = stocks(data, age, retire)
        return share, 1 - share, Fraction(0)
    age = rng.randint(18, 80)
    leaves = year - age + rng.randint(max(40, 0), 75)
    born = year - age
    person = Person(year, 'Name', '%d-06-15' % born, '%d-06-15' % leaves,
                    **mod.kw)
    scenario, returns = economy(rng, mod, year, span)
    function = strategy.rate_function(person, scenario)
    account = Account(person, balance=mod(1000), rate=function, **mod.kw)
    mon.note(mode=mod.name, plan=repr(data), age=age, leaves=leaves,
             returns=repr(returns), custom=custom)
    seen = set()
    for now in range(year, year + span + 1):
        if rng.random() < 0.12:
            leaves = born + rng.randint(40, 75)
            person.retirement_date = '%d-06-15' % leaves
            mon.event('replanned')
        if rng.random() < 0.12:
            scenario, returns = economy(rng, mod, year, span)
            function.scenario = scenario
            mon.event('other-scenario')
        when = now if rng.random() < 0.7 else rng.randint(
            year, year + span)
        for asked, got in [(now, account.rate), (when, function(when))]:
            parts = weights(asked - born, leaves - born)
            want = sum(p * Fraction(returns[asked][i])
                       for i, p in enumerate(parts))
            mon.check(rough(got, want), 'rate', year=asked, got=got,
                      want=float(want))
            mon.event('rate')
            if mod.hp is not None:
                mon.check(isinstance(got, Decimal), 'precision', got=got)
        seen.add(round(float(parts[0]), 6))
        person.next_year()
        account.next_year()
    mon.interesting(len(seen) > 1)
    mon.obs(sorted(seen))


class Custom(AllocationStrategy):
    """ Holds something else at every age. """

    @strategy_method('held')
    def strategy_held(self, age, *args, **kwargs):
        """ Returns what is held at this age. """
        return AssetAllocation(*self.held[age])


def economy(rng, mod, year, span):
    table = {y: [mod(round(rng.uniform(-0.2, 0.25), 4)) for _ in range(3)]
             for y in range(year, year + span + 2)}
    if rng.random() < 0.3:
        first = table[year]
        table = {y: first for y in table}
        columns = first
    else:
        columns = [{y: v[i] for y, v in table.items()} for i in range(3)]
    return Scenario(
        year, span + 2, inflation=mod(0), stock_return=columns[0],
        bond_return=columns[1], other_return=columns[2]), table


WORKLOADS = [Workload('ages', ages, 2000, 50000),
             Workload('portfolios', portfolios, 2000, 50000),
             Workload('rates', rates, 1200, 30000)]
REQUIRED = {'allocation': 20000, 'n-age': 8000,
            'Transition to constant': 8000, 'between-bounds': 3000,
            'no-retirement-age': 1000, 'rejected': 150, 'rebalanced': 2000,
            'left-alone': 2000, 'rate': 8000, 'replanned': 300,
            'other-scenario': 300}
