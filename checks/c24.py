""" C24: high precision is kept, and agrees with ordinary numbers. """

from collections.abc import Mapping
from datetime import date
from decimal import Decimal
from fractions import Fraction
import math
from vmon import gen, world
from vmon.core import Workload
from checks import c19
from checks.c03 import everyone
from forecaster import (
    Account, Debt, LivingExpensesStrategy, Person, Scenario, Tax, Timing)
from forecaster.canada import TaxCanada
from forecaster.canada.accounts import (
    RRSP, TFSA, TaxableAccount, PrincipleResidence)
from forecaster.strategy import AllocationStrategy
from forecaster.strategy.base import Strategy
from forecaster.utility import transactions_from_timing
from forecaster.utility.precision import (
    HighPrecisionOptional, HighPrecisionOptionalProperty,
    HighPrecisionOptionalPropertyCached)

PROPERTY = 'C24'
RULE = (
    'The same random accounts, people, taxes, economies and strategies are '
    'made of ordinary and of Decimal numbers: their figures must agree, be '
    'of the type asked for, and, in Decimal, respond to changes of an input '
    'too small for an ordinary number (1 in 10**17) as they do to larger '
    'changes, as no number that passed through a float could. Whole '
    'forecasts are compared in the same way. Objects of several number '
    'types are read and written alternately. Non-trivial: figures that '
    'respond to an input, or objects of more than one type.')

SMALL = Decimal('1e-17')
LARGE = Decimal('1e-5')


class Feed:
    """ Supplies inputs by name, one of them slightly changed. """

    def __init__(self, mod, bumped=None, size=0):
        self.mod, self.bumped, self.size = mod, bumped, size
        self.names = []

    def __call__(self, name, value):
        self.names.append(name)
        if self.mod.hp is None:
            return value
        out = self.mod(value)
        if name == self.bumped:
            out = out * (1 + self.size)
        return out


def draw_account(rng):
    kind = rng.choice(['Account', 'Account', 'Debt', 'RRSP', 'TFSA',
                       'TaxableAccount', 'PrincipleResidence'])
    year = rng.randint(2010, 2022)
    txns, used = {}, set()
    for _ in range(rng.choice([0, 1, 2, 3])):
        when = rng.choice([0.0, 1.0, 0.5, round(rng.random(), 3)])
        if when not in used:
            used.add(when)
            txns[when] = gen.money(rng, -5e3, 2e4)
    return {
        'kind': kind, 'year': year,
        'balance': gen.pos(rng, 2e5) + 5e4,
        'rate': rng.choice([0.05, round(rng.uniform(0.001, 0.2), 4)]),
        'nper': rng.choice(gen.NPERS + ['C']), 'txns': txns,
        'time': round(rng.uniform(0.05, 0.95), 3),
        'income': round(rng.uniform(2e4, 2e5), 2),
        'raise': round(rng.uniform(0.001, 0.1), 4),
        'room': round(rng.uniform(1e3, 8e4), 2),
        'born': year - rng.randint(20, 85),
        'target': round(rng.uniform(1e5, 9e5), 2),
        'minimum': round(rng.uniform(10, 5e3), 2),
        'accel': rng.choice([None, round(rng.uniform(10, 5e3), 2)]),
        'timing': gen.timing(rng) if rng.random() < 0.5 else None,
        'years': rng.choice([1, 2, 3])}


def timing_of(feed, data):
    if data is None:
        return None
    return Timing({feed('when%d' % i, k): feed('weight%d' % i, v)
                   for i, (k, v) in enumerate(data.items())}, **feed.mod.kw)


def run_account(data, feed):
    mod, year = feed.mod, data['year']
    person = Person(
        year, 'P', '%d-01-01' % data['born'],
        '%d-01-01' % (data['born'] + 65),
        gross_income=feed('income', data['income']),
        raise_rate=feed('raise', data['raise']), **mod.kw)
    kwargs = dict(
        balance=feed('balance', data['balance']),
        rate=feed('rate', data['rate']), nper=data['nper'], **mod.kw)
    timing = timing_of(feed, data['timing'])
    if timing is not None:
        kwargs['default_timing'] = timing
    cls = globals()[data['kind']]
    debt = cls is Debt
    if debt:
        kwargs['balance'] = -kwargs['balance']
        kwargs['minimum_payment'] = feed('minimum', data['minimum'])
        if data['accel'] is not None:
            kwargs['accelerated_payment'] = feed('accel', data['accel'])
    if cls in (RRSP, TFSA):
        kwargs['contribution_room'] = feed('room', data['room'])
    acct = cls(owner=person, **kwargs)
    out = {}
    for n in range(data['years']):
        for i, (when, value) in enumerate(data['txns'].items()):
            acct.add_transaction(
                feed('txn%d.%d' % (n, i), value if not debt else abs(value)),
                feed('at%d.%d' % (n, i), when) if 0 < when < 1
                else mod(when))
        time = feed('time%d' % n, data['time'])
        out['at', n] = acct.balance_at_time(time)
        out['returns', n] = acct.returns
        out['inflows', n] = acct.inflows()
        out['outflows', n] = acct.outflows()
        out['max_outflow', n] = acct.max_outflow(time)
        out['max_inflow', n] = acct.max_inflow(time)
        out['max_in_limit', n] = acct.max_inflow_limit
        out['min_in_limit', n] = acct.min_inflow_limit
        out['max_out_limit', n] = acct.max_outflow_limit
        out['min_out_limit', n] = acct.min_outflow_limit
        for name in ('max_inflows', 'max_outflows', 'min_inflows',
                     'min_outflows'):
            flows = getattr(acct, name)()
            for i, value in enumerate(flows.values()):
                out[name, n, i] = value
        for i, value in enumerate(acct.transactions_to_balance(
                feed('target%d' % n, data['target']),
                Timing({mod(1): mod(1)}, **mod.kw)).values()):
            out['to-balance', n, i] = value
        out['income', n] = acct.taxable_income
        out['withheld', n] = acct.tax_withheld
        out['deduction', n] = acct.tax_deduction
        out['credit', n] = acct.tax_credit
        if cls in (RRSP, TFSA):
            out['room', n] = acct.contribution_room
        if cls is TaxableAccount:
            out['acb', n] = acct.acb
            out['gain', n] = acct.capital_gain
        person.next_year()
        acct.next_year()
        out['balance', n] = acct.balance
        out['rate', n] = acct.rate
        out['gross', n] = person.gross_income
        out['net', n] = person.net_income
    return out


def draw_tax(rng):
    year = rng.randint(2000, 2025)
    brackets, level = {}, 0
    for _ in range(rng.randint(1, 4)):
        brackets[level] = round(rng.uniform(0.01, 0.5), 3)
        level += rng.randint(5000, 40000)
    count = rng.choice([1, 2, 2])
    return {
        'year': year, 'later': rng.randint(0, 4), 'brackets': brackets,
        'deduction': round(rng.uniform(0, 2e4), 2),
        'credit': round(rng.uniform(0.01, 1), 2),
        'inflation': round(rng.uniform(0.001, 0.05), 4),
        'incomes': [round(rng.uniform(0, 2e5), 2) for _ in range(count)],
        'raise': round(rng.uniform(0.001, 0.1), 4),
        'canada': rng.random() < 0.4, 'couple': rng.random() < 0.6,
        'money': round(rng.uniform(0, 2e5), 2)}


def run_tax(data, feed):
    mod, year = feed.mod, data['year']
    scenario = Scenario(
        year, 10, inflation=feed('inflation', data['inflation']),
        stock_return=mod(0), bond_return=mod(0), other_return=mod(0),
        management_fees=mod(0))
    if data['canada']:
        tax = TaxCanada(scenario.inflation_adjust, 'BC', **mod.kw)
    else:
        tax = Tax(
            {year: {feed('level%d' % i, k) if k else mod(k):
                    feed('rate%d' % i, v)
                    for i, (k, v) in enumerate(data['brackets'].items())}},
            inflation_adjust=scenario.inflation_adjust,
            personal_deduction={year: feed('deduction', data['deduction'])},
            credit_rate={year: feed('credit', data['credit'])}, **mod.kw)
    people = [Person(
        year, 'P%d' % i, 1960, retirement_date=2099,
        gross_income=feed('income%d' % i, income),
        raise_rate=feed('raise', data['raise']), tax_treatment=tax, **mod.kw)
        for i, income in enumerate(data['incomes'])]
    if len(people) > 1 and data['couple']:
        people[0].spouse = people[1]
    out = {}
    for n in range(data['later'] + 1):
        now = year + n
        money = feed('money', data['money'])
        out['tax', n] = tax(set(people), now)
        out['one', n] = tax(people[0], now)
        out['money', n] = tax(money, now)
        out['marginal', n] = tax.marginal_rate(money, now)
        out['deduction', n] = tax.deduction(people[0], now)
        out['credit', n] = tax.credit(people[0], now)
        if not data['canada']:
            out['bracket', n] = tax.marginal_bracket(money, now)
            for i, (k, v) in enumerate(sorted(
                    tax.tax_brackets(now).items())):
                out['level', n, i], out['rate', n, i] = k, v
            for i, v in enumerate(v for _, v in sorted(
                    tax.accum(now).items())):
                out['accum', n, i] = v
        for i, person in enumerate(people):
            out['net', n, i] = person.net_income
            out['withheld', n, i] = person.tax_withheld
            person.next_year()
    return out


def draw_plan(rng):
    return {
        'year': rng.randint(1990, 2030),
        'rates': {n: round(rng.uniform(0.001, 0.2), 4) for n in (
            'inflation', 'stock_return', 'bond_return', 'other_return',
            'management_fees')},
        'base': round(rng.uniform(1e4, 9e4), 2),
        'rate': round(rng.uniform(0.05, 0.95), 3),
        'held': round(rng.uniform(1e4, 1e6), 2),
        'growth': round(rng.uniform(0.001, 0.15), 4),
        'kind': rng.choice(world.LIVING), 'income': round(
            rng.uniform(2e4, 2e5), 2),
        'spread': gen.timing(rng), 'scalar': gen.money(rng, 10, 1e5),
        'count': rng.randint(1, 12),
        'allocation': rng.choice(['n-age', 'Transition to constant']),
        'n': rng.choice([100, 110, 125]),
        'target': round(rng.uniform(0.3, 0.7), 3),
        'low': round(rng.uniform(0.01, 0.3), 3),
        'high': round(rng.uniform(0.71, 0.99), 3),
        'age': rng.randint(20, 90), 'retire': rng.randint(50, 75)}


def run_plan(data, feed):
    mod, year = feed.mod, data['year']
    scenario = Scenario(year, 10, **{
        n: feed(n, v) for n, v in data['rates'].items()})
    out = {}
    for n in range(1, 8, 2):
        out['adjust', n] = scenario.inflation_adjust(year + n)
        out['adjust-from', n] = scenario.inflation_adjust(year + n, year + 9)
        out['discount', n] = scenario.discount_rate(year + n)
        out['accum', n] = scenario.accumulation_function(year, year + n)
    for name in data['rates']:
        out[name] = getattr(scenario, name)[year + 3]
    person = Person(year, 'P', year - data['age'], retirement_date=2150,
                    gross_income=feed('income', data['income']), **mod.kw)
    living = LivingExpensesStrategy(
        data['kind'], feed('base', data['base']), feed('rate', data['rate']),
        scenario.inflation_adjust, **mod.kw)
    out['living'] = living(people={person}, year=year + 3)
    account = Account(person, balance=feed('held', data['held']), rate=feed(
        'growth', data['growth']), **mod.kw)
    for _ in range(2):
        person.next_year()
        account.next_year()
    for what in ('principal', 'net income', 'gross income'):
        after = LivingExpensesStrategy(
            'Percentage of %s at retirement' % what,
            feed('base', data['base']), feed('rate', data['rate']),
            scenario.inflation_adjust, **mod.kw)
        out['retired', what] = after(
            people={person}, year=year + 3, retirement_year=year + 1)
    timing = timing_of(feed, data['spread'])
    scalar = feed('scalar', data['scalar'])
    for i, (k, v) in enumerate(sorted(timing.items())):
        out['when', i], out['weight', i] = k, v
    for i, (_, v) in enumerate(sorted(timing.normalized().items())):
        out['normal', i] = v
    for i, (_, v) in enumerate(sorted(timing.time_series(scalar).items())):
        out['series', i] = v
    for i, (_, v) in enumerate(sorted(transactions_from_timing(
            timing, scalar).items())):
        out['spread', i] = v
    every = Timing(when=mod(0.5), frequency=data['count'], **mod.kw)
    for i, (k, v) in enumerate(sorted(every.items())):
        out['every', i], out['share', i] = k, v
    if data['allocation'] == 'n-age':
        target = feed('n', data['n'])
    else:
        target = feed('target', data['target'])
    strategy = AllocationStrategy(
        data['allocation'], target, min_equity=feed('low', data['low']),
        max_equity=feed('high', data['high']), **mod.kw)
    for name, value in strategy(
            data['age'], retirement_age=data['retire'])._asdict().items():
        out['hold', name] = value
    return out


COMPONENTS = {'account': (draw_account, run_account),
              'tax': (draw_tax, run_tax), 'plan': (draw_plan, run_plan)}


def number(value):
    return isinstance(value, (int, float, Decimal)) and not isinstance(
        value, bool)


def finite(value):
    return math.isfinite(value)


def components(rng, mon):
    name = rng.choice(['account', 'account', 'account', 'tax', 'plan'])
    draw, run = COMPONENTS[name]
    data = draw(rng)
    mon.note(component=name, data=data)
    feed = Feed(gen.DECIMAL)
    base = run(data, feed)
    plain = run(data, Feed(gen.FLOAT))
    mon.check(set(base) == set(plain), 'figures', extra=sorted(
        map(str, set(base) ^ set(plain))))
    for key, value in base.items():
        other = plain.get(key)
        mon.check(isinstance(value, (Decimal, int)), 'type', figure=str(key),
                  value=repr(value))
        mon.check(isinstance(other, (float, int)), 'float-type',
                  figure=str(key), value=repr(other))
        mon.close(value, other, 'agree', rel=1e-8, abs_=1e-5,
                  figure=str(key))
        mon.event('compared')
    mon.obs(name, sorted((str(k), '%.9g' % v) for k, v in base.items()))
    names = sorted(set(feed.names))
    for bumped in rng.sample(names, min(len(names), 4)):
        response(mon, run, data, base, bumped)


def response(mon, run, data, base, bumped):
    """ Tiny changes are not lost. """
    def change(size):
        return run(data, Feed(gen.DECIMAL, bumped, size))
    tiny, up, down = change(SMALL), change(LARGE), change(-LARGE)
    for key, value in base.items():
        if any(key not in o or not finite(o[key]) for o in (tiny, up, down)) \
                or not finite(value):
            continue
        scale = abs(value) + 1
        one = (up[key] - value) / LARGE
        two = (value - down[key]) / LARGE
        if abs(one) <= scale * Decimal('1e-3'):
            continue
        if abs(one - two) > abs(one) * Decimal('0.02'):
            continue    # (there is a kink nearby)
        got = (tiny[key] - value) / SMALL
        mon.check(abs(got - one) <= abs(one) * Decimal('0.05'), 'lost',
                  figure=str(key), input=bumped, response=str(got),
                  expected=str(one))
        mon.event('response')
        mon.interesting()


# -- whole forecasts ----------------------------------------------------

def mixed(mon, value, hp, where, depth=0):
    """ Checks the types of all numbers in `value`. """
    if isinstance(value, Mapping) or hasattr(value, 'items'):
        items = value.items()
        for key, val in items:
            if number(key):
                mixed(mon, key, hp, where, depth + 1)
            mixed(mon, val, hp, where, depth + 1)
        return
    if isinstance(value, (list, tuple, set, frozenset)):
        for val in value:
            mixed(mon, val, hp, where, depth + 1)
        return
    if number(value):
        good = isinstance(value, (int, Decimal if hp else float))
        mon.oracle += 1
        mon.event('typed')
        if not good:
            mon.violate('forecast-type', where=where, value=repr(value))


def types(mon, forecast, made, hp):
    for name, obj in everyone(forecast, made):
        for attr in dir(type(obj)):
            if not attr.endswith('_history') or attr.startswith('_'):
                continue
            for year, value in dict(getattr(obj, attr)).items():
                if hasattr(value, 'keys') and not isinstance(
                        value, Account):
                    for key in value.keys():
                        mixed(mon, value[key], hp, (name, attr, year))
                else:
                    mixed(mon, value, hp, (name, attr, year))
        if len(mon.violations) > 5:
            return


def forecasts(rng, mon):
    """ Whole households, in both kinds of numbers. """
    spec = c19.household(rng, hp=False, years=rng.choice([1, 2, 3, 4]))
    mon.note(spec=spec)
    shots, flows = {}, {}
    order = [False, True]
    rng.shuffle(order)
    made = {hp: world.build(dict(spec, hp=hp)) for hp in order}
    for hp in order:
        result = world.run(made[hp])
        copies = type('Made', (), dict(
            people=world.tagged(result.people),
            accounts=world.tagged(result.assets),
            debts=world.tagged(result.debts)))
        types(mon, result, copies, hp)
        shots[hp] = {
            (name, attr, year): value
            for name, obj in everyone(result, copies)
            for attr in dir(type(obj))
            if attr.endswith('_history') and not attr.startswith('_')
            for year, value in dict(getattr(obj, attr)).items()
            if number(value) and year <= obj.this_year}
        flows[hp] = {
            (name, year): {round(float(k), 6): float(v)
                           for k, v in txns.items()}
            for name, obj in everyone(result, copies)
            if name.startswith(('account', 'debt'))
            for year, txns in dict(obj.transactions_history).items()}
    mon.event('forecast')
    one, two = shots[False], shots[True]
    mon.check(set(one) == set(two), 'forecast-figures', extra=sorted(
        map(str, set(one) ^ set(two)))[:5])
    bad = [(k, one[k], two[k]) for k in one if k in two
           and not agree(one[k], two[k])]
    if bad and retimed(flows, min(k[2] for k, _, _ in bad)):
        # Rounding decides ties between times at which money is there.
        mon.event('retimed')
    elif spec.get('orderly'):
        mon.check(not bad, 'forecast-agrees', first=bad[:3], count=len(bad))
        mon.event('agreed', len(one))
    mon.interesting(spec['years'] > 1)
    mon.obs(sorted((str(k), '%.6g' % v) for k, v in one.items()))


def retimed(flows, until):
    """ Whether the first difference is only one of timing. """
    for year in sorted({y for _, y in flows[False] if y <= until}):
        late = False
        for (name, when), old in flows[False].items():
            if when != year:
                continue
            new = flows[True][name, year]
            if abs(sum(old.values()) - sum(new.values())) > 0.05:
                return False
            late = late or any(
                abs(old.get(t, 0) - new.get(t, 0)) > 0.02
                for t in set(old) | set(new))
        if late:
            return True
    return False


def agree(one, two):
    one, two = float(one), float(two)
    if not (math.isfinite(one) and math.isfinite(two)):
        return one == two
    return abs(one - two) <= max(0.05, 1e-6 * abs(one))


# -- objects side by side -------------------------------------------------

class Loud(Decimal):
    """ Another high-precision type. """


class Sample(HighPrecisionOptional):
    """ Constants of our own. """
    one = HighPrecisionOptionalProperty()
    two = HighPrecisionOptionalPropertyCached()
    three = HighPrecisionOptionalPropertyCached()

    def __init__(self, one, two, three, **kwargs):
        super().__init__(**kwargs)
        self.one, self.two, self.three = one, two, three


class SubSample(Sample):
    """ Inherited constants. """


KINDS = {None: None, 'Decimal': Decimal, 'Fraction': Fraction, 'Loud': Loud,
         'str': str}


def side(rng, mon):
    """ Objects of different precision do not affect each other. """
    objects = []
    log = mon.notes['log'] = []
    for i in range(rng.randint(2, 6)):
        kind = rng.choice(sorted(KINDS, key=str))
        hp = KINDS[kind]
        kwargs = {} if hp is None and rng.random() < 0.5 else {
            'high_precision': hp}
        values = [value(rng) for _ in range(3)]
        which = rng.randrange(4)
        if which < 2:
            obj = (Sample, SubSample)[which](*values, **kwargs)
            names = ['one', 'two', 'three']
        elif which == 2:
            obj = LivingExpensesStrategy(
                'Constant living expenses', base_amount=values[0],
                rate=values[1], **kwargs)
            names, values = ['base_amount', 'rate'], values[:2]
        else:
            if hp is str:
                continue
            values = [abs(v) + 60 if j == 2 else min(abs(v), 1) * (j + 1) / 2
                      for j, v in enumerate(values)]
            values[0] = min(values[:2])
            obj = AllocationStrategy('n-age', values[2], values[0],
                                     values[1], **kwargs)
            names = ['min_equity', 'max_equity', 'target']
        objects.append([obj, hp, dict(zip(names, values))])
    for _ in range(rng.randint(6, 25)):
        if not objects:
            break
        obj, hp, values = entry = rng.choice(objects)
        name = rng.choice(sorted(values))
        step = rng.random()
        if step < 0.25:
            new = None if rng.random() < 0.1 else value(rng)
            setattr(obj, name, new)
            values[name] = new
            log.append(('set', objects.index(entry), name, repr(new)))
            continue
        if step < 0.32 and hp is not str:
            # The type may change, too.
            hp = entry[1] = rng.choice([None, Decimal, Fraction])
            obj.high_precision = hp
            mon.event('retyped')
        got = getattr(obj, name)
        want = values[name]
        log.append(('get', objects.index(entry), name, repr(got)))
        if want is not None and hp is not None:
            want = hp(want)
        mon.check(type(got) is type(want) and got == want, 'constant',
                  name=name, got=repr(got), want=repr(want),
                  kind=str(hp), cls=type(obj).__name__)
        mon.event('read')
    for obj, hp, _ in objects:
        five = obj.precision_convert(5.5)
        want = 5.5 if hp is None else hp(5.5)
        mon.check(type(five) is type(want) and five == want, 'convert',
                  got=repr(five), want=repr(want))
    kinds = {hp for _, hp, _ in objects}
    mon.interesting(len(kinds) > 1)
    mon.obs(log)


def value(rng):
    kind = rng.random()
    if kind < 0.3:
        return rng.randint(-50, 50)
    return rng.choice([0.5, 0.1, 2.25, round(rng.uniform(-9, 9), 3)])


WORKLOADS = [Workload('components', components, 1600, 50000),
             Workload('forecasts', forecasts, 160, 6000),
             Workload('side', side, 1500, 30000)]
REQUIRED = {'compared': 30000, 'response': 15000, 'typed': 20000,
            'agreed': 5000, 'forecast': 100, 'read': 8000, 'retyped': 300}
