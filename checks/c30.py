""" C30: looking is free: what is read or asked changes nothing. """

import inspect
import random
from decimal import Decimal
from copy import copy, deepcopy
from vmon import gen, world
from vmon.core import Workload
from checks.c03 import key_name
from checks.c19 import alike, household, picture
from checks import c28
from forecaster import (
    Debt, Forecast, LivingExpensesForecast, Timing)
from forecaster.canada.accounts import RRSP, TaxableAccount
from forecaster.canada.accounts.registered_account import RegisteredAccount

PROPERTY = 'C30'
RULE = (
    'Twins of random households live the same years, the one looked at '
    'throughout (any property, history, limit, permitted flow, balance, '
    'tax, strategy, rate, copy or text of anybody, in any order, between '
    'and within the steps of its forecasts), the other never until the '
    'end. Everything that can then be seen of them must be the same. '
    'Non-trivial: at least ten looks at a household that moves money or '
    'lives a year.')

# The forecast of living expenses, once read, stands (until reset).
EARLY = {'living_expenses', 'living_expenses_history', 'savings',
         'savings_history'}
TIMES = ['start', 'end', 0, 0.25, 0.5, 0.75, 1]


def when(rng, mod):
    time = rng.choice(TIMES)
    return time if isinstance(time, str) else mod(time)


def flows(rng, mod):
    return {mod(t): mod(gen.money(rng, -5e3, 5e3))
            for t in rng.sample([0, 0.25, 0.5, 1], rng.choice([0, 1, 2]))}


def timing(rng, mod):
    kind = rng.random()
    if kind < 0.4:
        return None
    if kind < 0.6:
        return {mod(0): mod(1), mod(1): mod(1)}
    return Timing(mod(rng.choice([0, 0.5, 1])), **mod.kw)


def ask_account(rng, mod, acct):
    """ One of the questions that may be put to an account. """
    which = rng.randrange(12)
    if isinstance(acct, RegisteredAccount) and rng.random() < 0.3:
        which = rng.choice([10, 11])
    if which == 0:
        return acct.balance_at_time(when(rng, mod), flows(rng, mod) or None)
    if which == 1:
        return acct.time_to_balance(
            mod(gen.money(rng, -1e5, 1e5)), when(rng, mod))
    if which == 2:
        return (acct.inflows(flows(rng, mod) or None),
                acct.outflows(flows(rng, mod) or None))
    if which in (3, 4):
        name = rng.choice(['max_inflow', 'max_outflow', 'min_inflow',
                           'min_outflow'])
        return getattr(acct, name)(when(rng, mod))
    if which in (5, 6, 7):
        name = rng.choice(['max_inflows', 'max_outflows', 'min_inflows',
                           'min_outflows'])
        kwargs = {}
        if rng.random() < 0.3:
            kwargs['transactions'] = flows(rng, mod)
        if rng.random() < 0.3:
            kwargs['balance_limit'] = mod(gen.money(rng, -1e4, 1e5))
        if rng.random() < 0.3:
            kwargs['transaction_limit'] = mod(gen.money(rng, -1e4, 1e5))
        if rng.random() < 0.2:
            kwargs['group_transactions'] = {acct: flows(rng, mod)}
        return getattr(acct, name)(timing(rng, mod), **kwargs)
    if which == 8:
        return acct.transactions_to_balance(
            mod(gen.money(rng, -1e4, 1e5)), timing(rng, mod))
    if which == 9:
        return [acct[t] for t in TIMES], [t in acct for t in TIMES], len(
            acct), list(acct), list(acct.items()), acct.get('end')
    if which == 10 and isinstance(acct, RegisteredAccount):
        return acct.next_contribution_room()
    if which == 11 and isinstance(acct, RRSP):
        return acct.minimum_distribution()
    return bool(acct), acct == acct, hash(acct) == hash(acct)


def ask_tax(rng, made, single=False):
    """ (Which of two spouses who are equals gets a credit is chance.) """
    tax, mod, people = made.tax, made.mod, made.people
    year = people[0].this_year + rng.choice([0, 0, 0, 1])
    which = rng.randrange(8)
    alone = [p for p in people if p.spouse is None] if single else people
    if not alone and which in (1, 6, 7):
        which = 0
    income = mod(gen.money(rng, 0, 2e5))
    if which == 0:
        return tax(set(people), year)
    if which == 1:
        return tax(rng.choice(alone), year)
    if which == 2:
        return tax(income, year)
    if made.spec['canada']:
        tax = rng.choice([tax.federal_tax, tax.provincial_tax])
    if which == 3:
        return tax.marginal_rate(income, year)
    if which == 4:
        return tax.tax_brackets(year), tax.accum(year)
    if which == 5:
        return tax.personal_deduction(year), tax.credit_rate(year)
    person = rng.choice(alone)
    if which == 6:
        return tax.credit(person, year), tax.deduction(person, year)
    return tax.tax_person(person, year)


def ask_strategies(rng, made):
    mod, people = made.mod, made.people
    which = rng.randrange(4)
    if which == 0:
        room = {mod(t): mod(gen.money(rng, 0, 3e4)) for t in (0, 0.5, 1)}
        return made.saving(room, accounts=set(
            made.accounts + rng.choice([[], made.debts])))
    if which == 1:
        need = {mod(t): mod(-gen.money(rng, 0, 3e4)) for t in (0, 0.5, 1)}
        return made.withdrawal(need, accounts=set(made.accounts))
    if which == 2:
        return made.living(
            year=people[0].this_year, people=set(people),
            retirement_year=min(p.retirement_date.year for p in people))
    return made.saving.debt_priority(made.debts)


def ask_scenario(rng, made):
    scenario = made.scenario
    years = list(scenario)
    one, two = rng.choice(years), rng.choice(years)
    return (scenario.accumulation_function(one, two),
            scenario.inflation_adjust(one, two),
            scenario.discount_rate(one), len(scenario),
            scenario.inflation[one], one in scenario)


def copies(rng, made):
    return deepcopy((made.people, made.accounts, made.debts))


def ask_ledger(rng, mod, item, called=True):
    """ Reads some properties of a ledger, in any order. """
    cls = type(item)
    names = [n for n in dir(cls) if not n.startswith('_') and isinstance(
        inspect.getattr_static(cls, n), property)]
    if not called:
        names = [n for n in names if n not in EARLY]
    for name in rng.sample(names, min(len(names), rng.choice([1, 2, 5, 40]))):
        value = getattr(item, name)
        if name.endswith('_history'):
            dict(value)
    if rng.random() < 0.1:
        repr(item), str(item), copy(item.__dict__)


def plainly(value):
    """ An answer in plain values, the same for twins. """
    if isinstance(value, dict) and all(
            isinstance(k, (int, float, Decimal)) for k in value):
        return [[k, plainly(value[k])] for k in sorted(value)]
    if isinstance(value, dict):
        return {key_name(k): plainly(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [plainly(v) for v in value]
    if isinstance(value, (set, frozenset)):
        return sorted(key_name(v) for v in value)
    if hasattr(value, 'verif_tag'):
        return key_name(value)
    return value


def answers(made, seed, count):
    """ What a household answers to some questions. """
    rng = random.Random(seed)
    out = {}
    for i in range(count):
        # (Proposals depend on the order of sets, if only slightly.)
        kind = rng.choice(['account', 'account', 'tax', 'scenario'])
        state = rng.getrandbits(64)
        asked = random.Random(state)
        try:
            if kind == 'account':
                acct = asked.choice(made.accounts + made.debts)
                got = ask_account(asked, made.mod, acct)
            elif kind == 'tax':
                got = ask_tax(asked, made, single=True)
            else:
                got = ask_scenario(asked, made)
        except (ArithmeticError, ValueError, KeyError, AttributeError,
                TypeError) as error:
            got = type(error).__name__
        out[i, kind, state] = plainly(got)
    return out


class Eyes:
    """ Looks around a household, without staring. """

    def __init__(self, rng, mon, made, often):
        self.rng, self.mon, self.made, self.often = rng, mon, made, often
        self.busy = False
        self.looks = 0
        self.expenses_of = None
        self.steps = []
        kinds = ['person', 'account', 'own', 'tax', 'strategy', 'scenario',
                 'forecast', 'copy']
        # Some look at everything, others at certain things only.
        self.kinds = kinds if rng.random() < 0.6 else rng.sample(kinds, 2)

    def __deepcopy__(self, memo):
        return self

    def __call__(self, where):
        if self.busy or self.rng.random() > self.often:
            return
        self.busy = True
        try:
            for _ in range(self.rng.choice([1, 1, 2, 4])):
                kind = self.rng.choice(self.kinds)
                if kind == 'copy' and self.rng.random() < 0.8:
                    continue
                try:
                    self.look(kind)
                    self.mon.event('look:' + kind)
                except (ArithmeticError, ValueError, KeyError,
                        AttributeError, TypeError) as error:
                    self.mon.event('answerless')
                    self.mon.event('answerless:%s:%s' % (
                        kind, type(error).__name__))
                self.looks += 1
                self.mon.event('look')
            self.mon.event('looked:' + where)
        finally:
            self.busy = False

    def look(self, kind):
        rng, made = self.rng, self.made
        accounts = made.accounts + made.debts
        if kind == 'person':
            person = rng.choice(made.people)
            ask_ledger(rng, made.mod, person)
            person.age(person.this_year)
        elif kind == 'own':
            ask_ledger(rng, made.mod, rng.choice(accounts))
        elif kind == 'account':
            ask_account(rng, made.mod, rng.choice(accounts))
        elif kind == 'tax':
            ask_tax(rng, made)
        elif kind == 'strategy':
            ask_strategies(rng, made)
        elif kind == 'scenario':
            ask_scenario(rng, made)
        elif kind == 'copy':
            copies(rng, made)
        elif self.steps:
            item = rng.choice(self.steps)
            ask_ledger(rng, made.mod, item, called=self.called(item))

    def called(self, item):
        """ Whether living expenses have been forecast for the year. """
        return self.expenses_of == item.this_year


# -- by hand -----------------------------------------------------------
def view(made):
    """ What can be seen of a household, in plain values. """
    out = c28.shots(made)
    for person in made.people:
        out['person', person.verif_tag] = (
            person.this_year, person.name, person.birth_date,
            person.retirement_date, dict(person.payment_timing),
            sorted(a.verif_tag + 100 * isinstance(a, Debt)
                   for a in person.accounts))
    for i, acct in enumerate(made.accounts + made.debts):
        out['account', i] = (
            acct.this_year, acct.owner.verif_tag, dict(acct.items()),
            dict(acct.default_timing), acct.max_inflow_limit,
            acct.min_inflow_limit, acct.max_outflow_limit,
            acct.min_outflow_limit, acct.balance_at_time('end'),
            acct.max_inflow('end'), acct.max_outflow('end'))
    return out


def by_hand(rng, mon):
    """ A household goes its way, looked at or not. """
    spec, (seen, unseen) = c28.twins(rng, mon, years=8)
    eyes = Eyes(rng, mon, seen, rng.choice([0.2, 0.6, 1]))
    eyes.kinds = [k for k in eyes.kinds if k != 'forecast'] or ['account']
    moved = years = 0
    order = list(range(len(seen.accounts + seen.debts)))
    for _ in range(rng.randint(2, 8)):
        eyes('by-hand')
        if rng.random() < 0.6:
            script = c28.a_script(rng, seen)
            for item in script:
                for one in (unseen, seen):
                    c28.act([item], one)
                eyes('among-moves')
            moved += len(script)
        elif rng.random() < 0.2:
            # A new balance (which gains once worked out don't notice).
            tag = rng.choice([
                i for i, acct in enumerate(seen.accounts + seen.debts)
                if not isinstance(acct, TaxableAccount)] or [None])
            if tag is None:
                continue
            value = gen.money(rng, 1000, 1e5)
            for one in (unseen, seen):
                acct = (one.accounts + one.debts)[tag]
                acct.balance = one.mod(
                    -value if isinstance(acct, Debt) else value)
            mon.event('balance-set')
        elif rng.random() < 0.2:
            tag = rng.choice(range(len(seen.accounts)))
            for one in (unseen, seen):
                acct = one.accounts[tag]
                if isinstance(acct, RRSP) and (
                        acct.rrif_conversion_year > acct.this_year):
                    acct.convert_to_rrif()
                    mon.event('converted')
        else:
            rng.shuffle(order)
            for one in (unseen, seen):
                c28.advance(one, order)
            years += 1
    eyes('at-last')
    c28.compare(mon, view(seen), view(unseen), 'by-hand', spec=spec)
    seed = rng.getrandbits(64)
    c28.compare(mon, answers(seen, seed, 12), answers(unseen, seed, 12),
                'answers', spec=spec)
    mon.obs((years, moved, eyes.looks, spec['people'], spec['accounts']))
    mon.interesting(eyes.looks >= 10 and (moved or years))


# -- forecasts ---------------------------------------------------------
def watched(cls, eyes):
    """ A sub-forecast that is looked at as it goes. """
    class Watched(cls):
        def __call__(self, available):
            eyes('before-' + cls.__name__)
            super().__call__(available)
            if cls is LivingExpensesForecast:
                eyes.expenses_of = self.this_year
            eyes('after-' + cls.__name__)

        def add_transaction(self, *args, **kwargs):
            eyes('within-' + cls.__name__)
            super().add_transaction(*args, **kwargs)
    Watched.__name__ = cls.__name__
    return Watched


class Peeking:
    """ A callable that is looked over the shoulder of. """

    def __init__(self, func, eyes, name):
        self.func, self.eyes, self.name = func, eyes, name

    def __call__(self, *args, **kwargs):
        self.eyes('asking-' + self.name)
        out = self.func(*args, **kwargs)
        self.eyes('asked-' + self.name)
        return out

    def __getattr__(self, name):
        if name.startswith('__') or name == 'func':
            raise AttributeError(name)
        return getattr(self.func, name)


def forecast_seen(made, eyes):
    """ A forecast of `made` under observation. """
    steps = world.subforecasts(made)
    for step in steps.values():
        step.__class__ = watched(type(step), eyes)
    eyes.steps = list(steps.values())
    for step, name in (('saving_forecast', 'transaction_strategy'),
                       ('withdrawal_forecast', 'transaction_strategy'),
                       ('living_expenses_forecast',
                        'living_expenses_strategy'),
                       ('tax_forecast', 'tax_treatment')):
        one = steps[step]
        setattr(one, name, Peeking(getattr(one, name), eyes, step))

    class Watching(Forecast):
        def call_subforecasts(self):
            if self not in eyes.steps:
                eyes.steps.append(self)
            eyes('year-begins')
            super().call_subforecasts()
            eyes('year-done')

        def next_year(self):
            eyes('year-ends')
            # (While it turns, some are a year ahead of others.)
            eyes.busy = True
            try:
                super().next_year()
            finally:
                eyes.busy = False

    return Watching(scenario=made.scenario, **steps, **made.mod.kw)


def forecasts(rng, mon):
    spec = household(rng, years=rng.choice([1, 2, 3, 4]))
    if 'orderly' not in spec:
        spec['people'], spec['spouses'] = spec['people'][:1], False
        spec['accounts'], spec['debts'] = spec['accounts'][:1], []
        spec['accounts'][0]['owner'] = 0
        spec['accounts'][0].pop('contributor', None)
        spec['orderly'] = 'simple'
    mon.note(spec=spec)
    seen, unseen = world.build(spec), world.build(spec)
    eyes = Eyes(rng, mon, seen, rng.choice([0.05, 0.3, 1]))
    one = forecast_seen(seen, eyes)
    two = world.run_direct(unseen)
    for _ in range(rng.choice([0, 0, 1])):
        for item in (one, two):
            item.next_year()
            item.call_subforecasts()
    eyes('at-last')
    alike(mon, picture(one), picture(two), 'forecast', spec)
    mon.obs((eyes.looks, spec['people'], spec['accounts']))
    mon.interesting(eyes.looks >= 10)


WORKLOADS = [
    Workload('by_hand', by_hand, 1000, 40000),
    Workload('forecasts', forecasts, 400, 10000),
]
REQUIRED = dict({'look:' + kind: 1000 for kind in (
    'person', 'account', 'own', 'tax', 'strategy', 'scenario', 'forecast',
    'copy')}, **{
        'looked:%s-%s' % (place, step): 100
        for place in ('before', 'after') for step in (
            'IncomeForecast', 'LivingExpensesForecast', 'SavingForecast',
            'WithdrawalForecast')}, **{
        'looked:year-begins': 100, 'looked:year-ends': 100,
        'looked:among-moves': 2000, 'balance-set': 100, 'converted': 50,
        'look': 20000})
