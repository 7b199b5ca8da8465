""" C32: the same plan in other words fares the same. """

import math
from collections import OrderedDict, defaultdict

from forecaster import Person, Scenario, Tax
from forecaster.accounts import Debt
from forecaster.tax import TaxMulti
from forecaster.canada.accounts import TaxableAccount

from checks.c19 import picture
from checks.c29 import KINDS, agree, household, moving, note, script
from vmon import gen, world
from vmon.core import Workload
from vmon.eco import Economy
from vmon.taxes import RefTax, conv_tables, random_tables
from vmon.taxes import income as random_income
from vmon.words import Otherwise

PROPERTY = 'C32'
RULE = (
    'Random households are forecast twice: with inputs put plainly, and '
    'with many of them put in another of the forms the interface accepts '
    '(rates as numbers, mappings, sequences or callables; dates as text, '
    'years or datetimes; frequencies as codes or numbers; timings as words, '
    'numbers or weights in any proportion, order or sign; brackets split '
    'in two; jurisdictions one or several; values given as arguments or '
    'as inputs in advance). All histories must agree. The recorded history '
    'of a forecast, given as inputs, must make the same forecast again. '
    'Single accounts, taxes and scenarios are put in other words likewise. '
    'Non-trivial: several inputs were put otherwise and money moved.')


def households(rng, mon):
    # (Payments all through the year may just about be affordable when
    # they are due, or not; then the last bit matters.)
    exact = rng.random() < 0.25
    spec = household(rng, float(exact))
    note(mon, spec)
    one = picture(world.run(world.build(spec)))
    say = Otherwise(
        rng, world.mode_of(spec), mon, (spec['year'], spec['years']),
        rng.choice([0.15, 0.5, 0.9]), exact)
    mon.note(share=say.share)
    made = world.build(spec, say)
    for person, data in zip(made.people, spec['people']):
        mon.check(person.birth_date.strftime('%Y-%m-%d') == data['born']
                  and person.retirement_date.strftime('%Y-%m-%d')
                  == str(data['retire']) + data['born'][4:], 'wording-dates',
                  born=person.birth_date, retires=person.retirement_date)
    two = picture(world.run(made, rng.choice([set, frozenset])))
    agree(mon, one, lived(one, two), 'wording', 0.02)
    mon.event('household-canada' if spec['canada'] else 'household-plain')
    mon.event('years', spec['years'])
    mon.interesting(moving(one) and say.said > 2)
    mon.obs([round(v, 1) for k, v in sorted(one.items(), key=str)
             if k[1] == 'balance_history'])


def lived(one, two):
    """ Leaves out what was given for years never reached. """
    years = {k[2] for k in one if isinstance(k[2], int)}
    return {k: v for k, v in two.items() if k in one or k[1] not in {
        n + '_history' for n in KEPT} or k[2] in years}


KEPT = ['gross_income', 'raise_rate', 'net_income', 'balance', 'rate']


def again(rng, mon):
    """ A forecast's own history, given as inputs, repeats it. """
    spec = household(rng)
    note(mon, spec)
    first = world.run(world.build(spec))
    one = picture(first)
    made = world.build(spec)
    kept = 0
    pairs = list(zip(world.tagged(first.people), world.tagged(made.people)))
    pairs += zip(world.tagged(first.assets), world.tagged(made.accounts))
    pairs += zip(world.tagged(first.debts), world.tagged(made.debts))
    for old, new in pairs:
        inputs = {}
        for name in KEPT:
            if hasattr(old, name + '_history') and rng.random() < 0.5:
                vals = dict(getattr(old, name + '_history'))
                if rng.random() < 0.3:
                    # Only some of the years.
                    vals = {y: v for y, v in vals.items()
                            if rng.random() < 0.7}
                inputs[name] = vals
                kept += len(vals)
        new.inputs = inputs
        for name, vals in inputs.items():
            getattr(new, '_%s_history' % name).update(vals)
        mon.event('given', len(inputs))
    two = picture(world.run(made))
    agree(mon, one, lived(one, two), 'given-again', 0.02)
    mon.interesting(moving(one) and kept > 5)


# -- single accounts -------------------------------------------------------

def perform(data, year, mod, say):
    """ What comes out of a script told by `say`. """
    kind = next(k for k in KINDS if k.__name__ == data['kind'])
    owner = Person(say.year(year), 'P', say.born('%d-03-17' % (year - 40)),
                   retirement_date=year + 30, **mod.kw)
    kwargs = dict(
        balance=say.amount(mod(data['balance'])), nper=say.nper(data['nper']),
        rate=say.rate({year + i: mod(r) for i, r in data['rate'].items()}))
    for name, val in data['limits'].items():
        kwargs[name + '_link'] = (owner, name)
        kwargs[name + '_limit'] = say.amount(mod(val))
    if kind is Debt:
        kwargs.update(minimum_payment=say.amount(mod(data['minimum'])),
                      accelerated_payment=mod(data['accel']))
    if kind is TaxableAccount:
        kwargs['acb'] = say.amount(mod(data['acb']))
    acct = kind(owner, **say.account(kwargs, year), **mod.kw)
    out = []
    for act, when, value, way, timing, hypothetical in data['acts']:
        when = mod(when)
        timing = {mod(t): mod(w) for t, w in timing.items()}
        cash = mod(value)
        if act == 'add':
            if kind is TaxableAccount and value < 0 and (
                    acct.balance_at_time(when) <= -cash
                    or acct.balance_at_time(1) <= -cash):
                continue
            say.add(acct, cash, when)
        elif act == 'balance':
            out.append(acct.balance_at_time(say.when(when)))
        elif act == 'time':
            out.append(acct.time_to_balance(
                say.amount(cash), say.when(when)))
        elif act == 'flow':
            out.append(getattr(acct, way)(say.when(when)))
        elif act == 'flows':
            limit = abs(cash) * (-1 if 'out' in way else 1)
            extra = {}
            if hypothetical:
                extra['transactions'] = {when: limit / 3}
            if value > 0:
                extra['transaction_limit'] = say.amount(limit)
            out.append(getattr(acct, way + 's')(say.timing(timing), **extra))
        elif act == 'to':
            out.append(acct.transactions_to_balance(
                say.amount(cash), say.timing(timing)))
        elif act == 'returns':
            for name in ('returns', 'taxable_income', 'acb', 'capital_gain'):
                if hasattr(acct, name):
                    out.append(getattr(acct, name))
        elif act == 'next' and acct.this_year < year + 4:
            acct.next_year()
            out.append(acct.balance)
        out.append({mod(k): v for k, v in acct.transactions.items()})
        out.append({k: acct.get(say.when(k)) for k in list(acct)})
        out.append({k: acct[say.when(k)] for k in list(acct)})
    return out


class Plainly(world.Plain):
    def add(self, acct, value, when):
        acct.add_transaction(value, when)


class Oddly(Otherwise):
    def when(self, val):
        words = {0: 'start', 1: 'end'}
        return self._pick('when', val, [lambda: words[val]]
                          if val in words else [])

    def add(self, acct, value, when):
        def assign():
            acct[self.when(when)] = acct[self.when(when)] + value

        def increase():
            acct[self.when(when)] += value

        def default():
            if when == 1:
                acct.add_transaction(value)
            else:
                acct.add_transaction(when=self.when(when), value=value)

        def halves():
            acct.add_transaction(value / 2, self.when(when))
            acct.add_transaction(value / 2, self.when(when))

        def remade():
            total = acct[when] + value
            if when in acct:
                del acct[self.when(when)]
            acct.add_transaction(total, when)
        self._pick('add', lambda: acct.add_transaction(value, when), [
            lambda: assign, lambda: increase, lambda: default,
            lambda: halves, lambda: remade])()


def same(mon, one, two, mechanism, **detail):
    if isinstance(one, dict):
        mon.check(set(one) == set(two), mechanism + '-times', **detail)
        for key in one:
            same(mon, one[key], two[key], mechanism, **detail)
        return
    want, got = float(one), float(two)
    mon.check(want == got or abs(want - got) <= 1e-9 * abs(want) + 1e-6
              or math.isnan(want) and math.isnan(got),
              mechanism, observed=got, expected=want, **detail)


def accounts(rng, mon):
    mod = gen.mode(rng)
    data = script(rng, rng.choice(KINDS))
    year = rng.randint(1990, 2040)
    mon.note(script=data, year=year, mode=mod.name)
    one = perform(data, year, mod, Plainly())
    say = Oddly(rng, mod, mon, (year, 5), rng.choice([0.2, 0.6, 1]))
    two = perform(data, year, mod, say)
    mon.check(len(one) == len(two), 'account-course')
    for i, (a, b) in enumerate(zip(one, two)):
        same(mon, a, b, 'account', index=i)
    mon.event('account-' + data['kind'])
    mon.interesting(say.said > 2 and len(one) > 3)


# -- taxes and scenarios ---------------------------------------------------

def taxes(rng, mon):
    mod = gen.mode(rng)
    year = rng.randint(1990, 2040)
    tables = random_tables(rng, year)
    model = RefTax(Economy(rng, mod), *tables)
    start = min(tables[0], key=lambda y: abs(y - year))
    rate = mod(round(rng.uniform(-0.01, 0.08), 4))
    seen = conv_tables(mod, tables)
    say = Oddly(rng, mod, mon, (year, 30), 0.6)
    mon.note(tables=tables, rate=rate, mode=mod.name, year=year)

    def adjust(target, base=None):
        base = year if base is None else base
        return (mod(1) + rate) ** (target - base)
    whens = {'payment_timing': mod(gen.when(rng, words=False)),
             'refund_timing': gen.conv(mod, gen.timing(rng))}
    plain = Tax(**seen, inflation_adjust=adjust, **whens, **mod.kw)
    # The same law in other words.
    told = dict(seen)
    first = next(iter(seen))
    told[first] = say.brackets(seen[first])
    for name in list(told)[1:]:
        if told[name]:
            told[name] = dict(reversed(list(told[name].items())))
    other = say.tax(Tax(
        **told, inflation_adjust=say.table(adjust),
        **{k: say.timing(v) for k, v in whens.items()}, **mod.kw))
    for name in whens:
        a, b = getattr(plain, name), getattr(other, name)
        same(mon, a.normalized(), b.normalized(), 'tax-' + name)
    people = []
    for i in range(rng.randint(1, 3)):
        people.append(Person(
            year, 'P%d' % i, year - 30, retirement_date=year + 30,
            gross_income=mod(max(random_income(rng, model, start), 0)),
            **mod.kw))
    if len(people) > 1 and rng.random() < 0.5:
        people[0].spouse = people[1]
    positive = 0
    for _ in range(4):
        when = rng.choice([year, year + rng.randint(-20, 20)])
        value = mod(random_income(rng, model, start))
        want = plain(value, when)
        got = other(say.amount(value), rng.choice([when, float(when)]))
        positive += want > 0
        same(mon, want, got, 'tax', income=value, year=when)
        same(mon, plain.marginal_rate(value, when),
             other.marginal_rate(value, when), 'tax-rate', year=when)
        for name in ('personal_deduction', 'credit_rate'):
            same(mon, getattr(plain, name)(when), getattr(other, name)(when),
                 'tax-' + name, year=when)
    want = plain(set(people), year)
    for form in (list, tuple, frozenset, iter, dict.fromkeys):
        if form is iter and isinstance(other, TaxMulti):
            continue
        same(mon, want, other(form(people), year), 'tax-people',
             form=form.__name__)
        mon.event('people-' + form.__name__)
    same(mon, sum((plain(p, year) for p in people), mod(0)), want,
         'tax-each')
    mon.event('tax')
    mon.interesting(positive > 1 and say.said > 1)


def scenarios(rng, mon):
    """ Rates as one number, sequences and mappings; prices from them. """
    mod = gen.mode(rng)
    year, count = rng.randint(1950, 2060), rng.randint(1, 40)
    names = ['inflation', 'stock_return', 'bond_return', 'other_return',
             'management_fees']
    data = {}
    for name in names:
        low, high = (-0.05, 0.1)
        if rng.random() < 0.4:
            data[name] = {year + i: mod(r) for r in [round(
                rng.uniform(low, high), 4)] for i in range(count + 1)}
        else:
            data[name] = {year + i: mod(round(rng.uniform(low, high), 4))
                          for i in range(count + 1)}
    mon.note(year=year, count=count, data=data, mode=mod.name)

    def forms(vals):
        out = [dict(vals), OrderedDict(reversed(list(vals.items()))),
               list(vals.values()), tuple(vals.values()),
               defaultdict(lambda: mod(0.5), vals)]
        if len(set(vals.values())) == 1:
            out += [vals[year]] * 3
        return out
    plain = Scenario(year, count, **{k: dict(v) for k, v in data.items()})
    other = Scenario(rng.choice([year, str(year), float(year)]), count,
                     **{k: rng.choice(forms(v)) for k, v in data.items()})
    mon.check(list(plain) == list(other) and len(plain) == len(other),
              'scenario-years')
    for y in plain:
        for name in names:
            mon.check(getattr(plain, name)[y] == getattr(other, name)[y],
                      'scenario-rate', name=name, year=y)
    for _ in range(8):
        a, b = (rng.randint(year, year + count) for _ in range(2))
        want = plain.inflation_adjust(a, b)
        same(mon, want, other.inflation_adjust(a, b), 'scenario-prices')
        same(mon, want, other.accumulation_function(b, a), 'scenario-accum')
        same(mon, plain.inflation_adjust(a), other.inflation_adjust(a, year),
             'scenario-base')
        table = other.inflation_adjustments(b)
        if a in table:
            same(mon, want, table[a], 'scenario-table')
    mon.event('scenario')
    mon.interesting(count > 3)


WORKLOADS = [
    Workload('households', households, 200, 9000),
    Workload('again', again, 90, 4000),
    Workload('accounts', accounts, 1000, 60000),
    Workload('taxes', taxes, 400, 20000),
    Workload('scenarios', scenarios, 300, 10000)]
REQUIRED = {'household-canada': 50, 'household-plain': 50, 'given': 500,
            'account-Account': 60, 'account-Debt': 60,
            'account-LinkedLimitAccount': 60, 'account-TaxableAccount': 60,
            'tax': 150, 'scenario': 100, 'said:rate': 300, 'said:nper': 300,
            'said:timing': 300, 'said:born': 100, 'said:retire': 100,
            'said:brackets': 100, 'said:inflation-table': 100,
            'said:tax': 50, 'said:input-balance': 100, 'said:couple': 10,
            'said:input-gross_income': 50, 'said:strategy': 50,
            'said:weights': 50, 'said:scenario': 100}
