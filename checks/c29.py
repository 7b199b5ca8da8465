""" C29: units of money, calendars and bystanders make no difference. """

import math
from copy import deepcopy
from vmon import gen, trees, world
from vmon.core import Workload
from vmon.eco import Economy
from vmon.taxes import income as random_income, random_tables, RefTax
from vmon.taxes import conv_tables
from vmon.units import FACTORS, SHIFTS, RATES, View
from checks.c14 import amount, available, totals
from checks.c19 import distinct, picture
from forecaster import Account, Debt, Person, Tax
from forecaster.accounts import LinkedLimitAccount
from forecaster.canada.accounts import TaxableAccount, PrincipleResidence
from forecaster.strategy import TransactionTraversal

PROPERTY = 'C29'
RULE = (
    'Random households are forecast twice: as they are, and with every '
    'amount of money (the law\'s included) in another unit, with every date '
    'moved by years or centuries, or with people and debts added who earn, '
    'own and owe nothing. All histories have to agree once the unit and the '
    'dates are taken into account. The same is done with single accounts '
    'put through random operations, with tax schedules, and with money '
    'allocated along priority trees. Non-trivial: money moves in the '
    'forecast (or account, or tree) in at least two years (or ways).')


# -- whole forecasts -------------------------------------------------------

def household(rng, simple=0.25, **kwargs):
    """ A household whose forecast does not depend on the order of sets. """
    spec = distinct(world.make_spec(rng, **kwargs))
    if rng.random() >= simple:
        for person in spec['people']:
            person['timing'] = {0: 1}
        spec['payment_timing'] = spec['refund_timing'] = 0
    else:
        spec['people'], spec['spouses'] = spec['people'][:1], False
        spec['accounts'], spec['debts'] = spec['accounts'][:1], []
        spec['accounts'][0]['owner'] = 0
        spec['accounts'][0].pop('contributor', None)
    # Nothing lies exactly on an edge.
    for name in ('living', 'retired_living'):
        if name in spec:
            spec[name]['base_amount'] += 0.37
    rates = spec['scenario']['inflation']
    if isinstance(rates, dict):
        for year in rates:
            rates[year] += 0.000013
    else:
        spec['scenario']['inflation'] += 0.000013
    return spec


def flat(val, name=()):
    """ {name: amount} of a recorded value. """
    if isinstance(val, tuple):
        out = {}
        for part, sub in val:
            for key, x in flat(sub, name + (part,)).items():
                out[key] = out.get(key, 0) + x
        return out
    return {name: val}


def agree(mon, want, got, mechanism, unit=1.0, **detail):
    """ Two pictures agree up to what solver and rounding leave. """
    mon.check(set(want) == set(got), mechanism + '-what', differ=sorted(
        map(str, set(want) ^ set(got)))[:5], **detail)
    bad = []
    for key, val in want.items():
        one, two = flat(val), flat(got[key])
        for name in set(one) | set(two):
            a, b = one.get(name, 0), two.get(name, 0)
            if a == b:
                continue
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                slack = 1e-9 if key[1] in RATES else 0.5 * unit
                if abs(a - b) <= slack + 1e-6 * abs(a):
                    continue
            bad.append((key, name, a, b))
    mon.oracle += len(want)
    mon.event('compared', len(want))
    mon.check(not bad, mechanism, first=sorted(bad, key=lambda x: x[0][2])[:3],
              count=len(bad), **detail)


def moving(pic):
    """ Whether money moves in at least two years. """
    return len({k[2] for k, v in pic.items()
                if k[1] == 'transactions_history' and v}) > 1


def look(spec):
    return picture(world.run(world.build(spec)))


def note(mon, spec, **kwargs):
    mon.note(spec={k: v for k, v in spec.items() if k != 'constants'},
             **kwargs)


def units(rng, mon):
    spec = household(rng, 0)
    view = View(rng.choice(FACTORS))
    if rng.random() < 0.3:
        view.shift = rng.choice(SHIFTS)
    if spec['hp']:
        view.factor = rng.choice([2, 4, 16, 1024])
    note(mon, spec, factor=view.factor, shift=view.shift)
    one = look(spec)
    two = look(view.spec(spec))
    agree(mon, view.picture(one), two, 'unit', max(view.factor, 1),
          factor=view.factor, shift=view.shift)
    mon.event('units-canada' if spec['canada'] else 'units-plain')
    mon.event('years', spec['years'])
    mon.interesting(moving(one))
    mon.obs([round(v, 1) for k, v in sorted(one.items(), key=str)
             if k[1] == 'balance_history'])


def calendar(rng, mon):
    spec = household(rng)
    view = View(1, rng.choice(SHIFTS))
    note(mon, spec, shift=view.shift)
    one = look(spec)
    two = look(view.spec(spec))
    agree(mon, view.picture(one), two, 'calendar', shift=view.shift)
    mon.event('calendar-canada' if spec['canada'] else 'calendar-plain')
    mon.event('years', spec['years'])
    mon.interesting(moving(one))
    mon.obs([round(v, 1) for k, v in sorted(one.items(), key=str)
             if k[1] == 'balance_history'])


def bystanders(rng, mon):
    spec = household(rng)
    count = len(spec['people'])
    flat_ = all(p['timing'] == {0: 1} for p in spec['people'])
    if flat_ and any(p['income'] for p in spec['people']):
        # Somebody always earns: those who do bear the expenses.
        for person in spec['people']:
            person['retire'] = max(
                person['retire'], spec['year'] + spec['years'] + 1)
    more = deepcopy(spec)
    if flat_ and any(p['income'] for p in spec['people']):
        first = min(p['retire'] for p in spec['people'])
        more['people'].append({
            'born': '%d-%02d-%02d' % (
                first - rng.randint(20, 60), rng.randint(1, 12), 17),
            'retire': first, 'income': 0, 'raise': 0.02,
            'timing': spec['people'][0]['timing'],
            'taxed': rng.random() < 0.7})
        mon.event('bystander-person')
    for _ in range(rng.choice([0, 1, 2])):
        more['debts'].append({
            'owner': rng.randrange(len(more['people'])), 'balance': 0,
            'rate': round(rng.uniform(0, 0.2), 3), 'nper': gen.nper(rng),
            'minimum': round(rng.uniform(0, 8000), -1),
            'accel': rng.choice([0, 5000, 'inf']), 'timing': None})
        mon.event('bystander-debt')
    note(mon, spec, added=(more['people'][count:],
                           more['debts'][len(spec['debts']):]))
    one = look(spec)
    two = look(more)
    new = {'person-%d' % count} | {
        'debt-%d' % i
        for i in range(len(spec['debts']), len(more['debts']))}
    agree(mon, one, {k: v for k, v in two.items() if k[0] not in new},
          'bystander')
    for key, val in two.items():
        if key[0] in new and key[1] not in RATES:
            mon.check(all(abs(x or 0) < 1e-2 for x in flat(val).values()),
                      'bystander-touched', key=key, value=val)
    mon.event('bystanders')
    mon.interesting(moving(one) and bool(new) and len(two) > len(one))


# -- single accounts -------------------------------------------------------

KINDS = [Account, Debt, LinkedLimitAccount, TaxableAccount,
         PrincipleResidence]


def script(rng, kind):
    """ An account and what is done with it, as plain data. """
    cash = gen.pos(rng, 1e6)
    data = {
        'balance': cash, 'nper': gen.nper(rng), 'kind': kind.__name__,
        'rate': {y: gen.rate(rng, 0 if kind is Debt else -0.3, 0.6)
                 for y in range(5)},
        'limits': {}, 'acts': []}
    for name in ('max_inflow', 'min_inflow', 'max_outflow', 'min_outflow'):
        if kind is LinkedLimitAccount and rng.random() < 0.6:
            data['limits'][name] = gen.pos(rng, cash) * (
                -1 if 'out' in name else 1)
    if kind is Debt:
        data['minimum'] = gen.pos(rng, cash / 3)
        data['accel'] = rng.choice([math.inf, gen.pos(rng, cash)])
        data['balance'] = -cash
    if kind is TaxableAccount:
        data['acb'] = gen.pos(rng, cash)
    whens = [gen.when(rng, words=False) for _ in range(4)]
    for _ in range(rng.randint(6, 14)):
        act = rng.choice([
            'add', 'add', 'balance', 'time', 'flows', 'flows', 'flows',
            'flow', 'to', 'returns', 'next'])
        data['acts'].append((
            act, rng.choice(whens),
            gen.money(rng, -cash / 3, cash)
            if act == 'add' else rng.uniform(-0.5, 2.5) * cash,
            rng.choice(['max_inflow', 'min_inflow', 'max_outflow',
                        'min_outflow']),
            {w: rng.uniform(0.1, 2) for w in rng.sample(
                whens, rng.randint(1, 3))},
            rng.random() < 0.4))
    return data


def perform(data, view, year, mod):
    """ What comes out of a script: a list of (kind, value). """
    year = view.year(year)
    owner = Person(year, 'P', year - 40, retirement_date=year + 30, **mod.kw)
    kind = next(k for k in KINDS if k.__name__ == data['kind'])

    def cash(val):
        return mod(view.money(val))
    kwargs = dict(mod.kw)
    for name, val in data['limits'].items():
        kwargs[name + '_link'] = (owner, name)
        kwargs[name + '_limit'] = cash(val)
    if kind is Debt:
        kwargs.update(minimum_payment=cash(data['minimum']),
                      accelerated_payment=cash(data['accel']))
    if kind is TaxableAccount:
        kwargs['acb'] = cash(data['acb'])
    acct = kind(
        owner, balance=cash(data['balance']), nper=data['nper'],
        rate={year + i: mod(r) for i, r in data['rate'].items()}, **kwargs)
    out = []
    for act, when, value, way, timing, hypothetical in data['acts']:
        when = mod(when)
        timing = {mod(t): mod(w) for t, w in timing.items()}
        if act == 'add':
            if kind is TaxableAccount and value < 0 and (
                    acct.balance_at_time(when) <= cash(-value)
                    or acct.balance_at_time(1) <= cash(-value)):
                # (Nothing is left to share the cost with.)
                out.append(('skip', 0))
                continue
            acct.add_transaction(cash(value), when)
        elif act == 'balance':
            out.append(('money', acct.balance_at_time(when)))
        elif act == 'time':
            out.append(('time', acct.time_to_balance(cash(value), when)))
        elif act == 'flow':
            out.append(('money', getattr(acct, way)(when)))
        elif act == 'flows':
            limit = cash(abs(value) * (-1 if 'out' in way else 1))
            extra = {}
            if hypothetical:
                extra['transactions'] = {when: limit / 3}
            if value > 0:
                extra['transaction_limit'] = limit
            out.append(('flows', getattr(acct, way + 's')(timing, **extra)))
        elif act == 'to':
            out.append(('flows', acct.transactions_to_balance(
                cash(value), timing)))
        elif act == 'returns':
            out.append(('money', acct.returns))
            out.append(('money', acct.taxable_income))
            for name in ('acb', 'capital_gain'):
                if hasattr(acct, name):
                    out.append(('money', getattr(acct, name)))
        elif act == 'next' and acct.this_year < year + 4:
            acct.next_year()
            out.append(('year', acct.this_year))
            out.append(('money', acct.balance))
    return out


def accounts(rng, mon):
    mod = gen.mode(rng)
    kind = rng.choice(KINDS)
    data = script(rng, kind)
    view = View(rng.choice([1, 2 ** 10, 2 ** -6, 2 ** 20, 0.5, 2]),
                rng.choice(SHIFTS + [0] * 8))
    if mod is gen.DECIMAL:
        view.factor = rng.choice([1, 10, 1000, 100000])
    year = rng.randint(1990, 2040)
    mon.note(script=data, year=year, factor=view.factor, shift=view.shift,
             mode=mod.name)
    one = perform(data, View(), year, mod)
    two = perform(data, view, year, mod)
    mon.check([k for k, _ in one] == [k for k, _ in two], 'account-course')
    for i, ((what, a), (_, b)) in enumerate(zip(one, two)):
        if what == 'year':
            mon.check(b == a + view.shift, 'account-year', seen=b)
        elif what == 'flows':
            mon.check(set(a) == set(b), 'account-times', index=i)
            for when in a:
                same(mon, a[when], b[when], view.factor, 'account-flows', i)
        else:
            same(mon, a, b, view.factor if what == 'money' else 1,
                 'account-' + what, i)
    mon.event('account-' + kind.__name__)
    mon.interesting(sum(1 for k, _ in one if k != 'skip') > 3)
    mon.obs([str(b)[:12] for _, b in one])


def same(mon, one, two, factor, mechanism, index):
    want, got = float(one) * float(factor), float(two)
    mon.check(
        want == got or abs(want - got) <= 1e-9 * abs(want) + 1e-9 * factor
        or math.isnan(want) and math.isnan(got),
        mechanism, index=index, observed=got, expected=want)


# -- taxes -----------------------------------------------------------------

def taxes(rng, mon):
    mod = gen.mode(rng)
    year = rng.randint(1990, 2040)
    tables = random_tables(rng, year)
    model = RefTax(Economy(rng, mod), *tables)
    rates = {y: round(rng.uniform(0, 0.06), 4)
             for y in range(year - 60, year + 60)}
    view = View(rng.choice([1, 2 ** 10, 2 ** -4, 2 ** 20, 2]),
                rng.choice(SHIFTS + [0] * 6))
    if mod is gen.DECIMAL:
        view.factor = rng.choice([1, 10, 100000])

    def adjust(shift):
        def factor(target, base):
            out = mod(1.0)
            for y in range(min(target, base), max(target, base)):
                out = out * (1 + mod(rates[y - shift]))
            return out if target >= base else 1 / out
        return factor
    inflated = rng.random() < 0.6
    brackets, deduction, credit = tables
    pair = []
    for way in (View(), view):
        seen = (way.brackets(brackets),
                deduction and way.amounts(deduction),
                credit and way.years(credit))
        extra = dict(inflation_adjust=adjust(way.shift)) if inflated else {}
        pair.append(Tax(**conv_tables(mod, seen), **extra, **mod.kw))
    start = min(brackets, key=lambda y: abs(y - year))
    mon.note(tables=tables, factor=view.factor, shift=view.shift,
             mode=mod.name, inflated=inflated, year=year)
    positive = 0
    for _ in range(rng.choice([2, 5])):
        when = rng.choice([year, year + rng.randint(-20, 20)])
        value = random_income(rng, model, start)
        less, credits_ = gen.money(rng, 0, 2e4), gen.money(rng, 0, 1e4)
        out = []
        for way, tax in zip((View(), view), pair):
            def cash(val, way=way):
                return mod(way.money(val))
            then = way.year(when)
            table = tax.tax_brackets(then)
            out.append([
                ('tax', tax(cash(value), then)),
                ('tax-after', tax(cash(value), then, cash(less),
                                  cash(credits_))),
                ('deduction', tax.personal_deduction(then)
                 if deduction else 0)] + [
                ('threshold', key) for key in sorted(table)] + [
                ('accum', tax.accum(then)[key]) for key in sorted(table)])
            out[-1].append(
                ('rates', [table[key] for key in sorted(table)]))
        mon.check([k for k, _ in out[0]] == [k for k, _ in out[1]],
                  'tax-shape', year=when)
        for (what, a), (_, b) in zip(*out):
            if what == 'rates':
                mon.check(a == b, 'tax-rates', one=a, two=b)
                continue
            want, got = float(a) * view.factor, float(b)
            mon.close(got, want, 'tax-' + what, rel=1e-9,
                      abs_=1e-6 * view.factor, income=value, year=when)
            positive += what == 'tax' and want > 0
    mon.event('tax')
    mon.interesting(positive > 1)


# -- allocations -----------------------------------------------------------

def allocations(rng, mon):
    mod = gen.mode(rng, 0.15)
    mins = rng.random() < 0.5
    root = trees.random_tree(
        rng, mod, depth=rng.choice([1, 2, 3]), mins=mins, width=3,
        limits=rng.choice([0, 0.3]))
    sign = rng.choice([1, -1])
    total = sign * amount(rng)
    factor = rng.choice([3, 10, 1000, 12345.678, 1e6, 0.1])
    mon.note(tree=root.describe(), total=total, factor=factor, mode=mod.name)
    state = rng.getstate()

    def split(scale):
        rng.setstate(state)
        got = totals(TransactionTraversal(
            root.build(rng, mod), *trees.methods(), **mod.kw)(
                available(rng, mod, total * scale)))
        return {n.leaf: float(got.get(n.leaf, 0)) for n in root.leaves()}
    one = split(1)
    for node in root.nodes():
        node.limit = {k: v * factor for k, v in node.limit.items()}
        if node.kind == 'leaf':
            node.leaf.limits = {
                k: v * factor for k, v in node.leaf.limits.items()}
    two = split(factor)
    for leaf, val in one.items():
        mon.close(two[leaf], val * factor, 'allocation', rel=1e-7,
                  abs_=3e-3 * max(factor, 1), leaf=str(leaf))
    mon.event('allocation')
    mon.interesting(sum(1 for x in one.values() if x) > 1)
    mon.obs([round(x, 3) for x in one.values()])


WORKLOADS = [Workload('units', units, 250, 9000),
             Workload('calendar', calendar, 250, 9000),
             Workload('bystanders', bystanders, 150, 6000),
             Workload('accounts', accounts, 1500, 60000),
             Workload('taxes', taxes, 600, 20000),
             Workload('allocations', allocations, 400, 15000)]
REQUIRED = {'units-canada': 50, 'units-plain': 50, 'calendar-canada': 50,
            'calendar-plain': 50, 'bystanders': 80, 'bystander-person': 30,
            'bystander-debt': 30, 'account-Account': 100,
            'account-Debt': 100, 'account-LinkedLimitAccount': 100,
            'account-TaxableAccount': 100, 'tax': 300, 'allocation': 200}
