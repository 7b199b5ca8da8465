""" C27: each part of a forecast moves the money it is there to move. """

from collections import defaultdict
from vmon import gen
from vmon.core import Workload
from vmon.folk import Folk
from forecaster import (
    Account, Debt, IncomeForecast, LivingExpensesForecast, Person,
    SavingForecast, TaxForecast, Timing, WithdrawalForecast)
from forecaster.canada.accounts import RRSP

PROPERTY = 'C27'
SCALE = 24
RULE = (
    'The sub-forecasts of random people, accounts and debts are called by '
    'themselves, year after year, in random order and number, with random '
    'money available (a surplus, a shortfall, a balance over the year, or '
    'nothing) and with strategies and taxes of our own that say, at random, '
    'how much is spent, saved, withdrawn and owed. What they did to the '
    'money available and to the accounts, what they asked of the strategy '
    'and what they report, for this year and in their histories, are '
    'compared with a separate account. Non-trivial: money moved in at '
    'least two years.')

EPS = dict(rel=1e-9, abs_=1e-3)


def spread(table, total, timing):
    whole = float(sum(timing.values()))
    for when, weight in timing.items():
        table[float(when)] = table.get(float(when), 0) + (
            total * float(weight) / whole)


def flat(table):
    out = {}
    for when, value in table.items():
        if value:
            out[float(when)] = out.get(float(when), 0) + float(value)
    return out


def same(one, two, tol=1e-3):
    return all(abs(one.get(k, 0) - two.get(k, 0)) <= tol
               + 1e-9 * abs(one.get(k, 0)) for k in set(one) | set(two))


def less(one, two):
    return {k: one.get(k, 0) - two.get(k, 0) for k in set(one) | set(two)
            if abs(one.get(k, 0) - two.get(k, 0)) > 1e-4}


class Says:
    """ A strategy that says what it is told, and remembers the question. """

    def __init__(self):
        self.answer, self.asked = None, []

    def __call__(self, *args, **kwargs):
        self.asked.append((args, kwargs))
        answer = self.answer
        return answer() if callable(answer) else answer


class Taxes:
    """ A tax that says what it is told. """

    def __init__(self, mod, rng):
        self.owing, self.asked = mod(0), []
        self.refund_timing = Timing(mod(gen.when(rng, words=False)),
                                    **mod.kw)
        self.payment_timing = Timing(mod(gen.when(rng, words=False)),
                                     **mod.kw)

    def __call__(self, people, year):
        self.asked.append((set(people), year))
        return self.owing


class House:
    """ People, what they own and owe, and money at hand. """

    def __init__(self, rng, mod, year):
        self.rng, self.mod, self.year = rng, mod, year
        self.people, self.retire = [], []
        self.income, self.share = [], []
        for i in range(rng.choice([1, 1, 2, 2, 3])):
            income = 0 if rng.random() < 0.25 else round(
                rng.uniform(1000, 2e5), 2)
            share = rng.choice([0, 0, round(rng.uniform(0, 0.6), 2)])
            if rng.random() < 0.1:
                # More is withheld than is earned.
                share = round(rng.uniform(1.1, 1.5), 2)
            kwargs = {}
            if share:
                kwargs['tax_treatment'] = lambda money, _, s=share: (
                    money * mod(s))
            if rng.random() < 0.7:
                kwargs['payment_timing'] = Timing(
                    gen.conv(mod, gen.timing(rng)), **mod.kw)
            retire = rng.randint(year - 3, year + 30)
            self.people.append(Person(
                year, 'P%d' % i, year - 60, retirement_date=retire,
                gross_income=mod(income), raise_rate=mod(gen.rate(
                    rng, -0.1, 0.2)), **kwargs, **mod.kw))
            self.retire.append(retire)
        self.accounts, self.debts = [], []
        for _ in range(rng.choice([1, 2, 3])):
            cls = rng.choice([Account, Account, RRSP])
            kwargs = {} if cls is Account else {
                'contribution_room': mod(1e6)}
            self.accounts.append(cls(
                owner=rng.choice(self.people),
                balance=mod(round(rng.uniform(3e6, 9e6), 2)),
                rate=mod(gen.rate(rng, 0, 0.1)), nper=gen.nper(rng),
                **kwargs, **mod.kw))
        for _ in range(rng.choice([0, 1, 2])):
            self.debts.append(Debt(
                owner=rng.choice(self.people),
                balance=mod(-round(rng.uniform(1e6, 2e6), 2)),
                rate=mod(gen.rate(rng, 0, 0.1)), **mod.kw))

    @property
    def everything(self):
        return self.accounts + self.debts

    def available(self, ample=False):
        """ Some money over the year. """
        rng, mod = self.rng, self.mod
        table = defaultdict(lambda: mod(0))
        if ample:
            table[mod(0)] += mod(round(rng.uniform(5e6, 9e6), 2))
        kind = rng.random()
        if kind > 0.1:
            for _ in range(rng.randint(1, 5)):
                table[mod(gen.when(rng, words=False))] += mod(
                    gen.money(rng, -3e4, 3e4))
        if kind > 0.9 and not ample:
            # All is spent.
            table[mod(1)] -= sum(table.values())
        return table

    def account(self):
        """ An account instead, with its growth. """
        rng, mod = self.rng, self.mod
        pool = Account(
            initial_year=self.year, balance=mod(gen.money(rng, 0, 3e4)),
            rate=mod(gen.rate(rng, 0, 0.1)), nper=gen.nper(rng), **mod.kw)
        for _ in range(rng.randint(0, 3)):
            pool.add_transaction(mod(gen.money(rng, 0, 3e4)),
                                 mod(gen.when(rng, words=False)))
        return pool

    def held(self):
        return [flat(a.transactions) for a in self.everything]

    def snap(self):
        return [{k: round(v, 5) for k, v in table.items()
                 if abs(v) > 1e-5} for table in self.held()], [
            round(float(a.tax_withheld), 4) for a in self.accounts]

    def group(self, items):
        """ Whichever collection callers like. """
        return self.rng.choice([set, list, tuple, frozenset])(items)

    def flows(self, items, sign):
        """ What a strategy may answer. """
        rng, mod = self.rng, self.mod
        out = {}
        for item in items:
            if rng.random() < 0.75:
                out[item] = {
                    mod(gen.when(rng, words=False)): mod(sign * round(
                        rng.uniform(1, 4e4), 2))
                    for _ in range(rng.randint(0, 3))}
        return out

    def own(self, mon):
        """ What the accounts' owners withdraw themselves. """
        rng, mod = self.rng, self.mod
        for account in self.accounts:
            if rng.random() < 0.6:
                account.add_transaction(
                    mod(-round(rng.uniform(1, 5e4), 2)),
                    mod(gen.when(rng, words=False)))
                mon.event('own-withdrawal')

    def next_year(self):
        for item in self.people + self.everything:
            while item.this_year <= self.year:
                item.next_year()
        self.year += 1


FIGURES = {
    'IncomeForecast': ['net_income'],
    # (How much to live off may be settled by asking early.)
    'LivingExpensesForecast': [],
    'SavingForecast': ['retirement_savings', 'debt_repayment', 'total'],
    'WithdrawalForecast': ['gross_withdrawals', 'net_withdrawals'],
    'TaxForecast': ['tax_withheld', 'tax_owing', 'tax_adjustment']}


def idle(mon, sub):
    """ What a sub-forecast reports when nothing has been done. """
    out = {}
    for name in FIGURES[type(sub).__name__]:
        value = getattr(sub, name)
        if isinstance(sub, (SavingForecast, WithdrawalForecast)):
            mon.close(value, 0, 'idle:' + name, **EPS)
            out[name] = 0
    mon.event('idle')
    return out


def years(rng, mon, make, play):
    """ Calls a sub-forecast year after year. """
    mod = gen.mode(rng)
    house = House(rng, mod, rng.randint(2000, 2030))
    tools = {}
    sub = make(house, tools)
    mon.note(mode=mod.name, sub=type(sub).__name__, year=house.year)
    told, busy, first = {}, 0, house.year
    for _ in range(rng.randint(1, 4)):
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            # (A repeated call takes back what the one before it did.)
            if 'start' not in tools and rng.random() < 0.3:
                house.own(mon)
            tools.setdefault('start', house.snap())
            if rng.random() < 0.3:
                if house.year in told:
                    # (Whoever looks at an earlier call's figures...)
                    for name in FIGURES[type(sub).__name__]:
                        getattr(sub, name)
                else:
                    idle(mon, sub)
            told[house.year], moved = play(mon, house, sub, tools)
            busy += bool(moved)
            mon.event('called')
            if rng.random() < 0.15:
                sub.undo_transactions()
                mon.check(not sub.transactions.keys(), 'undone-records')
                mon.check(house.snap() == tools['start'], 'undone',
                          got=repr(house.held()))
                mon.event('undone')
                del told[house.year]
                if rng.random() < 0.5:
                    idle(mon, sub)
        if house.year not in told and rng.random() < 0.5:
            figures = idle(mon, sub)
            if figures:
                told[house.year] = figures
        sub.next_year()
        house.next_year()
        tools.pop('start', None)
        mon.check(sub.this_year == house.year, 'year', got=sub.this_year)
    for year, figures in told.items():
        for name, value in figures.items():
            got = getattr(sub, name + '_history').get(year)
            mon.close(got, value, 'history:' + name, **EPS, year=year)
            mon.event('remembered')
    mon.interesting(busy > 1)


def report(mon, sub, figures):
    for name, value in figures.items():
        mon.close(getattr(sub, name), value, 'reported:' + name, **EPS)
    mon.obs(sorted((k, round(float(v), 4)) for k, v in figures.items()))


# -- income --------------------------------------------------------------

def make_income(house, tools):
    return IncomeForecast(house.year, house.group(house.people),
                          **house.mod.kw)


def income(mon, house, sub, tools):
    pooled = house.rng.random() < 0.2
    available = house.account() if pooled else house.available()
    before, held = flat(available), house.held()
    start = sum(before.values())
    if pooled:
        start = float(available.balance_at_time('end'))
        mon.event('account-available')
    sub(available)
    want = dict(before)
    for person in house.people:
        spread(want, float(person.net_income), person.payment_timing)
    if all(p.net_income >= 0 for p in house.people):
        mon.check(same(flat(available), want), 'income',
                  got=flat(available), want=want)
    else:
        # (What is taken may be put off until there is money for it.)
        mon.close(sum(flat(available).values()), sum(want.values()),
                  'income-total', **EPS)
        mon.event('income-negative')
    mon.check(house.held() == held, 'accounts-touched')
    figures = {
        'carryover': start,
        'gross_income': sum(float(p.gross_income) for p in house.people),
        'net_income': sum(float(p.net_income) for p in house.people),
        'tax_withheld': sum(float(p.tax_withheld) for p in house.people),
        'asset_sale': 0}
    report(mon, sub, figures)
    mon.event('income')
    return figures, figures['net_income']


# -- living expenses -----------------------------------------------------

def make_living(house, tools):
    tools['says'] = Says()
    return LivingExpensesForecast(
        house.year, house.group(house.people), tools['says'],
        **house.mod.kw)


def living(mon, house, sub, tools):
    rng, mod, says = house.rng, house.mod, tools['says']
    ample = rng.random() < 0.7
    available = house.available(ample)
    before, held = flat(available), house.held()
    says.answer = mod(0 if rng.random() < 0.1 else gen.pos(rng, 2e5))
    says.asked.clear()
    sub(available)
    spent = float(says.answer)
    change = less(before, flat(available))
    mon.close(sum(change.values()), spent, 'spent', **EPS)
    nets = [float(p.net_income) for p in house.people]
    # (When incomes all but cancel out, shares of them are vast.)
    vast = sum(abs(n) for n in nets) > 20 * abs(sum(nets)) > 0
    if ample and not vast:
        # (There is no reason to put anything off.)
        want = {}
        for person, net in zip(house.people, nets):
            part = net / sum(nets) if sum(nets) else 1 / len(nets)
            spread(want, spent * part, person.payment_timing)
        mon.check(same(change, want), 'spent-when-paid', got=change,
                  want=want, nets=nets)
        mon.event('living-without-income' if not sum(nets)
                  else 'living-negative-income' if min(nets) < 0
                  else 'living-shared' if len(nets) > 1 else 'living-alone')
    mon.check(house.held() == held, 'accounts-touched')
    mon.check(bool(says.asked), 'not-asked')
    _, asked = says.asked[0]
    mon.check(asked.get('year') == house.year
              and set(asked.get('people')) == set(house.people)
              and asked.get('retirement_year') == min(house.retire),
              'question', asked=repr(asked), retire=house.retire)
    figures = {'living_expenses': spent}
    report(mon, sub, figures)
    mon.event('living')
    return figures, spent


# -- savings ---------------------------------------------------------------

def make_saving(house, tools):
    tools['says'] = Says()
    return SavingForecast(
        house.year, house.group(house.accounts), house.group(house.debts),
        tools['says'], **house.mod.kw)


def saving(mon, house, sub, tools):
    rng, says = house.rng, tools['says']
    available = house.available(rng.random() < 0.5)
    before, held = flat(available), tools['start'][0]
    flows = house.flows(house.everything, 1)
    says.asked.clear()
    seen = {}
    says.answer = lambda: seen.update(flat(available)) or flows
    sub(available)
    after, now = flat(available), house.held()
    surplus = sum(before.values())
    if abs(surplus) < 1e-6:
        flows = flows if says.asked else {}
    elif surplus < 0:
        mon.check(not says.asked, 'saved-without-surplus', before=before)
        flows = {}
        mon.event('no-surplus')
    else:
        mon.check(bool(says.asked), 'not-asked')
        args, kwargs = says.asked[0]
        question = dict(kwargs)
        question.update(zip(['available', 'accounts'], args))
        mon.check(question['available'] is available and seen == before
                  and set(question['accounts']) == set(house.everything),
                  'question', asked=repr(question))
        mon.event('surplus')
    total = {}
    for item, old, new in zip(house.everything, held, now):
        total[item] = sum(float(v) for v in flows.get(item, {}).values())
        mon.close(sum(new.values()) - sum(old.values()), total[item],
                  'saved', **EPS, account=type(item).__name__)
        # Money is never saved before the strategy says.
        if flows.get(item):
            early = min(map(float, flows[item]))
            mon.check(all(k >= early - 1e-9 for k in less(new, old)),
                      'saved-early', got=less(new, old),
                      want=flat(flows[item]))
    mon.close(sum(before.values()) - sum(after.values()),
              sum(total.values()), 'taken', **EPS)
    figures = {
        'retirement_savings': sum(total[a] for a in house.accounts),
        'debt_repayment': sum(total[a] for a in house.debts),
        'total': sum(total.values())}
    report(mon, sub, figures)
    mon.event('saving')
    return figures, figures['total']


# -- withdrawals -------------------------------------------------------------

def make_withdrawal(house, tools):
    tools['says'] = Says()
    return WithdrawalForecast(
        house.year, house.group(house.people), house.group(house.accounts),
        tools['says'], **house.mod.kw)


def withdrawal(mon, house, sub, tools):
    rng, says = house.rng, tools['says']
    available = house.available(rng.random() < 0.2)
    before = flat(available)
    held, withheld = tools['start']
    flows = house.flows(house.accounts, -1)
    says.answer = flows
    says.asked.clear()
    sub(available)
    after, now = flat(available), house.held()
    mon.check(bool(says.asked), 'not-asked')
    args, kwargs = says.asked[0]
    question = dict(kwargs)
    question.update(zip(['available', 'accounts'], args))
    mon.check(question['available'] is available
              and set(question['accounts']) == set(house.accounts),
              'question', asked=repr(question))
    taken, kept = 0.0, 0.0
    for i, item in enumerate(house.accounts):
        want = sum(float(v) for v in flows.get(item, {}).values())
        mon.close(sum(now[i].values()) - sum(held[i].values()), want,
                  'withdrawn', **EPS, account=type(item).__name__)
        taken -= want
        kept += float(item.tax_withheld) - withheld[i]
        if flows.get(item):
            early = min(map(float, flows[item]))
            mon.check(all(k >= early - 1e-9 for k in less(now[i], held[i])),
                      'withdrawn-early')
    got = sum(after.values()) - sum(before.values())
    if kept > 0.01:
        mon.event('withheld')
    if kept > 0.01 and abs(got - taken - kept) < 1e-2:
        mon.violate('withholding-sign', observed=got, expected=taken - kept)
    else:
        mon.close(got, taken - kept, 'received', **EPS)
    figures = {'tax_withheld': kept,
               'gross_withdrawals': -sum(before.values())}
    mon.close(sub.tax_withheld, kept, 'reported:tax_withheld', **EPS)
    mon.close(sub.gross_withdrawals, -sum(before.values()),
              'reported:gross_withdrawals', **EPS)
    net = float(sub.net_withdrawals)
    if kept > 0.01 and abs(
            net - figures['gross_withdrawals'] - kept) < 1e-2:
        mon.violate('withholding-sign', observed=net,
                    expected=figures['gross_withdrawals'] - kept)
    else:
        mon.close(net, figures['gross_withdrawals'] - kept,
                  'reported:net_withdrawals', **EPS)
    mon.event('withdrawal')
    mon.obs(round(got, 4), round(kept, 4))
    return {'gross_withdrawals': figures['gross_withdrawals']}, taken


# -- taxes ---------------------------------------------------------------------

def make_tax(house, tools):
    tools['tax'] = Taxes(house.mod, house.rng)
    return TaxForecast(house.year, house.group(house.people), tools['tax'],
                       **house.mod.kw)


def tax(mon, house, sub, tools):
    rng, mod, treatment = house.rng, house.mod, tools['tax']
    available = house.available()
    for account in house.accounts:
        if rng.random() < 0.4:
            account.add_transaction(
                mod(-round(rng.uniform(1, 5e4), 2)),
                mod(gen.when(rng, words=False)))
    tools['start'] = house.snap()
    treatment.owing = mod(gen.money(rng, 0, 1e5))
    treatment.asked.clear()
    before, held = flat(available), house.held()
    sub(available)
    mon.check(same(flat(available), before) and house.held() == held,
              'tax-moves')
    withheld = sum(float(p.tax_withheld) for p in house.people) + sum(
        float(a.tax_withheld) for a in house.everything)
    figures = {'tax_withheld': withheld, 'tax_owing': float(treatment.owing),
               'tax_adjustment': withheld - float(treatment.owing)}
    report(mon, sub, figures)
    mon.check(treatment.asked and all(
        a == (set(house.people), house.year) for a in treatment.asked),
              'question',
              asked=repr(treatment.asked))
    mon.check(sub.tax_refund_timing == treatment.refund_timing
              and sub.tax_payment_timing == treatment.payment_timing,
              'timing')
    mon.event('tax')
    return figures, figures['tax_adjustment']


PLAYS = [(make_income, income), (make_living, living),
         (make_saving, saving), (make_withdrawal, withdrawal),
         (make_tax, tax)]


def parts(rng, mon):
    years(rng, mon, *rng.choice(PLAYS))


WORKLOADS = [Workload('parts', parts, 2500, 80000)]
REQUIRED = {'called': 4000, 'undone': 300, 'remembered': 5000,
            'income': 500, 'living': 500, 'saving': 500, 'withdrawal': 500,
            'tax': 500, 'withheld': 100, 'surplus': 200, 'no-surplus': 80,
            'living-without-income': 30, 'living-shared': 100,
            'living-alone': 100, 'living-negative-income': 30,
            'income-negative': 60, 'account-available': 100,
            'own-withdrawal': 500, 'idle': 500}
