""" C23: people earn, age, retire and marry consistently. """

import calendar
from datetime import datetime
from decimal import Decimal
from vmon import eco as economy, gen, taxes
from vmon.core import Workload
from vmon.folk import Itemized
from forecaster import Account, Debt, Person, Timing
from forecaster.canada import (
    PrincipleResidence, RRSP, TFSA, TaxableAccount)

PROPERTY = 'C23'
SCALE = 16
RULE = (
    'Random careers (every form of birth date, retirement, raise and tax '
    'treatment; figures known in advance; raises, pay, retirement and '
    'accounts changed on the way) are followed year by year and compared '
    'with a plain model. Ages are compared with birthdays counted one by '
    'one, and chains of marriages and of owners of accounts with tables. Non-trivial: a '
    'career with raises that ends, or is changed; a remarriage; an age on '
    'the day before, of or after a birthday.')


def date_of(rng, year):
    """ A date in `year`, sometimes at the edges of the calendar. """
    if rng.random() < 0.25:
        month, day = rng.choice([(1, 1), (12, 31), (2, 28), (2, 29), (3, 1)])
    else:
        month, day = rng.randint(1, 12), rng.randint(1, 28)
    if (month, day) == (2, 29) and not calendar.isleap(year):
        day = 28
    return datetime(year, month, day)


def written(rng, date):
    """ A way to write a date down. """
    return rng.choice([
        date, date, '%d-%02d-%02d' % (date.year, date.month, date.day),
        date.strftime('%B %d, %Y'), date.strftime('%d %b %Y'), date.date()])


def anniversary(born, year):
    """ The birthday in `year`. """
    if (born.month, born.day) == (2, 29) and not calendar.isleap(year):
        return datetime(year, 2, 28)
    return datetime(year, born.month, born.day)


def age(born, date):
    """ Birthdays had by `date`, counted one by one. """
    years, year = 0, born.year
    if date >= born:
        while anniversary(born, year + 1) <= date:
            year, years = year + 1, years + 1
        return years
    while anniversary(born, year) > date:
        year, years = year - 1, years - 1
    return years


def dates(rng, mon):
    year = rng.randint(1940, 2010)
    born = date_of(rng, year)
    given = written(rng, born)
    if rng.random() < 0.15:
        given = rng.choice([year, str(year)])
        born = datetime(year, 1, 1)
    retire = date_of(rng, year + rng.randint(1, 90))
    how = written(rng, retire)
    if rng.random() < 0.3:
        how = rng.choice([int, str])(retire.year)
        retire = anniversary(born, retire.year)
    mod = gen.mode(rng, 0.2)
    mon.note(born=str(given), retire=str(how))
    person = Person(year + 20, 'Name', given, how, **mod.kw)
    mon.check(person.birth_date == born, 'birth-date',
              got=str(person.birth_date), want=str(born))
    retired(mon, person, born, retire)
    for _ in range(4):
        when = date_of(rng, year + rng.randint(-3, 110))
        kind = rng.random()
        if kind < 0.25:
            when = anniversary(born, when.year)
            step = rng.choice([-1, 0, 1])
            when = datetime.fromordinal(when.toordinal() + step)
            mon.event('birthday:%+d' % step)
            mon.interesting()
        asked = written(rng, when)
        want = age(born, when)
        if kind > 0.8:
            asked = rng.choice([int, str])(when.year)
            want = when.year - year
            mon.event('by-year')
        got = person.age(asked)
        mon.check(got == want and type(got) is int, 'age', got=got,
                  want=want, date=str(asked))
        mon.event('age')
    # Retiring at an age.
    years = rng.randint(0, 100)
    person.retirement_age = years
    retire = anniversary(born, born.year + years)
    retired(mon, person, born, retire)
    mon.check(person.retirement_age == years, 'retirement-age-set',
              got=person.retirement_age, want=years)
    early = datetime.fromordinal(born.toordinal() - rng.choice([1, 400]))
    for value, error in [(early, ValueError), (None, NotImplementedError)]:
        try:
            if value is not None and rng.random() < 0.5:
                person.retirement_date = value
            else:
                Person(2000, 'Name', born, value)
        except error:
            mon.event('rejected')
        else:
            mon.check(False, 'accepted', value=str(value))
        retired(mon, person, born, retire)
    mon.obs(born, years)


def retired(mon, person, born, retire):
    mon.check(person.retirement_date == retire, 'retirement-date',
              got=str(person.retirement_date), want=str(retire))
    mon.check(person.retirement_age == age(born, retire), 'retirement-age',
              got=person.retirement_age, want=age(born, retire))


# -- careers -----------------------------------------------------------

class Flat:
    """ A simple tax treatment. """

    def __init__(self, mod, rates):
        self.mod, self.rates = mod, rates

    def __call__(self, income, year):
        return self.mod(self.rates[year]) * income


def treatment(rng, mod, year, span):
    kind = rng.random()
    if kind < 0.25:
        return None, lambda income, when: 0.0
    if kind < 0.6:
        rates = {y: round(rng.uniform(0, 0.6), 3)
                 for y in range(year - 1, year + span + 2)}
        return Flat(mod, rates), lambda income, when: rates[when] * income
    world = economy.Economy(rng, mod)
    tax, reference, _ = taxes.build(rng, mod, world, year)
    return tax, reference.money


def careers(rng, mon):
    mod = gen.mode(rng)
    year, span = rng.randint(1999, 2050), rng.randint(1, 10)
    born = date_of(rng, year - rng.randint(18, 70))
    leaves = max(year + rng.randint(-3, span + 3), born.year)
    raises, given = raise_rates(rng, mod, year, span)
    income = rng.choice([None, 0, gen.money(rng, 0, 2e5)])
    tax, withheld = treatment(rng, mod, year, span)
    known = {}
    for name in ('gross_income', 'net_income', 'raise_rate'):
        if rng.random() < 0.2:
            known[name] = {
                year + rng.randint(1, span): mod(
                    rng.choice([0, 0.05, 0.5]) if name == 'raise_rate'
                    else gen.money(rng, 0, 1e5))
                for _ in range(rng.randint(1, 3))}
    kwargs = {}
    timing = None
    if rng.random() < 0.5:
        timing = gen.conv(mod, gen.timing(rng))
        kwargs['payment_timing'] = rng.choice([dict, Timing])(timing)
    if known:
        kwargs['inputs'] = {k: dict(v) for k, v in known.items()}
    retire = date_of(rng, leaves)
    if retire < born:
        retire = born
    person = Person(
        year, 'Name', born, retire, gross_income=mod(income),
        raise_rate=given, tax_treatment=tax, **kwargs, **mod.kw)
    mon.note(mode=mod.name, year=year, leaves=leaves, income=income,
             raises=repr(given), known=repr(known))
    log = mon.notes['log'] = []
    mon.check(dict(person.payment_timing) == dict(
        Timing(timing) if timing else Timing()), 'payment-timing')
    gross, net, raised = {}, {}, {}
    gross[year] = float(income or 0)
    net[year] = gross[year] - withheld(gross[year], year)
    raised[year] = raises(year)
    accounts = []
    wages = 0
    for now in range(year, year + span + 1):
        if now > year:
            fresh = {}
            raised[now] = float(known.get('raise_rate', {}).get(
                now, raises(now)))
            if now in known.get('gross_income', {}):
                gross[now] = float(known['gross_income'][now])
                mon.event('known')
            elif retire.year < now:
                gross[now] = 0.0
                mon.event('retired')
            else:
                gross[now] = gross[now - 1] * (1 + raised[now])
                wages += bool(raised[now] and gross[now])
            if rng.random() < 0.1 and now not in known.get(
                    'gross_income', {}):
                gross[now] = float(gen.money(rng, 0, 2e5))
                person.gross_income = mod(gross[now])
                log.append((now, 'paid', gross[now]))
                mon.event('paid')
            fresh[now] = gross[now] - withheld(gross[now], now)
            net[now] = float(known.get('net_income', {}).get(
                now, fresh[now]))
        look(mon, person, now, gross, net, raised, withheld, accounts)
        if rng.random() < 0.25:
            accounts.append(Itemized(
                person, initial_year=now, items={
                    name: {y: mod(gen.money(rng, 0, 1e4)) for y in range(
                        now, year + span + 2) if rng.random() < 0.7}
                    for name in ('income', 'deduction', 'credit')},
                **mod.kw))
            look(mon, person, now, gross, net, raised, withheld, accounts)
        if rng.random() < 0.08:
            leaves = max(now + rng.randint(-2, 4), born.year)
            retire = date_of(rng, leaves)
            if retire < born:
                retire = born
            person.retirement_date = written(rng, retire)
            log.append((now, 'retires', str(retire)))
            mon.event('replanned')
        if rng.random() < 0.08:
            raises, given = raise_rates(rng, mod, year, span)
            person.raise_rate_callable = given
            log.append((now, 'raises', repr(given)))
            mon.event('renegotiated')
        person.next_year()
        for account in accounts:
            account.next_year()
    mon.interesting(wages > 1 and (gross[year + span] == 0 or bool(log)))
    mon.obs([round(v, 2) for v in gross.values()],
            [round(v, 2) for v in net.values()])


def raise_rates(rng, mod, year, span):
    """ Raises: as looked up, and as given. """
    kind = rng.random()
    if kind < 0.2:
        return (lambda y: 0.0), rng.choice([None, 0])
    if kind < 0.5:
        value = gen.rate(rng, -0.2, 0.4)
        return (lambda y: value), mod(value)
    values = {y: gen.rate(rng, -0.2, 0.4)
              for y in range(year - 1, year + span + 2)}
    if kind < 0.75:
        return values.__getitem__, gen.conv(mod, values)
    return values.__getitem__, lambda y: mod(values[y])


def look(mon, person, now, gross, net, raised, withheld, accounts):
    mon.check(person.this_year == now, 'year')
    detail = dict(year=now)
    tol = dict(rel=1e-9, abs_=1e-6)
    mon.close(person.gross_income, gross[now], 'gross', **tol, **detail)
    mon.close(person.raise_rate, raised[now], 'raise', **tol, **detail)
    mon.close(person.tax_withheld, withheld(gross[now], now), 'withheld',
              **tol, **detail)
    mon.close(person.net_income, net[now], 'net', **tol, **detail)
    for name, what in [('taxable_income', 'income'),
                       ('tax_deduction', 'deduction'),
                       ('tax_credit', 'credit')]:
        want = sum(float(a.items[what].get(now, 0)) for a in accounts)
        if name == 'taxable_income':
            want += gross[now]
        mon.close(getattr(person, name), want, name, **tol, **detail)
    mon.check(person.accounts == set(accounts), 'accounts')
    for name, model in [('gross_income', gross), ('net_income', net),
                        ('raise_rate', raised)]:
        history = getattr(person, name + '_history')
        for year, value in model.items():
            mon.check(year in history, 'history-missing', name=name,
                      missing=year)
            mon.close(history[year], value, 'history:' + name, **tol,
                      at=year, **detail)
    if person.high_precision is not None:
        mon.check(isinstance(person.gross_income, Decimal), 'precision')
    mon.event('year')


# -- couples -----------------------------------------------------------

def couples(rng, mon):
    mod = gen.mode(rng, 0.2)
    people, married = [], {}
    log = mon.notes['log'] = []
    incomes = []

    def part(one):
        other = married.pop(one, None)
        if other is not None:
            del married[other]
            mon.event('parted')
        return other
    for _ in range(rng.randint(4, 16)):
        action = rng.random()
        if len(people) < 3 or action < 0.15:
            spouse = None
            if people and rng.random() < 0.5:
                spouse = rng.randrange(len(people))
            income = gen.money(rng, 0, 1e5)
            person = Person(
                2000, 'P%d' % len(people), 1970, 2030,
                gross_income=mod(income),
                spouse=None if spouse is None else people[spouse], **mod.kw)
            people.append(person)
            incomes.append(income)
            if spouse is not None:
                if part(spouse) is not None:
                    mon.event('taken')
                    mon.interesting()
                married[spouse] = len(people) - 1
                married[len(people) - 1] = spouse
            log.append(('new', spouse))
        elif action < 0.25:
            one = rng.randrange(len(people))
            log.append(('alone', one))
            people[one].spouse = None
            part(one)
        elif action < 0.32:
            one = rng.randrange(len(people))
            try:
                people[one].spouse = rng.choice(['Name', 5, people])
            except TypeError:
                mon.event('rejected')
            else:
                mon.check(False, 'accepted-spouse')
        else:
            one, two = rng.sample(range(len(people)), 2)
            log.append(('marry', one, two))
            people[one].spouse = people[two]
            before = part(one), part(two)
            if any(b is not None for b in before):
                mon.event('remarried')
                mon.interesting()
            married[one], married[two] = two, one
        for i, person in enumerate(people):
            want = married.get(i)
            mon.check(person.spouse is (
                None if want is None else people[want]), 'spouse',
                      person=i, want=want)
    best = max(people)
    mon.check(float(best.gross_income) == float(max(map(mod, incomes))),
              'highest-earner')
    ranked = [p.gross_income for p in sorted(people)]
    mon.check(ranked == sorted(ranked), 'ranking')
    mon.obs(sorted(married.items()), log)


def ownership(rng, mon):
    """ Accounts that change hands (or don't). """
    mod = gen.mode(rng, 0.3)
    people = [
        Person(2000, 'P%d' % i, 1950 + 7 * i, 2040,
               gross_income=mod(gen.money(rng, 0, 1e5)), **mod.kw)
        for i in range(rng.choice([2, 2, 3]))]
    kinds = [Account, Debt, RRSP, TFSA, TaxableAccount, PrincipleResidence]
    held, owns, gives, moved = [], [], [], []
    log = mon.notes['log'] = []
    for step in range(rng.randint(3, 14)):
        action = rng.random()
        if not held or action < 0.3:
            kind = rng.choice(kinds)
            one = rng.randrange(len(people))
            kwargs, two = {}, one
            if kind in (RRSP, TFSA) and rng.random() < 0.5:
                two = rng.randrange(len(people))
                kwargs['contributor'] = people[two]
            if kind in (RRSP, TFSA):
                kwargs['contribution_room'] = mod(1000)
            acct = kind(people[one], balance=mod(100), rate=mod(0.1),
                        **kwargs, **mod.kw)
            held.append(acct)
            owns.append(one)
            gives.append(two if kind in (RRSP, TFSA) else None)
            moved.append(0)
            log.append(('new', kind.__name__, one, two))
        else:
            i = rng.randrange(len(held))
            what = rng.random()
            if what < 0.15:
                try:
                    held[i].owner = rng.choice(['Name', 3, people])
                except TypeError:
                    mon.event('owner-rejected')
                else:
                    mon.check(False, 'accepted-owner')
            elif what < 0.3 and type(held[i]) in (Account, TaxableAccount):
                log.append(('none', i))
                held[i].owner, owns[i] = None, None
            else:
                one = rng.randrange(len(people))
                if rng.random() < 0.3 and owns[i] is not None:
                    one = owns[i]
                log.append(('give', i, one))
                mon.event('kept' if owns[i] == one else 'given')
                held[i].owner, owns[i] = people[one], one
                mon.interesting()
            value = gen.money(rng, -10, 10)
            moved[i] += value
            held[i].add_transaction(mod(value), mod(0.5))
        for i, acct in enumerate(held):
            mon.check(acct.owner is (
                None if owns[i] is None else people[owns[i]]), 'owner',
                      account=i, want=owns[i])
            if gives[i] is not None:
                mon.check(acct.contributor is people[gives[i]],
                          'contributor', account=i, want=gives[i])
            mon.close(acct[0.5], moved[i], 'moved', abs_=1e-9)
        for j, person in enumerate(people):
            want = {id(a) for a, o in zip(held, owns) if o == j}
            mon.check({id(a) for a in person.accounts} == want
                      and len(person.accounts) == len(want), 'accounts',
                      person=j, log=list(log))
            income = float(person.gross_income) + sum(
                float(a.taxable_income) for a, o in zip(held, owns)
                if o == j)
            mon.close(person.taxable_income, income, 'income', abs_=1e-6)
    mon.obs(owns, log)


WORKLOADS = [Workload('dates', dates, 2500, 60000),
             Workload('careers', careers, 2500, 60000),
             Workload('couples', couples, 1500, 30000),
             Workload('ownership', ownership, 1500, 30000)]
REQUIRED = {'age': 8000, 'birthday:-1': 300, 'birthday:+0': 300,
            'birthday:+1': 300, 'by-year': 800, 'year': 10000,
            'retired': 1500, 'known': 300, 'paid': 500, 'replanned': 500,
            'renegotiated': 500, 'remarried': 2000, 'taken': 100,
            'parted': 1000, 'rejected': 2000, 'kept': 500,
            'given': 1000}
