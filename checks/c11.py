""" C11: tax payable by people and groups of people. """

import collections
from vmon import gen
from vmon.core import Workload
from vmon.eco import Economy
from vmon.folk import Folk
from vmon.taxes import RefTax, conv_tables, random_tables
from forecaster import Tax

PROPERTY = 'C11'
SCALE = 8
RULE = (
    'Random groups of 1-4 people (some married), with accounts that carry '
    'income, deductions and credits of their own, are assessed alone and '
    'in random subsets passed as any kind of collection, with extra '
    'deductions and credits for some, for the current and all past years '
    'of a life of 1-4 years; totals are compared with the sum of '
    'independent individual assessments. A subclass that rewards couples '
    'shows how often couples are assessed together. Non-trivial: at least '
    'two people with tax to pay.')


class Wedding(Tax):
    """ Couples that are assessed together receive a bonus. """

    BONUS = 123.25

    def tax_spouses(self, people, year, deduction=None, credit=None):
        base = super().tax_spouses(people, year, deduction, credit)
        return base - self.precision_convert(self.BONUS)


def assess(rng, mon, folk, tax, model, year, tally, spouses):
    mod = folk.mod
    count = len(folk.people)
    picked = [i for i in range(count) if rng.random() < 0.7]
    extra = {'deduction': {}, 'credit': {}}
    for i in range(count):
        for name in extra:
            if rng.random() < 0.3:
                extra[name][i] = gen.money(rng, 0, 2e4)
    call = {}
    for name, vals in extra.items():
        if vals or rng.random() < 0.3:
            call[name] = {folk.people[i]: mod(v) for i, v in vals.items()}
            if rng.random() < 0.25:
                call[name] = collections.defaultdict(lambda: 0, call[name])
                mon.event('default-dict')
    given = {name: dict(vals) for name, vals in call.items()}
    detail = dict(picked=picked, year=year, extra=extra, tally=tally,
                  brackets=model._brackets, deduction=model._deduction,
                  rate=model._credit_rate, spouses=list(spouses),
                  mode=mod.name)

    def owed(i, more=extra):
        mine = tally[i]
        return model.money(
            mine['income'], year,
            mine['deduction'] + model.deduction(year)
            + more['deduction'].get(i, 0),
            mine['credit'] + more['credit'].get(i, 0))
    group = folk.gather(picked)
    before = set(group)
    ways = [tax, tax.tax_people]
    if len(picked) == 2:
        ways.append(tax.tax_spouses)
    got = rng.choice(ways)(group, year, **call)
    want = sum(owed(i) for i in picked)
    scale = max(1.0, sum(abs(tally[i]['income']) for i in picked))
    mon.close(got, want, 'group-tax', abs_=1e-7 * scale, **detail)
    mon.check(set(group) == before, 'group-mutated')
    mon.check(call == given, 'arguments-mutated', **detail)
    mon.event('group')
    for i in picked:
        one = {}
        for name, vals in extra.items():
            if i in vals:
                one[name] = mod(vals[i])
        got = rng.choice([tax, tax.tax_person])(
            folk.people[i], year, **one)
        mon.close(got, owed(i), 'person-tax', abs_=1e-7 * scale, who=i,
                  **detail)
        mon.event('person')
    # A couple is assessed together, exactly once, if both are there.
    party = Wedding(inflation_adjust=model.eco.arg(), **conv_tables(
        mod, (model._brackets, model._deduction, model._credit_rate)),
        **mod.kw)
    couples = sum(1 for i in picked if spouses[i] in picked) // 2
    mon.close(party(folk.gather(picked), year, **call),
              want - Wedding.BONUS * couples, 'couples',
              abs_=1e-7 * scale, **detail)
    mon.event('couples', couples)
    mon.check(call == given, 'arguments-mutated', **detail)
    return sum(owed(i) > 0 for i in picked) > 1


def groups(rng, mon):
    mod = gen.mode(rng)
    year = rng.randint(2005, 2030)
    eco = Economy(rng, mod)
    tables = random_tables(rng, year)
    tax = Tax(inflation_adjust=eco.arg(), **conv_tables(mod, tables),
              **mod.kw)
    model = RefTax(eco, *tables)
    folk = Folk(rng, mod, year, canada=rng.random() < 0.4)
    mon.note(**folk.describe())
    past, rich = {}, False
    for _ in range(rng.choice([1, 2, 3, 4])):
        year = folk.year
        folk.trade()
        if rng.random() < 0.15:
            folk.divorce(rng.randrange(len(folk.people)))
        if len(folk.people) > 2 and rng.random() < 0.15:
            folk.marry(*rng.sample(range(len(folk.people)), 2))
        if rng.random() < 0.2:
            folk.open()
        for _ in range(rng.choice([1, 1, 2])):
            tally = [folk.tally(i) for i in range(len(folk.people))]
            for i, person in enumerate(folk.people):
                for name, key in (
                        ('taxable_income', 'income'),
                        ('tax_deduction', 'deduction'),
                        ('tax_credit', 'credit')):
                    mon.close(getattr(person, name), tally[i][key],
                              name, abs_=1e-4, **folk.describe())
            rich |= assess(
                rng, mon, folk, tax, model, year, tally, folk.spouse)
            if rng.random() < 0.5:
                folk.trade()
        past[year] = [folk.tally(i) for i in range(len(folk.people))]
        folk.next_year()
        for then in past:
            if rng.random() < 0.5:
                assess(rng, mon, folk, tax, model, then, past[then],
                       folk.spouse)
                mon.event('past-year')
    mon.obs([[sorted(t.items()) for t in p] for p in past.values()])
    mon.interesting(rich)


WORKLOADS = [Workload('groups', groups, 5000, 100000)]
REQUIRED = {'group': 5000, 'person': 5000, 'couples': 1000,
            'past-year': 2000}
