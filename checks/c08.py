""" C08: RRSPs, RRIFs, their minimum withdrawals and withholding tax. """

from vmon import gen, ref
from vmon.core import Workload
from vmon.eco import Economy
from vmon.statute import statute
from forecaster import Person
from forecaster.canada.accounts import RRSP

PROPERTY = 'C08'
RULE = (
    'Random RRSPs of owners of 18 to 100 live for 1-15 years under any form '
    'of inflation, with random contributions and withdrawals, default or '
    'chosen (possibly illegal, possibly changed) conversion years and '
    'optional shared minimum withdrawals. Every year the conversion year, '
    'minimum withdrawal, taxable income, deduction and tax withheld are '
    'compared with an independent reading of the rules (the statutory '
    'ones, or others given to the account); so is tax on withdrawals of '
    'exactly a threshold, or a dollar off it. Non-trivial: a '
    'year with a withdrawal.')


class World:
    """ An RRSP and its plain description. """

    def __init__(self, rng, mon, mod):
        self.mod, self.mon = mod, mon
        self.year = rng.randint(2000, 2030)
        self.eco, self.law = Economy(rng, mod), statute(rng)
        if self.law.own:
            mon.event('own-rules')
        self.born = self.year - rng.choice(
            [rng.randint(18, 100), rng.randint(62, 80),
             rng.randint(68, 72)])
        owner = Person(
            self.year, 'A', '%d-%02d-%02d' % (
                self.born, rng.randint(1, 12), rng.randint(1, 28)),
            retirement_date=max(self.year, self.born + 40),
            gross_income=mod(gen.money(rng, 0, 1e5)), **mod.kw)
        self.last = self.born + self.law.conversion_age
        self.start = self.last
        self.rate, self.nper = gen.rate(rng, -0.2, 0.3), gen.nper(rng)
        self.balance = gen.money(rng, 0, 5e5)
        kwargs = dict(mod.kw, **self.law.arg(mod))
        chosen = None
        if rng.random() < 0.5:
            chosen = self.last - rng.choice(
                [0, 1, 2, 5, rng.randint(0, 40), 100])
            kwargs['rrif_conversion_year'] = rng.choice(
                [chosen, str(chosen)])
            self.start = chosen
        self.shared = 0
        if rng.random() < 0.25:
            self.shared = -gen.money(rng, 0, 2e4)
            kwargs['min_outflow_link'] = (owner, 'plan')
            kwargs['min_outflow_limit'] = mod(self.shared)
        self.owner = owner

        def make(**extra):
            return RRSP(
                owner, balance=mod(self.balance), rate=mod(self.rate),
                nper=self.nper, inflation_adjust=self.eco.arg(),
                contribution_room=mod(50000), **dict(kwargs, **extra))
        if rng.random() < 0.1:
            try:
                make(rrif_conversion_year=self.last + rng.randint(1, 9))
                mon.violate('late-conversion-accepted', born=self.born)
            except ValueError:
                mon.event('late-rejected')
        self.acct = make()
        self.txns, self.hist = {}, {}

    def spec(self):
        return dict(
            year=self.year, born=self.born, conversion=self.start,
            balance=self.balance, rate=self.rate, nper=str(self.nper),
            txns=dict(self.txns), shared=self.shared, eco=self.eco.kind,
            own=self.law.own, mode=self.mod.name)

    def convert(self, rng):
        """ Changes the conversion year, legally or not. """
        mon, acct = self.mon, self.acct
        how = rng.random()
        if how < 0.3:
            target = self.last + rng.randint(1, 20)
            try:
                if rng.random() < 0.5:
                    acct.rrif_conversion_year = target
                else:
                    acct.convert_to_rrif(target)
                mon.violate('late-conversion-accepted', year=target,
                            **self.spec())
            except ValueError:
                mon.event('late-rejected')
        elif how < 0.5:
            acct.rrif_conversion_year = None
            self.start = self.last
        elif how < 0.75 and self.year <= self.last:
            acct.convert_to_rrif()
            self.start = self.year
            mon.event('converted')
        else:
            target = min(self.year + rng.randint(-3, 6), self.last)
            acct.rrif_conversion_year = target
            self.start = target
        mon.check(acct.rrif_conversion_year == self.start,
                  'conversion-year', observed=acct.rrif_conversion_year,
                  **self.spec())

    def trade(self, rng):
        """ Records a transaction that the balance allows. """
        mod, acct = self.mod, self.acct
        when = gen.when(rng, words=False)
        value = gen.money(rng, -6e4, 2e4)
        if rng.random() < 0.3:
            value = -rng.choice([5000, 15000, 4000, 16000, 20000, 1])
        if value < 0:
            room = min(
                ref.balance_at(self.balance, self.rate, self.nper,
                               self.txns, t) / ref.accum(
                                   t - when, self.rate, self.nper)
                for t in sorted(set(self.txns) | {when, 1.0})
                if t >= when)
            value = max(value, -max(room, 0))
        acct.add_transaction(mod(value), mod(when))
        if value:
            self.txns[when] = self.txns.get(when, 0) + value

    def examine(self, rng):
        """ Compares the account's year with the rules. """
        mon, acct, spec = self.mon, self.acct, self.spec()
        age = self.year - self.born
        mon.check(acct.rrif_conversion_year == self.start,
                  'conversion-year', observed=acct.rrif_conversion_year,
                  **spec)
        least = 0
        if self.start < self.year:
            least = self.law.least(age, self.balance)
            mon.event('rrif-year')
            if age < min(self.law.minimum):
                mon.event('early-rrif')
            elif age > max(self.law.minimum):
                mon.event('late-rrif')
        else:
            mon.event('rrsp-year')
        mon.close(acct.minimum_distribution(), least, 'minimum', **spec)
        floor = min(-least, self.shared)
        mon.close(acct.min_outflow_limit, floor, 'min-outflow-limit', **spec)
        ins, outs = ref.inflows(self.txns), ref.outflows(self.txns)
        mon.close(acct.taxable_income, -outs, 'taxable-income', **spec)
        mon.close(acct.tax_deduction, ins, 'deduction', **spec)
        income = -outs
        if self.start <= self.year:
            income = max(income + floor, 0)
        wants = self.law.withheld(income, self.year, self.eco)
        got = float(acct.tax_withheld)
        mon.check(any(abs(got - w) < 1e-6 * max(1, w) for w in wants),
                  'withheld', observed=got, expected=sorted(wants),
                  income=income, **spec)
        if income > 0:
            mon.event('withheld')
            mon.interesting()
        timing = gen.timing(rng)
        flows = acct.min_outflows(gen.conv(self.mod, timing))
        want = ref.to_balance(
            self.balance, self.rate, self.nper, self.txns, 0, timing,
            min(floor - outs, 0), 0)
        flows = {float(k): float(v) for k, v in flows.items() if v != 0}
        want = {k: v for k, v in want.items() if v != 0}
        for key in set(flows) | set(want):
            mon.close(flows.get(key, 0), want.get(key, 0), 'min-outflows',
                      abs_=1e-5, timing=timing, **spec)
        self.hist[self.year] = {
            'taxable_income': -outs, 'tax_deduction': ins,
            'tax_withheld': got}
        mon.obs(self.year, got, float(acct.taxable_income))

    def next_year(self):
        acct = self.acct
        self.balance = ref.year_end(
            self.balance, self.rate, self.nper, self.txns)
        acct.next_year()
        self.owner.next_year()
        self.mon.close(acct.balance, self.balance, 'balance', abs_=1e-4,
                       **self.spec())
        self.balance = float(acct.balance)
        self.year += 1
        self.txns = {}


def lives(rng, mon):
    world = World(rng, mon, gen.mode(rng))
    mon.note(**world.spec())
    for _ in range(rng.choice([1, 2, 3, 5, 8, 15])):
        if rng.random() < 0.2:
            world.convert(rng)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            world.trade(rng)
        if rng.random() < 0.1:
            # An early look must not freeze anything.
            world.examine(rng)
            world.trade(rng)
        world.examine(rng)
        world.next_year()
    for year, vals in world.hist.items():
        for name, want in vals.items():
            mon.close(getattr(world.acct, name + '_history')[year], want,
                      'history', name=name, year=year, abs_=1e-6)


def edges(rng, mon):
    """ Withdrawals right at, and next to, the thresholds. """
    mod = gen.mode(rng)
    year = rng.randint(2000, 2030)
    owner = Person(year, 'A', year - rng.randint(20, 60),
                   retirement_date=year + 30, gross_income=mod(0), **mod.kw)
    law = statute(rng)
    acct = RRSP(owner, balance=mod(10 ** 6), rate=mod(gen.rate(rng, 0, 0.1)),
                contribution_room=mod(0), **law.arg(mod), **mod.kw)
    table = law.withhold[ref.nearest(law.withhold, year)]
    bracket = rng.choice([b for b in table if b] or [5000])
    income = bracket + rng.choice([0, 0, 0, 1, -1])
    parts = [income]
    if rng.random() < 0.5:
        first = rng.randint(1, income - 1)
        parts = [first, income - first]
    for part in parts:
        acct.add_transaction(mod(-part), mod(rng.choice([0, 0.5, 1])))
    want, = law.withheld(income, year, exact=True)
    mon.note(year=year, parts=parts, mode=mod.name)
    mon.close(acct.tax_withheld, want, 'withheld', income=income)
    mon.event('threshold')
    mon.obs(year, parts)
    mon.interesting()


def spousal(rng, mon):
    """ Plans that someone else contributes to end with the owner's age. """
    mod = gen.mode(rng)
    year = rng.randint(2000, 2030)
    ages = [rng.randint(20, 69), rng.randint(20, 69)]
    owner, giver = (
        Person(year, 'P%d' % i, year - age, retirement_date=year + 60,
               gross_income=mod(5000), **mod.kw)
        for i, age in enumerate(ages))
    law = statute(rng)
    acct = RRSP(owner, balance=mod(1000), rate=mod(0), contributor=giver,
                contribution_room=mod(0), **law.arg(mod), **mod.kw)
    last = year - ages[0] + law.conversion_age
    mon.note(year=year, ages=ages, mode=mod.name)
    for _ in range(rng.randint(1, 4)):
        mon.check(acct.rrif_conversion_year == last, 'conversion-year',
                  observed=acct.rrif_conversion_year, want=last)
        mon.check(acct.contributor is giver and acct.owner is owner,
                  'parties')
        if acct.this_year <= last:
            mon.close(acct.min_outflow_limit, 0, 'minimum', abs_=1e-9)
        if last < acct.this_year:
            mon.check(acct.min_outflow_limit < 0, 'no-minimum')
        if rng.random() < 0.5:
            try:
                acct.rrif_conversion_year = last + rng.randint(1, 3)
                mon.violate('late-conversion-accepted', ages=ages)
            except ValueError:
                mon.event('late-rejected')
            acct.rrif_conversion_year = last
        owner.next_year()
        giver.next_year()
        acct.next_year()
    mon.event('spousal')
    mon.obs(year, ages)
    mon.interesting(ages[0] != ages[1])


WORKLOADS = [Workload('lives', lives, 8000, 150000),
             Workload('edges', edges, 500, 5000),
             Workload('spousal', spousal, 600, 10000)]
REQUIRED = {'rrif-year': 3000, 'rrsp-year': 3000, 'early-rrif': 500,
            'late-rrif': 200, 'withheld': 3000, 'late-rejected': 200,
            'converted': 100, 'threshold': 400, 'own-rules': 1000,
            'spousal': 300}
