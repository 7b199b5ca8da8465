""" C12: tax owed to several jurisdictions, and Canadian credits. """

import collections
import itertools
from vmon import gen
from vmon.core import Workload
from vmon.eco import Economy
from vmon.folk import Folk
from vmon.taxes import (
    RefTax, build, income as random_income, random_brackets)
from forecaster import Timing
from forecaster.tax import TaxMulti
from forecaster.canada import TaxCanada
from forecaster.canada.constants import ConstantsCanada

PROPERTY = 'C12'
SCALE = 6
RULE = (
    'Combinations of 2-3 random schedules, and Canadian federal and '
    'provincial schedules (statutory or random constants), assess amounts, '
    'people and groups with deductions and credits addressed to particular '
    'jurisdictions. Canadian families have RRSP withdrawals and spouses of '
    'any relative income, are followed for 1-4 years and reassessed for '
    'past years; liabilities are compared with the sum of independent '
    'assessments including the pension and spousal credits. Non-trivial: '
    'a positive liability in at least two jurisdictions.')

FEDERAL = {0: 0.15, 45961.23: 0.205, 91921.45: 0.26, 142493.82: 0.29,
           203000.00: 0.33}
STATUTE = {
    'TAX_PERSONAL_DEDUCTION': {'Federal': {2017: 11635}, 'BC': {2017: 10208}},
    'TAX_PENSION_CREDIT': {'Federal': {2017: 2000}, 'BC': {2017: 1000}},
    'TAX_CREDIT_RATE': {'Federal': {2017: 0.15}, 'BC': {2017: 0.0506}},
    'TAX_BRACKETS': {'Federal': {2017: FEDERAL}, 'BC': {2017: FEDERAL}},
    'TAX_SPOUSAL_AMOUNT': {'Federal': {2017: 11635}, 'BC': {2017: 9614}}}


def roomy(rng, mon, given, missing=0):
    """ At times the same mapping, with a value for whatever is missing. """
    if rng.random() > 0.25:
        return given
    mon.event('default-dict')
    return collections.defaultdict(lambda: missing, given)


def multi(rng, mon):
    """ Several jurisdictions add up. """
    mod = gen.mode(rng)
    year = rng.randint(2005, 2030)
    eco = Economy(rng, mod)
    parts = [build(rng, mod, eco, year, **{
        name: gen.conv(mod, gen.timing(rng)) for name in (
            'payment_timing', 'refund_timing') if rng.random() < 0.4})
             for _ in range(rng.choice([2, 3]))]
    if rng.random() < 0.15:
        # One jurisdiction may levy the same tax twice.
        parts[-1] = parts[0]
        mon.event('levied-twice')
    taxes, models = [p[0] for p in parts], [p[1] for p in parts]
    tax = TaxMulti(rng.choice([list, tuple, iter])(taxes))
    mon.check(tuple(tax.jurisdictions) == tuple(taxes), 'jurisdictions')
    detail = dict(brackets=[m._brackets for m in models], mode=mod.name)
    mon.note(**detail)
    for _ in range(rng.choice([2, 5, 8])):
        when = rng.choice([year, gen.year_near(rng, year)])
        amount = random_income(rng, rng.choice(models), when)
        call, want, split = {}, 0, {'deductions': {}, 'credits_': {}}
        for name in split:
            for i in range(len(taxes)):
                if rng.random() < 0.3:
                    split[name][i] = gen.money(rng, 0, 2e4)
            if split[name] or rng.random() < 0.2:
                if taxes[-1] is taxes[0]:
                    split[name].pop(len(taxes) - 1, None)
                    if 0 in split[name]:
                        split[name][len(taxes) - 1] = split[name][0]
                call[name] = roomy(rng, mon, {
                    taxes[i]: mod(v) for i, v in split[name].items()})
        before = {k: dict(v) for k, v in call.items()}
        wants = [m.money(amount, when, split['deductions'].get(i, 0),
                         split['credits_'].get(i, 0))
                 for i, m in enumerate(models)]
        want = sum(wants)
        tol = 1e-7 * max(1, abs(amount))
        info = dict(detail, year=when, income=amount, split=split)
        got = rng.choice([tax, tax.tax_money])(mod(amount), when, **call)
        mon.close(got, want, 'multi-tax', abs_=tol, **info)
        mon.check(call == before, 'arguments-mutated')
        mon.event('multi')
        mon.interesting(sum(w > 0 for w in wants) > 1)
        brackets = tax.tax_brackets(when)
        keys = sorted({k for m in models for k, _ in m.brackets(when)})
        mon.check(len(brackets) == len(keys), 'combined-count', **info)
        whole = tax.accum(when)
        mon.check(sorted(whole) == sorted(brackets), 'accum-keys',
                  observed=sorted(whole), **info)
        for got, want in zip(sorted(brackets), keys):
            mon.close(got, want, 'combined-bracket', abs_=1e-6, **info)
            rate = sum(max([(k, r) for k, r in m.brackets(when)
                            if k <= want + 1e-9], default=(0, 0))[1]
                       for m in models)
            mon.close(brackets[got], rate, 'combined-rate', **info)
            mon.close(tax.tax_brackets(when, got), rate, 'combined-rate-arg')
            mon.close(tax.accum(when, got),
                      sum(max(m.gross(want, when), 0) for m in models),
                      'combined-accum', abs_=1e-5, bracket=want, **info)
            mon.check(whole[got] == tax.accum(when, got), 'accum-arg',
                      bracket=want, **info)
        rate = float(tax.marginal_rate(mod(amount), when))
        low = float(tax.marginal_bracket(mod(amount), when))
        mon.check(any(
            abs(rate - sum(r for _, r in c)) < 1e-9
            and abs(low - max(k for k, _ in c)) < 1e-6
            for c in itertools.product(
                *(m.marginal(amount, when) for m in models))),
                  'combined-marginal', observed=(low, rate), **info)
        mon.close(tax.personal_deduction(when), models[0].deduction(when),
                  'first-deduction', **info)
        mon.close(tax.credit_rate(when), models[0].credit_rate(when),
                  'first-credit-rate', **info)
        mon.obs(when, [round(w, 3) for w in wants])
    # Groups of people:
    folk = Folk(rng, mod, year)
    folk.trade()
    for _ in range(2):
        count = len(folk.people)
        picked = [i for i in range(count) if rng.random() < 0.7]
        call, split = {}, {}
        for name in ('deductions', 'credits_'):
            split[name] = {
                k: {i: gen.money(rng, 0, 2e4) for i in range(count)
                    if rng.random() < 0.4}
                for k in range(len(taxes)) if rng.random() < 0.4}
            if taxes[-1] is taxes[0]:
                split[name].pop(len(taxes) - 1, None)
                if 0 in split[name]:
                    split[name][len(taxes) - 1] = split[name][0]
            if split[name]:
                call[name] = {
                    taxes[k]: {folk.people[i]: mod(v) for i, v in d.items()}
                    for k, d in split[name].items()}
        want = 0
        for k, model in enumerate(models):
            for i in picked:
                mine = folk.tally(i)
                want += model.money(
                    mine['income'], year,
                    mine['deduction'] + model.deduction(year)
                    + split['deductions'].get(k, {}).get(i, 0),
                    mine['credit']
                    + split['credits_'].get(k, {}).get(i, 0))
        ways = [tax, tax.tax_people]
        if len(picked) == 2:
            ways.append(tax.tax_spouses)
        got = rng.choice(ways)(folk.gather(picked), year, **call)
        mon.close(got, want, 'multi-group', abs_=1e-4, split=split,
                  picked=picked, **dict(folk.describe(), **detail))
        mon.event('multi-group')
        # Someone alone, and what the first jurisdiction allows them:
        who = rng.randrange(count)
        person, mine = folk.people[who], folk.tally(who)
        one, owed = {}, {'deductions': {}, 'credits_': {}}
        for name, vals in owed.items():
            vals.update({k: gen.money(rng, 0, 2e4) for k in range(
                len(taxes)) if rng.random() < 0.3})
            if taxes[-1] is taxes[0] and vals:
                vals.update({k: min(vals.values())
                             for k in (0, len(taxes) - 1)})
            if vals:
                one[name] = {taxes[k]: mod(v) for k, v in vals.items()}
        mon.close(
            rng.choice([tax, tax.tax_person])(person, year, **one),
            sum(model.money(
                mine['income'], year, mine['deduction']
                + model.deduction(year) + owed['deductions'].get(k, 0),
                mine['credit'] + owed['credits_'].get(k, 0))
                for k, model in enumerate(models)),
            'multi-person', abs_=1e-4, who=who, owed=owed,
            **dict(folk.describe(), **detail))
        mon.close(tax.deduction(person, year), mine['deduction']
                  + models[0].deduction(year), 'first-person-deduction',
                  abs_=1e-6)
        mon.close(tax.credit(person, year), mine['credit'],
                  'first-person-credit', abs_=1e-6)
    for name in ('payment_timing', 'refund_timing'):
        times = [dict(getattr(t, name)) for t in taxes]
        mon.check(dict(getattr(tax, name)) == times[0], 'first-' + name)
        asked = gen.conv(mod, gen.timing(rng))
        setattr(tax, name, asked)
        mon.check(getattr(tax, name) == getattr(taxes[0], name)
                  and dict(getattr(tax, name)) == dict(
                      Timing(asked, **mod.kw))
                  and all(dict(getattr(t, name)) == was
                          for t, was in zip(taxes[1:], times[1:])
                          if t is not taxes[0]),
                  'set-' + name)


class Canada:
    """ What a Canadian couple or single owes. """

    def __init__(self, eco, table, province):
        self.eco, self.names = eco, ('Federal', province)
        self.refs = {
            n: RefTax(eco, table['TAX_BRACKETS'][n],
                      table['TAX_PERSONAL_DEDUCTION'][n],
                      table['TAX_CREDIT_RATE'][n]) for n in self.names}
        self.table = table

    def credits(self, name, year, tallies, i, spouses):
        """ Possible credits of person i (two of them if incomes tie). """
        mine = tallies[i]
        base = mine['credit'] + min(mine['pension'], self.eco.extend(
            self.table['TAX_PENSION_CREDIT'][name], year))
        if spouses[i] is None:
            return [base]
        personal = self.refs[name].deduction(year)

        def net(tally):
            return tally['income'] - tally['deduction'] - personal
        own, other = net(mine), net(tallies[spouses[i]])
        amount = max(self.eco.extend(
            self.table['TAX_SPOUSAL_AMOUNT'][name], year)
            - max(other, 0), 0)
        if abs(own - other) < 1e-6:
            return [base, base + amount]
        return [base + amount if own > other else base]

    def owed(self, name, year, tallies, i, credit, extra):
        mine, model = tallies[i], self.refs[name]
        return model.money(
            mine['income'], year, mine['deduction'] + model.deduction(year)
            + extra['deduction'].get(name, {}).get(i, 0),
            credit + extra['credit'].get(name, {}).get(i, 0))

    def group(self, name, year, tallies, picked, spouses, extra):
        """ The possible liabilities of a group in one jurisdiction. """
        totals, done = {0.0}, set()
        for i in picked:
            if i in done:
                continue
            j = spouses[i]
            if j in picked:
                done |= {i, j}
                ci = self.credits(name, year, tallies, i, spouses)
                cj = self.credits(name, year, tallies, j, spouses)
                if len(ci) > 1:
                    # Same income: one of them (only) claims the credit.
                    pairs = [(ci[0], cj[1]), (ci[1], cj[0])]
                else:
                    pairs = [(ci[0], cj[0])]
                options = {
                    self.owed(name, year, tallies, i, a, extra)
                    + self.owed(name, year, tallies, j, b, extra)
                    for a, b in pairs}
            else:
                options = {self.owed(name, year, tallies, i, c, extra)
                           for c in self.credits(
                               name, year, tallies, i, spouses)}
            totals = {a + b for a in totals for b in options}
        return totals


def random_constants(rng, province):
    table = {}
    for key in STATUTE:
        table[key] = {}
        for name in ('Federal', province):
            years = rng.sample(range(2008, 2030), rng.choice([1, 2]))
            if key == 'TAX_BRACKETS':
                table[key][name] = {y: random_brackets(rng, 0)
                                    for y in years}
            elif key == 'TAX_CREDIT_RATE':
                table[key][name] = {y: round(rng.uniform(0.02, 1), 3)
                                    for y in years}
            else:
                table[key][name] = {y: gen.money(rng, 0, 2e4)
                                    for y in years}
    return table


def conv(mod, val):
    if isinstance(val, dict):
        return {(k if isinstance(k, (str, int)) else mod(k)): conv(mod, v)
                for k, v in val.items()}
    return mod(val)


def canada(rng, mon):
    mod = gen.mode(rng)
    year = rng.randint(2005, 2030)
    eco = Economy(rng, mod)
    province, constants, table = 'BC', None, STATUTE
    if rng.random() < 0.5:
        province = rng.choice(['BC', 'ON', 'QC'])
        table = random_constants(rng, province)
        constants = ConstantsCanada(**mod.kw)
        for key, val in table.items():
            setattr(constants, key, conv(mod, val))
    args = [province] if province != 'BC' or rng.random() < 0.5 else []
    tax = TaxCanada(eco.arg(), *args, constants=constants, **mod.kw)
    model = Canada(eco, table, province)
    mon.check(tax.province == province, 'province')
    folk = Folk(rng, mod, year, canada=True, count=rng.choice([1, 2, 2, 4]))
    info = dict(province=province, statute=table is STATUTE, eco=eco.kind)
    mon.note(**info, **folk.describe())

    def assess(when, tallies):
        count = len(folk.people)
        picked = [i for i in range(count) if rng.random() < 0.8]
        extra = {'deduction': {}, 'credit': {}}
        call = {}
        for what in extra:
            for level, name, part in zip(
                    ('federal', 'provincial'), model.names,
                    (tax.federal_tax, tax.provincial_tax)):
                if rng.random() > 0.3:
                    continue
                vals = {i: gen.money(rng, 0, 1e4) for i in range(count)
                        if rng.random() < 0.5}
                extra[what][name] = vals
                given = roomy(rng, mon, {
                    folk.people[i]: mod(v) for i, v in vals.items()})
                if rng.random() < 0.6:
                    call['%s_%s' % (level, what)] = given
                else:
                    key = 'deductions' if what == 'deduction' else 'credits_'
                    call.setdefault(key, {})[part] = given
        for key in ('deductions', 'credits_'):
            if key in call:
                call[key] = roomy(rng, mon, call[key], None)
        before = {k: {
            i: dict(w) if isinstance(w, dict) else w for i, w in v.items()
        } for k, v in call.items()}
        got = float(tax(folk.gather(picked), when, **call))
        each = [model.group(n, when, tallies, picked, folk.spouse, extra)
                for n in model.names]
        wants = {a + b for a in each[0] for b in each[1]}
        scale = max(1, sum(abs(tallies[i]['income']) for i in picked))
        detail = dict(
            year=when, picked=picked, extra=extra, tallies=tallies,
            spouses=list(folk.spouse), mode=mod.name, **info)
        mon.check(any(abs(got - w) < 1e-7 * scale + 1e-5 for w in wants),
                  'canada-group', observed=got, expected=sorted(wants)[:4],
                  **detail)
        mon.check(call == before, 'arguments-mutated')
        mon.event('canada')
        mon.interesting(all(max(e) > 0 for e in each))
        for i in picked:
            if tallies[i]['pension'] > 0:
                mon.event('pension')
            if folk.spouse[i] is not None:
                mon.event('married')
                if any(c[0] != c[-1] for c in [model.credits(
                        n, when, tallies, i, folk.spouse)
                        for n in model.names]):
                    mon.event('tie')
            none = {'deduction': {}, 'credit': {}}
            parts = [model.group(n, when, tallies, [i], folk.spouse, none)
                     for n in model.names]
            wants = {a + b for a in parts[0] for b in parts[1]}
            got = float(tax(folk.people[i], when))
            mon.check(
                any(abs(got - w) < 1e-7 * scale + 1e-5 for w in wants),
                'canada-person', observed=got, expected=sorted(wants)[:4],
                who=i, **detail)
        # An amount of money is taxed without any allowances:
        amount = random_income(rng, model.refs['Federal'], when)
        mon.close(tax(mod(amount), when),
                  sum(m.money(amount, when) for m in model.refs.values()),
                  'canada-money', abs_=1e-6 * max(1, abs(amount)),
                  income=amount, year=when, **info)

    past = {}
    for _ in range(rng.choice([1, 2, 3, 4])):
        folk.trade()
        if rng.random() < 0.1:
            folk.divorce(rng.randrange(len(folk.people)))
        if rng.random() < 0.2:
            folk.open()
        for _ in range(rng.choice([1, 1, 2])):
            assess(folk.year,
                   [folk.tally(i) for i in range(len(folk.people))])
            if rng.random() < 0.4:
                folk.trade()
        past[folk.year] = [folk.tally(i) for i in range(len(folk.people))]
        mon.obs([sorted(t.items()) for t in past[folk.year]])
        folk.next_year()
        for when in past:
            if rng.random() < 0.4:
                assess(when, past[when])
                mon.event('past-year')


WORKLOADS = [Workload('multi', multi, 2500, 60000),
             Workload('canada', canada, 3500, 80000)]
REQUIRED = {'multi': 5000, 'multi-group': 2000, 'canada': 4000,
            'pension': 500, 'married': 2000, 'tie': 20, 'past-year': 1500}
