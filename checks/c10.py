""" C10: tax payable under a single schedule. """

import copy
from vmon import gen, ref
from vmon.core import Workload
from vmon.eco import Economy
from vmon.taxes import build, income as random_income, random_brackets
from forecaster import Person, Tax, Timing

PROPERTY = 'C10'
SCALE = 12
RULE = (
    'Random schedules (1-6 brackets in 1-3 years, optional deductions and '
    'credit rates, any form of inflation) are queried for 2-30 random years '
    'in random order with incomes around every threshold, deductions and '
    'credits; liabilities, brackets, cumulative tax, marginal rates and '
    'parameters are compared with an independent integration of the '
    'schedule, and pairs of incomes for monotonicity; also while schedules '
    'are added and replaced in between. Non-trivial: tax '
    'was payable in a year that has no schedule of its own.')


def schedule(rng, mon):
    mod = gen.mode(rng)
    year = rng.randint(2005, 2030)
    eco = Economy(rng, mod)
    timings = {}
    for name in ('payment_timing', 'refund_timing'):
        if rng.random() < 0.4:
            timings[name] = gen.when(rng)
    tax, model, kwargs = build(
        rng, mod, eco, year, **{k: mod(v) for k, v in timings.items()})
    given = copy.deepcopy(kwargs)
    info = dict(
        brackets={y: dict(b) for y, b in model._brackets.items()},
        deductions=model._deduction, credit_rates=model._credit_rate,
        eco=eco.kind, mode=mod.name)
    mon.note(**info)
    for name in ('payment_timing', 'refund_timing'):
        timing = getattr(tax, name)
        mon.check(isinstance(timing, Timing), 'timing-type')
        want = ref.when_num(timings.get(name, 'start'))
        mon.check({float(k): float(v) for k, v in timing.items()}
                  == {want: 1.0}, 'timing', got=dict(timing), want=want)
    for step in range(rng.choice([2, 5, 10, 30])):
        when = rng.choice([year, gen.year_near(rng, year)])
        amount = random_income(rng, model, when)
        if rng.random() < 0.1:
            # The arguments now belong to the caller again.
            victim = rng.choice(list(kwargs.values()))
            key = rng.choice(list(victim))
            if isinstance(victim[key], dict):
                victim[key][mod(0)] = mod(0.9)
            else:
                victim[key] = mod(0.77)
            given = copy.deepcopy(kwargs)
            mon.event('caller-reuses-arguments')
        deduction = credit = 0
        call = {}
        if rng.random() < 0.4:
            deduction = gen.money(rng, 0, 3e4)
            call['deduction'] = mod(deduction)
        if rng.random() < 0.4:
            credit = gen.money(rng, 0, 3e4)
            call['credit'] = mod(credit)
        scale = max(1.0, abs(amount))
        got = float(rng.choice([tax, tax.tax_money])(
            mod(amount), when, **call))
        want = model.money(amount, when, deduction, credit)
        detail = dict(income=amount, year=when, deduction=deduction,
                      credit=credit, **info)
        mon.close(got, want, 'tax', abs_=1e-7 * scale, **detail)
        mon.check(got >= 0, 'negative-tax', observed=got, **detail)
        mon.event('assessed')
        if got > 0:
            mon.event('payable')
            if when not in model._brackets:
                mon.interesting()
                mon.event('inflated-year')
            if credit:
                mon.event('credited')
        # More income, or less relief, never means less tax.
        more = amount + abs(gen.money(rng, 0, 2e4))
        if deduction == 0 or rng.random() < 0.5:
            bigger = float(tax(mod(more), when, **call))
            mon.check(bigger >= got - 1e-6 * scale, 'not-monotone',
                      observed=bigger, than=got, more=more, **detail)
            top = max(r for _, r in model.brackets(when))
            mon.check(bigger - got <= top * (more - amount) + 1e-6 * scale,
                      'taxed-beyond-top-rate', observed=bigger, than=got,
                      more=more, **detail)
        what = rng.randrange(6)
        if what == 0:
            brackets = tax.tax_brackets(when)
            mine = model.brackets(when)
            mon.check(len(brackets) == len(mine), 'bracket-count', **detail)
            for (k, r), (k2, r2) in zip(sorted(brackets.items()), mine):
                mon.close(k, k2, 'bracket', abs_=1e-6, **detail)
                mon.close(r, r2, 'bracket-rate', **detail)
                mon.close(tax.tax_brackets(when, k), r2, 'bracket-arg')
        elif what == 1:
            accum = tax.accum(when)
            for k, v in accum.items():
                mon.close(v, max(model.gross(float(k), when), 0), 'accum',
                          abs_=1e-6, bracket=k, **detail)
                mon.close(tax.accum(when, k), v, 'accum-arg')
            mon.check(len(accum) == len(model.brackets(when)), 'accum-count')
        elif what == 2:
            rate = float(tax.marginal_rate(mod(amount), when))
            low = float(tax.marginal_bracket(mod(amount), when))
            mon.check(
                any(abs(rate - r) < 1e-9 and abs(low - k) < 1e-6
                    for k, r in model.marginal(amount, when)),
                'marginal-rate', observed=(low, rate), **detail)
            if any(k == amount for k, _ in model.brackets(when)):
                mon.event('at-threshold')
        elif what == 3:
            mon.close(tax.personal_deduction(when), model.deduction(when),
                      'personal-deduction', **detail)
        elif what == 4:
            mon.close(tax.credit_rate(when), model.credit_rate(when),
                      'credit-rate', **detail)
        elif when == year:
            # A person's return: their income less the deduction.
            person = Person(year, 'B', 1970, retirement_date=2099,
                            gross_income=mod(abs(amount)), **mod.kw)
            got = tax(person, year, **call)
            mon.close(got, model.money(
                abs(amount), year, model.deduction(year) + deduction,
                credit), 'person-tax', abs_=1e-7 * scale, **detail)
            mon.event('person')
        mon.obs(when, round(got, 4))
    mon.check(kwargs == given, 'arguments-mutated')


def add(rng, mon):
    """ Schedules may be added year by year; order doesn't matter. """
    mod = gen.mode(rng)
    year = rng.randint(2005, 2030)
    eco = Economy(rng, mod)
    tax, model, kwargs = build(rng, mod, eco, year)
    table = kwargs['tax_brackets']
    years = sorted(table)
    rng.shuffle(years)
    extra = {k: v for k, v in kwargs.items() if k != 'tax_brackets'}
    other = Tax({years[0]: table[years[0]]}, inflation_adjust=eco.arg(),
                **extra, **mod.kw)
    for y in years[1:]:
        other.add_brackets(table[y], y)
    queries = [gen.year_near(rng, year) for _ in range(6)]
    for when in queries:
        amount = random_income(rng, model, when)
        want = model.money(amount, when)
        for which, obj in (('given', tax), ('added', other)):
            mon.close(obj(mod(amount), when), want, 'tax-' + which,
                      abs_=1e-7 * max(1, abs(amount)), year=when,
                      income=amount, brackets=model._brackets)
        mon.event('added')
        mon.obs(when, round(want, 4))
    mon.interesting()


def replace(rng, mon):
    """ Schedules may be added or replaced between assessments. """
    mod = gen.mode(rng)
    year = rng.randint(2005, 2030)
    eco = Economy(rng, mod)
    tax, model, kwargs = build(rng, mod, eco, year)
    history = []
    for _ in range(rng.randint(2, 5)):
        for _ in range(rng.randint(1, 4)):
            when = gen.year_near(rng, year)
            amount = random_income(rng, model, when)
            history.append(('ask', when))
            detail = dict(year=when, income=amount, history=history,
                          brackets=model._brackets)
            tol = 1e-7 * max(1, abs(amount))
            mon.close(tax(mod(amount), when), model.money(amount, when),
                      'tax-after-change', abs_=tol, **detail)
            mine = model.brackets(when)
            accum = tax.accum(when)
            mon.check(len(accum) == len(mine), 'accum-count', **detail)
            for (k, v), (low, _) in zip(sorted(accum.items()), mine):
                mon.close(k, low, 'accum-key', abs_=1e-6, **detail)
                mon.close(v, max(model.gross(low, when), 0), 'accum',
                          abs_=1e-6, **detail)
            mon.obs(when, round(amount, 3))
        when = rng.choice(
            list(model._brackets) + [rng.randint(year - 8, year + 9)])
        table = random_brackets(rng)
        tax.add_brackets({mod(k): mod(r) for k, r in table.items()}, when)
        mon.event('replaced' if when in model._brackets else 'added-late')
        model._brackets = dict(model._brackets)
        model._brackets[when] = table
        history.append(('add', when))
    mon.note(history=history, mode=mod.name)
    mon.interesting()


WORKLOADS = [Workload('schedule', schedule, 8000, 200000),
             Workload('add', add, 1500, 30000),
             Workload('replace', replace, 1500, 30000)]
REQUIRED = {'assessed': 20000, 'payable': 10000, 'inflated-year': 5000,
            'credited': 2000, 'person': 500, 'added': 2000,
            'caller-reuses-arguments': 500, 'replaced': 1000,
            'added-late': 1000, 'at-threshold': 100}
