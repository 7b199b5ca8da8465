""" C22: scenarios and inflation adjustment keep real values. """

from copy import deepcopy
from decimal import Decimal
from fractions import Fraction
from vmon import gen
from vmon.core import Workload
from forecaster import Scenario
from forecaster.scenario import InflationAdjust
from forecaster.utility import (
    build_inflation_adjust, extend_inflation_adjusted, nearest_year)

PROPERTY = 'C22'
SCALE = 12
RULE = (
    'Random scenarios (rates as numbers, lists and mappings; deflation; '
    'native and high precision; rates and years changed on the way) are '
    'asked for rates and adjustments between random years, in any order, '
    'and compared with the product of the years in between in exact '
    'rational arithmetic; incomplete time series of numbers, lists and '
    'mappings are extended to random years. Non-trivial: adjustments over '
    'at least two years of different inflation, or a series that must be '
    'extended.')

RATES = ['inflation', 'stock_return', 'bond_return', 'other_return',
         'management_fees']


def rough(one, two, tol=1e-9):
    return abs(float(one) - float(two)) <= tol * max(
        1e-9, abs(float(one)), abs(float(two)))


def rate(rng, low=-0.3, high=1.0):
    return rng.choice([
        0, 0.02, 0.1, round(rng.uniform(0, 0.1), 4),
        round(rng.uniform(low, high), 3)])


def series(rng, mod, year, count):
    """ A rate as given, and as looked up. """
    kind = rng.random()
    if kind < 0.3:
        value = mod(rate(rng))
        return value, (lambda y: value), None
    if kind < 0.6:
        values = [mod(rate(rng)) for _ in range(count + rng.randint(0, 3))]
        given = values if rng.random() < 0.7 else tuple(values)
        return given, (lambda y: values[y - year]), range(
            year, year + len(values))
    first = year - rng.randint(0, 20)
    last = year + count + rng.randint(0, 20)
    values = {y: mod(rate(rng)) for y in range(first, last)}
    return dict(values), values.__getitem__, range(first, last)


def factor(look, target, base):
    """ What $1 of `base` is worth in `target`. """
    out = Fraction(1)
    for year in range(min(target, base), max(target, base)):
        out *= 1 + Fraction(look(year))
    return out if target >= base else 1 / out


def scenarios(rng, mon):
    mod = gen.mode(rng)
    year, count = rng.randint(1950, 2050), rng.randint(
        1, rng.choice([40, 40, 40, 120]))
    given, looks, spans = {}, {}, {}
    for name in RATES:
        if rng.random() < 0.85 or name == 'inflation':
            given[name], looks[name], spans[name] = series(
                rng, mod, year, count)
        else:
            looks[name], spans[name] = (lambda y: 0), None
    kept = deepcopy(given)
    mon.note(mode=mod.name, year=year, count=count, given=repr(given))
    if rng.random() < 0.5:
        scenario = Scenario(year, count, **given)
    else:
        scenario = Scenario(
            *([year, count] + [given.get(n, 0) for n in RATES]))
    mon.check((scenario.initial_year, scenario.num_years) == (year, count)
              and len(scenario) == count, 'years')
    mon.check(list(scenario) == list(range(year, year + count)), 'iteration',
              got=list(scenario))
    adjusts = [scenario.inflation_adjust, InflationAdjust(scenario)]
    years = set()
    for _ in range(rng.randint(3, 12)):
        action = rng.random()
        span = spans['inflation'] or range(year - 30, year + count + 30)
        look = looks['inflation']
        if action < 0.25:
            name = rng.choice(RATES)
            when = rng.choice(spans[name] or span)
            got = getattr(scenario, name)[when]
            mon.check(got == looks[name](when), 'rate', name=name,
                      year=when, got=got, want=looks[name](when))
            mon.event('rate')
            if name == 'inflation':
                mon.check(scenario.discount_rate(when) == got, 'discount')
        elif action < 0.7:
            base, target = (rng.randrange(span.start, span.stop + 1)
                            for _ in range(2))
            adjust = rng.choice(adjusts + [scenario.inflation_adjust])
            if rng.random() < 0.2 and year in span:
                base = year
                got = adjust(target) if rng.random() < 0.5 \
                    else adjust(target_year=target)
                mon.event('default-base')
            elif rng.random() < 0.3:
                got = adjust(base_year=base, target_year=target)
            elif rng.random() < 0.3:
                got = scenario.accumulation_function(base, target)
            else:
                got = adjust(target, base)
            want = factor(look, target, base)
            mon.check(rough(got, want), 'adjustment', base=base,
                      target=target, got=got, want=float(want))
            if mod.hp is not None:
                mon.check(isinstance(got, (Decimal, int)), 'precision')
            mon.check(rough(adjust(base, target) * got, 1), 'inverse',
                      base=base, target=target)
            middle = rng.choice(span)
            mon.check(rough(
                adjust(target, middle) * adjust(middle, base), got),
                      'composition', base=base, target=target,
                      middle=middle)
            mon.check(adjust(base, base) == 1, 'same-year')
            mon.event('deflated' if target < base else 'inflated')
            between = range(min(base, target), max(base, target))
            years.update(between)
            mon.interesting(len({look(y) for y in between}) > 1)
        elif action < 0.8:
            base = rng.choice(span)
            if spans['inflation'] is None or (
                    span.stop >= year + count - 1 and span.start <= year):
                got = scenario.inflation_adjustments(base)
                mon.check(list(got) == list(scenario), 'adjustments-years')
                mon.check(all(rough(v, factor(look, y, base))
                              for y, v in got.items()), 'adjustments',
                          base=base, got=got)
                mon.event('adjustments')
        else:
            # The scenario changes; adjustments follow.
            step = rng.choice(['one', 'all', 'years'])
            if step == 'one' and spans['inflation']:
                when, value = rng.choice(span), mod(rate(rng))
                scenario.inflation[when] = value
                looks['inflation'] = changed(look, when, value)
            elif step == 'years':
                year = scenario.initial_year = rng.choice(span)
                count = scenario.num_years = rng.randint(1, max(
                    1, span.stop - year))
                mon.check(list(scenario) == list(
                    range(year, year + count)), 'iteration')
            else:
                values = {y: mod(rate(rng)) for y in range(
                    year - 3, year + count + 3)}
                scenario.inflation = values
                looks['inflation'] = values.__getitem__
                spans['inflation'] = range(year - 3, year + count + 3)
            mon.event('changed')
            kept = given = None
    mon.check(given == kept, 'input-changed')
    # Another scenario has rates of its own.
    other = Scenario(2000, 3)
    for name in RATES:
        mon.check(getattr(other, name)[2001] == 0, 'default', name=name)
    adjusts[1].scenario = other
    mon.check(adjusts[1](2002, 2000) == 1, 'other-scenario')
    mon.obs(year, count, sorted(years))


def changed(look, when, value):
    return lambda y: value if y == when else look(y)


def value_of(rng, mod, kind):
    if kind == 'number':
        return mod(gen.money(rng))
    if kind == 'dict':
        return {mod(rng.choice([0, 5000, 12000.5, 40000])):
                mod(gen.money(rng)) for _ in range(rng.randint(0, 4))}
    items = [mod(gen.money(rng)) for _ in range(rng.randint(0, 4))]
    return items if kind == 'list' else tuple(items)


def timeseries(rng, mon):
    """ Incomplete time series. """
    mod = gen.mode(rng)
    year = rng.randint(1990, 2030)
    count = rng.choice([30, 30, 30, 120])
    given, look, span = series(rng, mod, year, count)
    span = span or range(year - 10, year + count + 10)
    scenario = Scenario(year, 30, inflation=given)
    kind = rng.choice(['number', 'number', 'dict', 'list', 'tuple'])
    vals = {rng.choice(span): value_of(rng, mod, kind)
            for _ in range(rng.choice([1, 2, 3, 5]))}
    items = list(vals.items())
    rng.shuffle(items)
    vals = dict(items)
    kept = deepcopy(vals)
    mon.note(mode=mod.name, inflation=repr(given), vals=repr(vals))
    for target in rng.sample(span, rng.randint(1, 5)) + rng.sample(
            sorted(vals), 1):
        past = [y for y in vals if y <= target]
        base = max(past) if past else min(vals)
        got = nearest_year(vals, target)
        mon.check(got == base, 'nearest', target=target, got=got, want=base)
        result = extend_inflation_adjusted(
            vals, scenario.inflation_adjust, target)
        want = scaled(kept[base], factor(look, target, base))
        mon.check(same(result, want, kept[base]), 'extended', target=target,
                  base=base, got=repr(result), want=repr(want))
        if abs(target - base) > 60:
            mon.event('far')
        if target != base:
            mon.event('extended:' + kind)
            mon.event('back' if target < base else 'forward')
            mon.interesting()
        else:
            mon.check(result == kept[base], 'given', target=target)
            mon.event('given')
        mon.check(vals == kept, 'vals-changed', vals=repr(vals))
    if rng.random() < 0.1:
        mon.check(nearest_year({}, year) is None, 'nearest-none')
        try:
            got = extend_inflation_adjusted(
                {}, scenario.inflation_adjust, year)
        except ValueError:
            mon.event('empty')
        else:
            mon.check(False, 'empty-accepted', got=repr(got))
    mon.obs(sorted(vals), year)


def scaled(val, by):
    if isinstance(val, dict):
        return {k: Fraction(v) * by for k, v in val.items()}
    if isinstance(val, (list, tuple)):
        return type(val)(Fraction(v) * by for v in val)
    return Fraction(val) * by


def same(got, want, like):
    if type(got) is not type(like) and isinstance(like, (dict, list, tuple)):
        return False
    if isinstance(want, dict):
        return list(got) == list(want) and all(
            rough(got[k], want[k]) for k in want)
    if isinstance(want, (list, tuple)):
        return len(got) == len(want) and all(map(rough, got, want))
    if isinstance(like, Decimal) and not isinstance(got, Decimal):
        return False
    return rough(got, want)


def building(rng, mon):
    """ Adjustments from mappings, callables and nothing. """
    mod = gen.mode(rng)
    kind = rng.choice(['none', 'dict', 'dict', 'callable', 'wrong'])
    years = sorted(rng.sample(range(1990, 2030), rng.randint(1, 8)))
    table = {y: mod(round(rng.uniform(0.2, 5), 3)) for y in years}
    mon.note(mode=mod.name, kind=kind, table=repr(table))
    if kind == 'wrong':
        try:
            build_inflation_adjust(rng.choice([5, 'text', [1, 2], 0.5]))
        except TypeError:
            mon.event('rejected')
        else:
            mon.check(False, 'accepted')
        return
    if kind == 'none':
        adjust = build_inflation_adjust() if rng.random() < 0.5 \
            else build_inflation_adjust(None)
    elif kind == 'dict':
        items = list(table.items())
        rng.shuffle(items)
        given = dict(items)
        adjust = build_inflation_adjust(given)
    else:
        scenario = Scenario(1990, 40, inflation=mod(0.05))
        given = rng.choice([scenario.inflation_adjust, lambda a, b=None: 7])
        adjust = build_inflation_adjust(given)
        mon.check(adjust is given, 'callable')
    for _ in range(4):
        target, base = rng.choice(years), rng.choice(years)
        if kind == 'none':
            mon.check(adjust(target, base) == 1 and adjust(target) == 1
                      and adjust() == 1, 'none')
            mon.event('none')
        elif kind == 'dict':
            got, short = adjust(target, base), adjust(target)
            mon.check(rough(got, Fraction(table[target])
                            / Fraction(table[base])), 'dict', got=got,
                      target=target, base=base)
            mon.check(rough(short, Fraction(table[target])
                            / Fraction(table[years[0]])), 'dict-base',
                      got=short, target=target)
            mon.event('dict')
            mon.interesting(target != base)
    mon.obs(kind, years)


WORKLOADS = [Workload('scenarios', scenarios, 4000, 100000),
             Workload('timeseries', timeseries, 4000, 100000),
             Workload('building', building, 800, 10000)]
REQUIRED = {'rate': 3000, 'default-base': 500, 'inflated': 3000,
            'deflated': 3000, 'adjustments': 700, 'changed': 2000,
            'extended:number': 1000, 'extended:dict': 500,
            'extended:list': 400, 'extended:tuple': 400, 'back': 800,
            'forward': 1000, 'given': 2000, 'empty': 100, 'none': 300,
            'dict': 800, 'rejected': 60, 'far': 100}
