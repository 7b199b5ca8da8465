""" C21: timings and time series spread amounts without changing them. """

from copy import deepcopy
from decimal import Decimal
from fractions import Fraction
from vmon import gen
from vmon.core import Workload
from forecaster import Timing
from forecaster.utility import (
    add_transactions, frequency_conv, subtract_transactions,
    transactions_from_timing, when_conv)

PROPERTY = 'C21'
SCALE = 16
RULE = (
    'Timings are built in every documented way (time and frequency, word, '
    'code, mapping, copy; native and high precision) and their weights '
    'compared with exact rational arithmetic; mappings with both signs are '
    'compared with closed formulas for the most that can be taken out, and '
    'the least that must be put in, by each time. Amounts are split along '
    'them, and schedules added and subtracted in random histories. '
    'Non-trivial: a mapping of both signs, or a history of at least two '
    'steps on shared times.')

CODES = {'D': 365, 'W': 52, 'BW': 26, 'SM': 24, 'M': 12, 'BM': 6, 'Q': 4,
         'SA': 2, 'A': 1}


def exact(value):
    return Fraction(value)


def rough(one, two, tol=1e-9):
    return abs(float(one) - float(two)) <= tol * max(
        1, abs(float(one)), abs(float(two)))


def typed(mon, mod, values, mechanism):
    """ High-precision timings are in the high-precision type. """
    if mod.hp is not None:
        mon.check(all(isinstance(v, (Decimal, int)) for v in values),
                  mechanism, values=repr(list(values)))


def regular(rng, mon):
    """ A time and a frequency. """
    mod = gen.mode(rng)
    when = rng.choice([0, 1, 0.5, 'start', 'end', 0.25, round(
        rng.random(), 4)])
    freq = rng.choice(sorted(CODES) + [1, 2, 3, 5, 7, 12, 100, 365, 2.0,
                                       Decimal(3)])
    count = CODES.get(freq, freq)
    route = rng.choice(['both', 'both', 'when', 'code', 'none', 'keywords',
                        'frequency'])
    start = {'start': 0, 'end': 1}.get(when, when)
    if route == 'both':
        timing = Timing(mod(when), freq, **mod.kw)
    elif route == 'keywords':
        timing = Timing(frequency=freq, when=mod(when), **mod.kw)
    elif route == 'frequency':
        timing, start = Timing(frequency=freq, **mod.kw), 0.5
    elif route == 'when':
        timing, count = Timing(mod(when), **mod.kw), 1
    elif route == 'code':
        freq = rng.choice(sorted(CODES))
        timing, start, count = Timing(freq, **mod.kw), 0.5, CODES[freq]
    else:
        timing, start, count = Timing(**mod.kw), 0.5, 1
    count = int(count)
    mon.note(mode=mod.name, when=when, freq=freq, route=route)
    want = [(Fraction(i) + exact(mod(start))) / count for i in range(count)]
    got = sorted(timing)
    mon.check(len(got) == count, 'count', got=len(got), want=count)
    mon.check(all(rough(a, b, 1e-12) for a, b in zip(got, want)), 'times',
              got=got[:5], want=[float(w) for w in want[:5]])
    mon.check(all(rough(w, 1 / count, 1e-12) for w in timing.values()),
              'weights', got=list(timing.values())[:5], count=count)
    mon.check(all(0 <= t <= 1 for t in got), 'outside-year', got=got)
    typed(mon, mod, list(timing) + list(timing.values()), 'precision')
    mon.event('regular')
    mon.event('regular:' + route)
    mon.interesting(count > 1)
    split(rng, mon, mod, timing)
    mon.obs(count, round(float(got[0]), 9))


def schedule(rng, mod, sign=None):
    """ A random schedule; amounts often add up exactly. """
    coarse = rng.random() < 0.7
    out = {}
    for _ in range(rng.choice([1, 2, 2, 3, 4, 5, 8])):
        when = rng.choice([0, 0.25, 0.5, 0.75, 1]) if rng.random() < 0.5 \
            else round(rng.random(), rng.choice([1, 2, 3]))
        value = rng.randint(0, 40) / 4 if coarse else round(
            rng.uniform(0, 1000), 2)
        if rng.random() < 0.15:
            value = 0
        if sign is None:
            value *= rng.choice([1, -1])
        else:
            value *= sign
        out[mod(when)] = mod(value)
    return out


def mapping(rng, mon):
    """ A schedule of flows. """
    mod = gen.mode(rng)
    flows = schedule(rng, mod, rng.choice([1, 1, -1, None, None, None, 0]))
    if rng.random() < 0.03:
        flows = {}
    mon.note(mode=mod.name, flows=repr(flows))
    kept = deepcopy(flows)
    whole = abs(sum(map(exact, flows.values())))
    if 0 < whole < Fraction(1, 10 ** 6):
        return  # A balance, up to rounding.
    timing = Timing(flows, **mod.kw)
    mon.check(flows == kept and list(flows) == list(kept), 'input-changed')
    mon.check(isinstance(timing, Timing) and isinstance(timing, dict),
              'type')
    want = weights(kept)
    times = set(timing) | set(want)
    total = float(sum(map(abs, map(exact, kept.values()))))
    mon.check(all(
        abs(float(timing.get(t, 0)) - float(want.get(t, 0)))
        <= 1e-9 * max(1, total) for t in times), 'weights',
              got=repr(timing), want={t: float(w) for t, w in want.items()})
    mon.check(all(w >= 0 for w in timing.values()), 'negative-weight',
              got=repr(timing))
    mon.check(set(timing) <= set(kept), 'other-times', got=repr(timing))
    typed(mon, mod, list(timing) + list(timing.values()), 'precision')
    both = min(kept.values(), default=0) < 0 < max(kept.values(), default=0)
    if both:
        mon.interesting()
        mon.event('inflows' if sum(kept.values()) > 0 else 'outflows')
    mon.event('mapping')
    # The order in which a schedule is written down does not matter.
    items = list(kept.items())
    rng.shuffle(items)
    again = Timing(dict(items), **mod.kw)
    mon.check(all(rough(again.get(t, 0), timing.get(t, 0)) for t in times),
              'order', one=repr(timing), two=repr(again))
    # Copies are copies.
    copy = Timing(timing, **mod.kw)
    mon.check(copy == timing, 'copy', got=repr(copy), want=repr(timing))
    shot = dict(timing)
    copy[mod(0.123)] = mod(9)
    again[mod(0.321)] = mod(9)
    mon.check(timing == shot and flows == kept, 'copy-shared')
    split(rng, mon, mod, timing)
    mon.obs(sorted((round(float(k), 6), round(float(v), 6))
                   for k, v in timing.items()))


def weights(flows):
    """ The weights of a schedule of flows, in closed form. """
    values = {t: exact(v) for t, v in flows.items()}
    if not values:
        return {}
    if not any(values.values()):
        return {t: Fraction(1) for t in values}
    low, high = min(values.values()), max(values.values())
    if low >= 0 or high <= 0:
        return {t: abs(v) for t, v in values.items()}
    times = sorted(values)
    running, tally = {}, Fraction(0)
    for time in times:
        tally += values[time]
        running[time] = tally
    out, done = {}, Fraction(0)
    for i, time in enumerate(times):
        if tally > 0:
            # What may be gone by now: never more than will be there.
            by_now = max(0, min(running[t] for t in times[i:]))
        elif tally < 0:
            # What must have come by now: the deepest shortfall so far.
            by_now = max(0, max(-running[t] for t in times[:i + 1]))
        else:
            by_now = 0
        if by_now != done:
            out[time] = by_now - done
            done = by_now
    return out


def split(rng, mon, mod, timing):
    """ Amounts are split in proportion and add up. """
    kept = dict(timing)
    total = mod(gen.money(rng))
    whole = sum(exact(v) for v in timing.values())
    if not whole:
        return
    keys = None
    if rng.random() < 0.3:
        keys = [t for t in timing if rng.random() < 0.6]
        if not sum(timing[t] for t in keys):
            keys = None
    for name in ('time_series', 'transactions', 'normalized'):
        if name == 'time_series':
            got, some = timing.time_series(total, keys=keys), keys
        elif name == 'normalized':
            got, some = timing.normalized(keys=keys), keys
            mon.check(isinstance(got, Timing), 'normalized-type')
        else:
            given = dict(timing) if rng.random() < 0.5 else timing
            got, some = transactions_from_timing(given, total), None
        some = list(timing) if some is None else some
        part = sum(exact(timing[t]) for t in some)
        size = 1 if name == 'normalized' else exact(total)
        mon.check(set(got) == set(some), name + '-times', got=repr(got),
                  want=repr(some))
        mon.check(all(rough(got[t], size * exact(timing[t]) / part)
                      for t in some), name, got=repr(got), total=total,
                  timing=repr(dict(timing)))
        mon.check(rough(sum(got.values()), size), name + '-sum',
                  got=repr(got), total=total)
        typed(mon, mod, got.values(), name + '-precision')
        mon.event('split')
    mon.check(dict(timing) == kept, 'split-changes-timing')
    if keys is not None:
        mon.event('subset')


def words(rng, mon):
    """ Times and frequencies as words and numbers, right and wrong. """
    mod = gen.mode(rng)
    when = rng.choice([0, 1, 0.5, 'start', 'end', round(rng.random(), 3),
                       1.0000001, -0.0000001, 2, -1, float('inf')])
    number = {'start': 0, 'end': 1}.get(when, when)
    mon.note(mode=mod.name, when=when)
    if 0 <= number <= 1:
        got = when_conv(mod(when), **mod.kw)
        mon.check(got == mod(number), 'when', got=got, want=number)
        typed(mon, mod, [got], 'precision')
        mon.event('when')
    else:
        rejects(mon, ValueError, lambda: when_conv(mod(when), **mod.kw),
                'when', when)
        rejects(mon, ValueError, lambda: Timing(mod(when), **mod.kw),
                'when', when)
    freq = rng.choice(sorted(CODES) + [
        'C', None, 1, 365, 12.0, mod(4), 0, -1, -12, 1.5, 'X', 'm', '',
        'daily'])
    mon.notes['freq'] = repr(freq)
    if freq in CODES or freq in ('C', None):
        mon.check(frequency_conv(freq) == CODES.get(freq), 'frequency',
                  got=frequency_conv(freq))
        mon.event('frequency')
    elif isinstance(freq, str) or freq <= 0:
        rejects(mon, ValueError, lambda: frequency_conv(freq), 'freq', freq)
    elif freq != int(freq):
        rejects(mon, TypeError, lambda: frequency_conv(freq), 'freq', freq)
    else:
        got = frequency_conv(freq)
        mon.check(got == freq and type(got) is int, 'frequency', got=got)
        mon.event('frequency')
    mon.obs(when, repr(freq))


def rejects(mon, error, call, mechanism, value):
    try:
        got = call()
    except error:
        mon.event('rejected')
        return
    mon.check(False, 'accepted:' + mechanism, value=value, got=repr(got))


def sums(rng, mon):
    """ Adding and subtracting schedules. """
    mod = gen.mode(rng)
    base, want = {}, {}
    if rng.random() < 0.5:
        base = schedule(rng, mod)
        want = {t: exact(v) for t, v in base.items()}
    log = mon.notes['log'] = [mod.name, repr(base)]
    past = []
    shared = 0
    for _ in range(rng.randint(1, 8)):
        if past and rng.random() < 0.3:
            sign, other = past.pop(rng.randrange(len(past)))
            sign = -sign
            mon.event('reversed')
        else:
            sign, other = rng.choice([1, 1, -1]), schedule(rng, mod)
            past.append((sign, other))
        kept = dict(other)
        shared += bool(set(other) & set(base))
        log.append((sign, repr(other)))
        (add_transactions if sign > 0 else subtract_transactions)(
            base, other)
        for when, value in kept.items():
            want[when] = want.get(when, 0) + sign * exact(value)
        mon.check(other == kept, 'added-changed')
        mon.check(set(base) == set(want), 'times', got=repr(base))
        mon.check(all(rough(base[t], want[t]) for t in want), 'sum',
                  got=repr(base),
                  want={t: float(v) for t, v in want.items()})
        typed(mon, mod, base.values(), 'precision')
        mon.event('sum')
    mon.interesting(shared > 1)
    mon.obs(sorted((float(k), round(float(v), 6)) for k, v in base.items()))


WORKLOADS = [Workload('regular', regular, 1500, 30000),
             Workload('mapping', mapping, 20000, 150000),
             Workload('words', words, 600, 5000),
             Workload('sums', sums, 2500, 60000)]
REQUIRED = {'regular': 1400, 'mapping': 5000, 'inflows': 1500,
            'outflows': 1500, 'split': 8000, 'subset': 500, 'when': 200,
            'frequency': 200, 'rejected': 200, 'sum': 5000,
            'reversed': 500}
