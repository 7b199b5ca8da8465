""" C02: growth, discounting and time-to-value are mutually inverse. """

import math
from vmon import gen, ref
from vmon.core import Workload
from forecaster import Account
from forecaster.accounts.util import (
    accumulation_function, accumulation_function_inverse, time_to_value,
    value_at_time)
from forecaster.utility import frequency_conv

PROPERTY = 'C02'
SCALE = 10
RULE = (
    'Random rates, frequencies, horizons and (for accounts) transaction '
    'schedules and targets. Growth factors are compared with closed forms '
    'and with their own algebra; reported times are checked by evaluating '
    'the balance there and by searching every earlier interval between '
    'transactions for a crossing. Non-trivial: a non-zero rate and a '
    'finite, non-zero answer.')


def some_nper(rng, mod):
    """ (numeric nper for the functions, reference nper) """
    raw = rng.choice([None, 1, 2, 4, 12, 365, 3, 52])
    return (None if raw is None else mod(raw)), raw


def functions(rng, mon):
    mod = gen.mode(rng)
    nper, raw = some_nper(rng, mod)
    rate = gen.rate(rng)
    time = rng.choice([
        rng.random(), rng.uniform(-30, 60), rng.randint(-5, 40), 0, 1])
    time = round(time, 4)
    other = round(rng.uniform(-5, 20), 3)
    kw = mod.kw
    acc = accumulation_function(mod(time), mod(rate), nper, **kw)
    want = ref.accum(time, rate, raw)
    info = dict(rate=rate, nper=raw, time=time, mode=mod.name)
    mon.event('accumulation')
    mon.close(acc, want, 'accumulation', rel=1e-9, abs_=0, **info)
    if raw == 1:
        # Annual compounding is the default:
        mon.close(accumulation_function(mod(time), mod(rate), **kw), want,
                  'accumulation-default', abs_=0, **info)
    mon.close(
        float(acc) * float(accumulation_function(
            mod(other), mod(rate), nper, **kw)),
        accumulation_function(mod(time) + mod(other), mod(rate), nper, **kw),
        'accumulation-additive', rel=1e-8, abs_=0, other=other, **info)
    mon.close(
        accumulation_function(-mod(time), mod(rate), nper, **kw),
        1 / want, 'accumulation-inverse', rel=1e-9, abs_=0, **info)
    # The inverse recovers the time:
    if rate != 0 and 1e-12 < want < 1e12:
        back = accumulation_function_inverse(acc, mod(rate), nper, **kw)
        tol = 1e-9 / abs(math.log(ref.accum(1, rate, raw)))
        mon.close(back, time, 'time-from-accumulation', rel=1e-8,
                  abs_=1e-7 + tol, **info)
        mon.event('inverse')
        now = gen.pos(rng) * rng.choice([1, 1, -1])
        then = now * want
        got = time_to_value(mod(rate), mod(now), mod(then), nper, **kw)
        mon.close(got, time, 'time_to_value', rel=1e-8, abs_=1e-7 + tol,
                  now=now, **info)
        mon.interesting(time != 0)
    elif rate == 0:
        for accum, answer in ((1, 0), (2, math.inf), (0.5, -math.inf)):
            got = accumulation_function_inverse(
                mod(accum), mod(0), nper, **kw)
            mon.close(got, answer, 'inverse-zero-rate', **info)
        mon.event('zero-rate')
    # Values that cannot be reached by growth are never reached:
    now = gen.pos(rng)
    for val in (-now, 0 if rng.random() < 0.5 else -2 * now):
        got = time_to_value(mod(rate), mod(now), mod(val), nper, **kw)
        if val < 0:
            mon.check(float(got) == math.inf, 'unreachable', now=now,
                      then=val, got=got, **info)
    got = time_to_value(mod(rate), mod(now), mod(now), nper, **kw)
    mon.check(float(got) == 0, 'already-reached', got=got, **info)
    # Values move between any two timings, both ways:
    a, b = gen.when(rng), gen.when(rng)
    value = gen.money(rng)
    moved = value_at_time(mod(value), mod(rate), mod(a), mod(b), nper, **kw)
    mon.close(moved, value * ref.accum(
        ref.when_num(b) - ref.when_num(a), rate, raw), 'value_at_time',
        abs_=1e-6, a=a, b=b, **info)
    back = value_at_time(moved, mod(rate), mod(b), mod(a), nper, **kw)
    mon.close(back, value, 'value-round-trip', rel=1e-9, abs_=1e-6,
              a=a, b=b, **info)
    mon.obs(rate, raw, time)
    mon.note(**info)


def frequencies(rng, mon):
    """ Every frequency code means its number of periods. """
    code = rng.choice(sorted(ref.FREQ))
    mon.check(frequency_conv(code) == ref.FREQ[code], 'frequency-code',
              code=code, got=frequency_conv(code))
    number = rng.randint(1, 400)
    for val in (number, float(number), gen.DECIMAL(number)):
        got = frequency_conv(val)
        mon.check(got == number and isinstance(got, int), 'frequency-int',
                  val=val, got=got)
    for bad, exc in ((0, ValueError), (-number, ValueError),
                     (number + 0.5, TypeError), ('XX', ValueError),
                     ('x%d' % number, ValueError)):
        try:
            got = frequency_conv(bad)
        except (ValueError, TypeError) as err:
            mon.check(isinstance(err, exc), 'frequency-error', bad=bad,
                      got=type(err).__name__)
        else:
            mon.violate('frequency-accepted', bad=bad, got=got)
    mon.event('frequency')
    # An account compounds at the frequency its code names:
    mod = gen.mode(rng)
    rate, balance = gen.rate(rng), gen.money(rng, 1, 1e6)
    acct = Account(initial_year=2000, balance=mod(balance), rate=mod(rate),
                   nper=code, **mod.kw)
    acct.next_year()
    mon.close(acct.balance, balance * ref.accum(1, rate, code),
              'account-frequency', code=code, rate=rate)
    mon.obs(code, number, rate)
    mon.interesting()


def timetobalance(rng, mon):
    mod = gen.mode(rng)
    rate = gen.rate(rng, -0.3, 0.8)
    nper = gen.nper(rng)
    sign = rng.choice([1, 1, 1, -1])
    balance = sign * gen.money(rng, 0, 1e5)
    flows = gen.txns(rng, low=-3e4, high=3e4)
    flows = {k: v for k, v in flows.items() if v}
    acct = Account(initial_year=2000, balance=mod(balance), rate=mod(rate),
                   nper=nper, **mod.kw)
    for when, value in flows.items():
        acct.add_transaction(mod(value), mod(when))
    start = rng.choice([None, None, 0, 0.5, gen.when(rng, words=False)])
    begin = 0 if start is None else start
    kind = rng.random()
    at = rng.random()
    if kind < 0.5:
        target = ref.balance_at(balance, rate, nper, flows, at)
    elif kind < 0.6:
        target = ref.balance_at(balance, rate, nper, flows, 1) * \
            ref.accum(rng.uniform(0, 5), rate, nper)
    else:
        target = gen.money(rng, -5e4, 1.5e5)
    target = mod(round(target, 8))
    if rng.random() < 0.15:
        # Just what there is at the start or after some transaction.
        target = acct.balance_at_time(mod(rng.choice(
            [begin] + [w for w in flows if w > begin])))
        if rng.random() < 0.3:
            target = mod(0)
            if rng.random() < 0.5:
                # (Or nothing, having emptied the account.)
                acct[mod(begin)] -= acct.balance_at_time(mod(begin))
                flows[begin] = float(acct[mod(begin)])
    exact, target = target, float(target)
    info = dict(rate=rate, nper=str(nper), balance=balance, flows=flows,
                start=start, target=target, mode=mod.name)
    mon.note(**info)
    if start is None:
        got = acct.time_to_balance(exact)
    else:
        got = acct.time_to_balance(exact, mod(start))
    got = float(got)
    mon.event('time_to_balance')
    mon.check(got >= begin - 1e-9, 'before-start', got=got, **info)
    # Walk the intervals between transactions up to `got`:
    stops = sorted({begin} | {w for w in flows if w > begin})
    scale = max(1, abs(balance), abs(target),
                *[abs(v) for v in flows.values()] or [0])
    tol = 1e-7 * scale
    for low, high in zip(stops, stops[1:] + [math.inf]):
        first = ref.balance_at(balance, rate, nper, flows, low)
        if high < math.inf:
            last = first * ref.accum(high - low, rate, nper)
        else:
            step = ref.accum(1, rate, nper)
            last = first if step == 1 or first == 0 else (
                0.0 if step < 1 else math.copysign(math.inf, first))
        if got <= low + 1e-9:
            break
        if acct.balance_at_time(mod(low)) == exact:
            mon.check(False, 'already-there', got=got, low=low, **info)
        cut = min(high, got)
        if cut < math.inf and cut != high:
            last = first * ref.accum(cut - low, rate, nper)
        slow = abs(ref.accum(1, rate, nper) - 1) * abs(first) < 1e-3
        if cut == high or got == math.inf:
            # Strictly inside the interval the target is not crossed.
            inside = min(first, last) + tol < target < max(first, last) - tol
            mon.check(not inside or slow, 'missed-earlier', got=got, low=low,
                      high=high, first=first, last=last, **info)
    if got < math.inf:
        if got <= 1:
            value = acct.balance_at_time(mod(got))
            # At a transaction's own time, either side of it will do.
            near = [w for w in flows if abs(w - got) < 1e-9]
            wants = [float(value)]
            if near:
                after = ref.balance_at(balance, rate, nper, flows, got)
                wants.append(after)
                wants.append(after - sum(flows[w] for w in near))
            mon.check(any(abs(w - target) <= 1e-6 * scale for w in wants),
                      'not-reached', got=got, value=value, **info)
        else:
            last = stops[-1]
            value = ref.balance_at(
                balance, rate, nper, flows, last) * ref.accum(
                    got - last, rate, nper)
            mon.close(value, target, 'not-reached-later', rel=1e-6,
                      abs_=1e-6 * scale, got=got, **info)
        mon.event('reached')
        if any(abs(got - stop) < 1e-9 for stop in stops):
            mon.event('already-there')
        mon.interesting(rate != 0 and got > begin)
    else:
        mon.event('never')
    mon.obs(got, target)


WORKLOADS = [
    Workload('functions', functions, 15000, 300000),
    Workload('frequencies', frequencies, 1000, 5000),
    Workload('time_to_balance', timetobalance, 15000, 300000),
]
REQUIRED = {'accumulation': 1000, 'inverse': 500, 'zero-rate': 50,
            'frequency': 100, 'time_to_balance': 1000, 'reached': 300,
            'never': 100, 'already-there': 500}
