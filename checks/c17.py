""" C17: sub-forecasts move money between accounts by double entry. """

from copy import copy
from collections import defaultdict
from vmon import gen, ref, world
from vmon.core import Workload
from forecaster import Account, Debt, Person, Timing
from forecaster.forecast import SubForecast

PROPERTY = 'C17'
SCALE = 10
RULE = (
    'Random histories of moves between accounts, debts, plain mappings and '
    'the outside world, by two sub-forecasts at once, with every form of '
    'timing, strict or not, interleaved with undoing, years and the '
    "user's own transactions; every move is compared with a shadow ledger "
    'and an independent search for the earliest time at which the money is '
    'there. Separately, the sub-forecasts of random households are called, '
    'repeated and undone, and whole forecasts are reconciled account by '
    'account. Non-trivial: a move was put off, or transactions undone.')

EPS = 1e-6


class Pool:
    """ A holder of money and what it held. """

    def __init__(self, name, thing, rate=None, nper=1):
        self.name, self.thing, self.rate, self.nper = name, thing, rate, nper

    def snap(self):
        if self.thing is None:
            return {}
        return {float(k): float(v) for k, v in self.thing.items()}

    @property
    def ledger(self):
        return isinstance(self.thing, Account)

    def has(self, txns, time):
        """ What can be taken out at `time`. """
        if self.ledger:
            if isinstance(self.thing, Debt):
                return 0.0
            return max(ref.balance_at(
                self.thing.balance, self.rate, self.nper, txns, time), 0.0)
        return sum(v for t, v in txns.items() if t <= time)

    def earliest(self, txns, when, value):
        """ The first known time from which `value` can be taken out. """
        times = sorted({t for t in txns if t >= when} | {when})
        there = {t: self.has(txns, t) >= value for t in times}
        for i, t in enumerate(times):
            if all(there[r] for r in times[i:]):
                return t
        return None


def same(one, two, tol=EPS):
    keys = set(one) | set(two)
    return all(abs(one.get(k, 0) - two.get(k, 0)) <= tol for k in keys)


def plus(base, when, value):
    base[when] = base.get(when, 0.0) + value


def amount(rng):
    value = rng.choice([
        0, 10, 50, 100, 100, 200, rng.randint(1, 1000),
        round(rng.uniform(0, 500), 2)])
    return rng.choice([1, 1, 1, -1]) * value


def moves(rng, mon):
    mod = gen.mode(rng, 0.25)
    owner = Person(2000, 'P', 1970, retirement_date=2035, **mod.kw)
    pools = [Pool('outside', None)]
    for i in range(rng.randint(1, 3)):
        rate = rng.choice([0, 0, 0.05, round(rng.uniform(0, 0.5), 3)])
        nper = gen.nper(rng) if rate else 1
        pools.append(Pool('account%d' % i, Account(
            owner, balance=mod(rng.choice([0, 100, rng.randint(0, 2000)])),
            rate=mod(rate), nper=nper, **mod.kw), rate, nper))
    if rng.random() < 0.3:
        pools.append(Pool('debt', Debt(
            owner, balance=mod(-500), rate=mod(0.1), **mod.kw), 0.1))
    for i in range(rng.randint(1, 2)):
        start = {mod(t): mod(v) for t, v in rng.choice([
            {}, {0: 100}, {0.5: 200, 1: 300}, {0: 100, 0.5: -50, 1: 100},
            gen.txns(rng, low=-300, high=600)]).items()}
        thing = rng.choice([
            start, defaultdict(lambda: mod(0), start)])
        pools.append(Pool('cash%d' % i, thing))
    default = None
    if rng.random() < 0.5:
        default = Timing(gen.conv(mod, gen.timing(rng)), **mod.kw)
    subs = [SubForecast(2000, *([] if default is None else [default]),
                        **mod.kw) for _ in range(2)]
    booked = [[{} for _ in pools] for _ in subs]
    mon.note(mode=mod.name, pools=[
        (p.name, p.rate, p.snap(), getattr(p.thing, 'balance', None))
        for p in pools])
    log = []
    mon.notes['log'] = log
    shown = [dict() for _ in subs]
    for _ in range(rng.randint(4, 14)):
        which = rng.randrange(2)
        sub, book = subs[which], booked[which]
        action = rng.random()
        if action < 0.72:
            move(rng, mon, mod, sub, book, pools, default, log)
        elif action < 0.8:
            # The user's own transactions are nobody's to undo.
            pool = rng.choice(pools[1:])
            when, value = mod(gen.when(rng, words=False)), mod(amount(rng))
            log.append(repr(('own', pool.name, when, value)))
            if pool.ledger:
                pool.thing.add_transaction(value, when)
            else:
                pool.thing[when] = pool.thing.get(when, mod(0)) + value
        elif action < 0.93:
            before = [p.snap() for p in pools]
            log.append(('undo', which))
            sub.undo_transactions()
            if any(book[i] for i in range(len(pools))):
                mon.event('undone')
                mon.interesting()
            for i, pool in enumerate(pools[1:], 1):
                for when, value in book[i].items():
                    plus(before[i], when, -value)
                mon.check(same(pool.snap(), before[i]), 'undo',
                          pool=pool.name, got=pool.snap(), want=before[i])
            booked[which] = [{} for _ in pools]
            mon.check(all(not any(t.values()) for t in (
                sub.transactions[k] for k in sub.transactions)),
                      'undone-still-booked')
            if rng.random() < 0.3:
                sub.undo_transactions()
                mon.check(all(same(p.snap(), b) for p, b in list(
                    zip(pools, before))[1:]), 'undone-twice')
        else:
            log.append('year')
            year = sub.this_year
            for i in range(2):
                shown[i][year] = [dict(b) for b in booked[i]]
                subs[i].next_year()
            owner.next_year()
            for pool in pools:
                if pool.ledger:
                    pool.thing.next_year()
                elif pool.thing is not None:
                    pool.thing.clear()
            booked = [[{} for _ in pools] for _ in subs]
            mon.event('year')
        for i in range(2):
            agree(mon, subs[i].transactions, booked[i], pools, 'booked')
    for i in range(2):
        for year, book in shown[i].items():
            agree(mon, subs[i].transactions_history[year], book, pools,
                  'history')
    mon.obs([sorted(p.snap().items()) for p in pools])


def agree(mon, record, book, pools, mechanism):
    """ What a sub-forecast says it moved is what it moved. """
    total = 0
    for pool, moved in zip(pools, book):
        seen = {}
        for key in record:
            if key is pool.thing:
                seen = {float(t): float(v) for t, v in record[key].items()}
        total += sum(seen.values())
        mon.check(same(seen, moved), mechanism, pool=pool.name, got=seen,
                  want=moved)
    mon.close(total, 0, 'double-entry', abs_=EPS)
    # However the record is read, it says the same of the same parties.
    keys = list(record)
    pairs = list(record.items())
    detail = dict(parties=len(keys))
    mon.check(len(record) == len(keys) == len(list(record.keys())) and all(
        a is b for a, b in zip(keys, record.keys())), 'record-keys', **detail)
    mon.check(len(pairs) == len(keys) and all(
        a is b and flows is record[b] for (a, flows), b in zip(pairs, keys)),
        'record-items', **detail)
    for pool in pools:
        there = any(key is pool.thing for key in keys)
        mon.check((pool.thing in record) == there, 'record-contains',
                  pool=pool.name, **detail)
        got = record.get(pool.thing)
        mon.check(got is (record[pool.thing] if there else None),
                  'record-get', pool=pool.name, **detail)
    mon.check(len(record) == len(keys), 'record-grew', **detail)
    again = copy(record)
    mon.check(len(again) == len(keys) and all(
        a is b and again[a] is record[b] for a, b in zip(again, keys)),
        'record-copy', **detail)
    mon.event('record-read')


def move(rng, mon, mod, sub, book, pools, default, log):
    source, target = rng.sample(range(len(pools)), 2)
    value = mod(amount(rng))
    strict = rng.random() < 0.25
    # Growing accounts get one move at a time, see below.
    giver = pools[source if value >= 0 else target]
    growing = bool(giver.rate)
    form = rng.choice(['dict', 'timing', 'number', 'word', 'default'])
    if form == 'default' and growing and default and len(default) > 1:
        form = 'number'
    if form in ('dict', 'timing'):
        spread = gen.conv(mod, gen.timing(rng))
        if growing:
            spread = dict(list(spread.items())[:1])
        when = Timing(spread, **mod.kw) if form == 'timing' else spread
    elif form == 'number':
        when = mod(gen.when(rng, words=False))
    elif form == 'word':
        when = rng.choice(['start', 'end'])
    else:
        when = None
    if when is not None:
        parts = Timing(when, **mod.kw)
    else:
        parts = Timing(**mod.kw) if default is None else default
    whole = float(sum(parts.values()))
    plan = [(float(t), abs(float(value)) * float(w) / whole)
            for t, w in parts.items()]
    before = [p.snap() for p in pools]
    several = form != 'dict' or rng.random() < 0.5
    ends = dict(from_account=pools[source].thing,
                to_account=pools[target].thing)
    if strict or rng.random() < 0.2:
        ends['strict_timing'] = strict
    log.append(repr((value, when, pools[source].name,
                     pools[target].name, strict)))
    if several:
        sub.add_transaction(value, when, **ends)
    else:
        # The same, as a group of transactions.
        plan = [(float(mod(t)), float(value) * float(w))
                for t, w in when.items()]
        group = {t: value * w for t, w in when.items()}
        sub.add_transactions(group, **ends)
        mon.event('group')
    after = [p.snap() for p in pools]
    give, take = (source, target) if value >= 0 else (target, source)
    giver = pools[give]
    detail = dict(source=giver.name, target=pools[take].name, plan=plan,
                  strict=strict, log=len(log))
    mon.event('move')
    # Nothing else is touched.
    for i, pool in enumerate(pools):
        if i not in (give, take):
            mon.check(after[i] == before[i], 'bystander', pool=pool.name)
    shadow, moved, sure = dict(before[give]), {}, True
    seen = None
    if not strict and growing:
        changes = {
            t: before[give].get(t, 0) - after[give].get(t, 0)
            for t in set(before[give]) | set(after[give])}
        seen = [t for t, v in changes.items() if abs(v) > EPS]
    for when, size in plan:
        size = abs(size)
        place = when
        if not strict and giver.thing is not None:
            if growing:
                if size < 1e-3:
                    return resync(pools, book, before, after, mon, detail)
                mon.check(len(seen) == 1, 'scattered', seen=seen, **detail)
                if len(seen) != 1:
                    return resync(pools, book, before, after, mon, detail)
                place = seen[0]
                grown(mon, giver, shadow, when, size, place, detail)
            else:
                one = giver.earliest(shadow, when, size - EPS)
                two = giver.earliest(shadow, when, size + EPS)
                if one != two:
                    sure = False
                place = when if one is None else one
            if place != when:
                mon.event('put-off')
                mon.interesting()
        elif strict:
            mon.event('strict')
        if giver.thing is not None:
            plus(shadow, place, -size)
        plus(moved, place, size)
    if not sure:
        return resync(pools, book, before, after, mon, detail)
    for i, sign in ((give, -1), (take, 1)):
        if pools[i].thing is not None:
            want = dict(before[i])
            for when, size in moved.items():
                plus(want, when, sign * size)
            mon.check(same(after[i], want), 'moved', got=after[i],
                      want=want, pool=pools[i].name, **detail)
        for when, size in moved.items():
            plus(book[i], when, sign * size)


def grown(mon, giver, txns, when, size, place, detail):
    """ A move out of a growing account, between its transactions. """
    tol = 1e-5
    first = giver.earliest(txns, when, size + tol)
    detail = dict(detail, when=when, place=place, size=size, txns=txns)
    mon.check(place >= when, 'earlier-than-asked', **detail)
    if place == when:
        mon.check(first in (None, when) or giver.earliest(
            txns, when, size - tol) == when, 'not-put-off', first=first,
                  **detail)
        return
    mon.check(giver.earliest(txns, when, size - tol) is not None,
              'put-off-in-vain', **detail)
    mon.check(giver.earliest(txns, when, size + tol) != when,
              'put-off-needlessly', **detail)
    mon.check(first is None or place <= first, 'put-off-too-long',
              first=first, **detail)
    mon.check(giver.has(txns, place) >= size - tol, 'money-not-there',
              **detail)
    mon.event('put-off-growing')
    # Between two transactions, the account grows into it.
    times = sorted({t for t in txns if t >= when} | {when})
    if first is not None and first > when:
        last = times[times.index(first) - 1]
        early = {t: v for t, v in txns.items() if t <= last}
        if giver.has(early, first) > size + 0.01 \
                and giver.has(early, last) < size - 0.01 \
                and txns.get(first, 0) > 0.5 \
                and all(v >= 0 for t, v in txns.items() if t > last):
            # (Without an inflow, rounding may hide the exact time; with
            # outflows to come, growth foregone may rule it out.)
            mon.event('grown-between')
            mon.check(place < first and abs(
                giver.has(early, place) - size) < 1e-3 * max(1, size),
                      'later-than-grown', first=first, **detail)
    if not any(abs(place - t) < 1e-9 for t in txns):
        mon.event('put-off-between')


def grow(rng, mon):
    """ Money that will be there once the account has grown enough. """
    mod = gen.mode(rng, 0.25)
    owner = Person(2000, 'P', 1970, retirement_date=2035, **mod.kw)
    rate, nper = round(rng.uniform(0.02, 0.6), 3), gen.nper(rng)
    account = Account(owner, balance=mod(rng.randint(50, 5000)),
                      rate=mod(rate), nper=nper, **mod.kw)
    times = rng.sample([0.2, 0.4, 0.5, 0.7, 0.8, 1], rng.randint(1, 4))
    for when in times:
        low = -40 if rng.random() < 0.3 else 0
        account.add_transaction(mod(rng.randint(low, 40)), mod(when))
    pool, cash = Pool('account', account, rate, nper), {}
    when = rng.choice([0, 0, 0.1, 0.3])
    before = pool.snap()
    low, high = (pool.has(before, t) for t in (when, 1))
    size = round(low + rng.uniform(0.02, 1) * (high - low), 4)
    mon.note(mode=mod.name, balance=account.balance, rate=rate, nper=nper,
             txns=before, when=when, size=size)
    sub = SubForecast(2000, **mod.kw)
    sub.add_transaction(mod(size), mod(when), from_account=account,
                        to_account=cash)
    moved = [float(t) for t, v in cash.items() if v]
    mon.check(len(moved) == 1, 'scattered', cash=cash)
    mon.close(sum(cash.values()), size, 'moved-total', abs_=EPS)
    detail = dict(cash=cash)
    grown(mon, pool, before, when, size, moved[0], detail)
    mon.interesting(moved[0] > when)


def resync(pools, book, before, after, mon, detail):
    """ Timings are open; amounts and double entry still hold. """
    size = sum(abs(v) for _, v in detail['plan'])
    for i, pool in enumerate(pools):
        sign = {detail['source']: -1, detail['target']: 1}.get(pool.name)
        if sign is None:
            continue
        for when in set(before[i]) | set(after[i]):
            plus(book[i], when,
                 after[i].get(when, 0) - before[i].get(when, 0))
        if pool.thing is not None:
            mon.close(sum(after[i].values()) - sum(before[i].values()),
                      sign * size, 'moved-total', abs_=EPS, **detail)
            other = next(j for j, p in enumerate(pools) if p.name == (
                detail['target'] if sign < 0 else detail['source']))
            if pools[other].thing is None:
                for when in set(before[i]) | set(after[i]):
                    plus(book[other], when, before[i].get(when, 0)
                         - after[i].get(when, 0))


def state(accounts, available):
    out = {('cash', float(t)): float(v) for t, v in available.items()}
    for i, account in enumerate(accounts):
        for when, value in account.transactions.items():
            out[i, float(when)] = float(value)
    return out


def totals(table):
    out = {}
    for (name, _), value in table.items():
        out[name] = out.get(name, 0) + value
    return out


def chain(rng, mon):
    """ Calling, repeating and undoing a household's sub-forecasts. """
    spec = world.make_spec(rng, years=4)
    made = world.build(spec)
    subs = list(world.subforecasts(made).values())
    accounts = made.accounts + made.debts
    mon.note(spec=spec)
    for _ in range(rng.randint(1, 2)):
        available = defaultdict(lambda: made.mod(0))
        available[0] += made.mod(rng.choice([0, 0, 5000, -8000]))
        for stage, sub in enumerate(subs):
            before = state(accounts, available)
            sub(available)
            mon.event('call')
            after = state(accounts, available)
            record = {}
            for key in sub.transactions:
                if key is None:
                    continue
                name = 'cash' if key is available else accounts.index(key)
                for when, value in sub.transactions[key].items():
                    plus(record, (name, float(when)), float(value))
            change = dict(after)
            for key, value in before.items():
                plus(change, key, -value)
            mon.check(same(change, record, 1e-5), 'unrecorded', stage=stage,
                      change=change, record=record)
            mon.obs(sorted(round(v, 2) for v in totals(after).values()))
            choice = rng.random()
            if choice < 0.35:
                for _ in range(rng.randint(1, 2)):
                    sub(available)
                again = totals(state(accounts, available))
                mon.event('repeat')
                mon.check(same(again, totals(after), 0.02), 'repeat',
                          stage=stage, again=again, once=totals(after))
            elif choice < 0.6:
                sub.undo_transactions()
                undone = state(accounts, available)
                mon.check(same(undone, before, 1e-4), 'undo', stage=stage,
                          got=undone, want=before)
                mon.event('undo')
                sub(available)
                mon.check(same(totals(state(accounts, available)),
                               totals(after), 0.02), 'redo', stage=stage)
            if any(record.values()):
                mon.interesting(choice < 0.6)
        # Those that share room may advance together.
        year = made.people[0].this_year + 1
        for item in subs + made.people + accounts:
            while item.this_year < year:
                item.next_year()


def whole(rng, mon):
    """ Whole forecasts add up account by account. """
    spec = world.make_spec(rng)
    made = world.build(spec)
    mon.note(spec=spec)
    forecast = world.run(made)
    accounts = set(forecast.assets) | set(forecast.debts)
    subs = forecast.forecasts
    moved = 0
    for year in range(spec['year'], spec['year'] + spec['years']):
        booked = {a: {} for a in accounts}
        for sub in subs:
            record = sub.transactions_history[year]
            sums = {}
            for key in record:
                for when, value in record[key].items():
                    if isinstance(key, Account):
                        plus(booked[key], float(when), float(value))
                    sums[id(key)] = sums.get(id(key), 0) + float(value)
            mon.close(sum(sums.values()), 0, 'double-entry', abs_=1e-4,
                      rel=0, year=year, sub=type(sub).__name__)
        for account, want in booked.items():
            got = {float(t): float(v) for t, v in
                   account.transactions_history[year].items()}
            moved += bool(got)
            mon.check(same(got, want, 1e-4), 'reconcile', year=year,
                      account=account.verif_tag, got=got, want=want)
            mon.event('reconciled')
            mon.obs(round(sum(got.values()), 2))
    mon.interesting(moved > 1)


WORKLOADS = [Workload('moves', moves, 5000, 120000),
             Workload('grow', grow, 800, 20000),
             Workload('chain', chain, 250, 8000),
             Workload('whole', whole, 150, 6000)]
REQUIRED = {'move': 10000, 'put-off': 800, 'put-off-growing': 60,
            'put-off-between': 10, 'grown-between': 50,
            'strict': 1000, 'group': 500, 'undone': 1000, 'year': 500,
            'call': 1000, 'repeat': 200, 'undo': 150, 'reconciled': 1000}
