""" C06: limits shared between linked accounts. """

import copy
import math
from vmon import gen, ref
from vmon.core import Workload
from forecaster import AccountLink, LinkedLimitAccount, Person

PROPERTY = 'C06'
RULE = (
    'Random groups of accounts linked by random (owner, token) pairs for '
    'each of the four kinds of limit. Transactions are recorded or '
    'hypothesised on some accounts and the flows permitted to others are '
    'compared with an independent calculation over the whole group; groups '
    'are also filled up account by account, in random order, while the '
    'shared total is watched. Non-trivial: a group of at least two accounts '
    'with flows on more than one of them.')

KINDS = ['max_inflow', 'min_inflow', 'max_outflow', 'min_outflow']


class Group:
    """ A random family of linked accounts and its description. """

    def __init__(self, rng, mod, year=2005):
        self.rng, self.mod = rng, mod
        self.people = [
            Person(year, 'P%d' % i, 1970, retirement_date=2035, **mod.kw)
            for i in range(rng.choice([1, 1, 2, 3]))]
        self.limits, self.specs, self.accounts = {}, [], []
        tokens = ['x', 'y', ('t', 1)]
        for i in range(rng.randint(2, 5)):
            spec = {
                'balance': gen.money(rng, 0, 1e5), 'nper': gen.nper(rng),
                'rate': gen.rate(rng, -0.3, 0.8), 'links': {}, 'txns': {}}
            kwargs = dict(mod.kw)
            for kind in KINDS:
                if rng.random() > (0.8 if kind == 'max_inflow' else 0.4):
                    continue
                # A link is for one kind of limit.
                key = (rng.randrange(len(self.people)),
                       (kind, rng.choice(tokens)))
                spec['links'][kind] = key
                link = (self.people[key[0]], key[1])
                how = rng.random()
                if how < 0.3:
                    link = AccountLink(link)
                elif how < 0.4:
                    link = list(link)
                kwargs[kind + '_link'] = link
                if key not in self.limits or rng.random() < 0.15:
                    sign = -1 if 'outflow' in kind else 1
                    self.limits[key] = sign * gen.money(rng, 0, 5e4)
                    kwargs[kind + '_limit'] = mod(self.limits[key])
            acct = LinkedLimitAccount(
                owner=self.people[rng.randrange(len(self.people))],
                balance=mod(spec['balance']), rate=mod(spec['rate']),
                nper=spec['nper'], **kwargs)
            self.specs.append(spec)
            self.accounts.append(acct)

    def members(self, kind, key):
        return [i for i, s in enumerate(self.specs)
                if s['links'].get(kind) == key]

    def describe(self):
        return dict(
            limits={str(k): v for k, v in self.limits.items()},
            specs=[dict(s, links={k: str(v) for k, v in s['links'].items()})
                   for s in self.specs], mode=self.mod.name)


def expected(group, index, kind, timing, own, hypo, t_limit, b_limit):
    """ What account `index` may do, given its whole group. """
    spec = group.specs[index]
    out = 'outflow' in kind
    flow = ref.outflows if out else ref.inflows
    own = own if own is not None else hypo.get(index, {})
    used = flow(spec['txns']) + flow(own)
    key = spec['links'].get(kind)
    if key is None:
        limit = {'max_inflow': math.inf, 'max_outflow': -math.inf}.get(
            kind, 0)
    else:
        limit = group.limits[key]
        for other in group.members(kind, key):
            if other != index:
                used += flow(group.specs[other]['txns'])
                used += flow(hypo.get(other, {}))
    every = ref.add(spec['txns'], own)
    if out:
        low, high = limit - used, 0
        low = min(low if t_limit is None else max(low, t_limit), 0)
        target = 0 if b_limit is None else b_limit
    else:
        low, high = 0, limit - used
        high = max(high if t_limit is None else min(high, t_limit), 0)
        target = math.inf if b_limit is None else b_limit
    return ref.to_balance(spec['balance'], spec['rate'], spec['nper'],
                          every, target, timing, low, high)


def ask(rng, mon, group):
    mod = group.mod
    index = rng.randrange(len(group.accounts))
    kind = rng.choice(KINDS + ['max_inflow', 'max_outflow'])
    acct, timing = group.accounts[index], gen.timing(rng)
    hypo = {}
    for i in range(len(group.accounts)):
        if rng.random() < 0.4:
            hypo[i] = gen.txns(rng, low=-1e4, high=1e4)
    own = gen.txns(rng, low=-1e4, high=1e4) if rng.random() < 0.2 else None
    t_limit = b_limit = None
    if rng.random() < 0.2:
        t_limit = gen.money(rng, 0, 4e4) * (-1 if 'out' in kind else 1)
    if rng.random() < 0.2:
        b_limit = gen.money(rng, 0, 2e5)
    kwargs = {}
    if hypo or rng.random() < 0.5:
        kwargs['group_transactions'] = {
            group.accounts[i]: gen.conv(mod, txns)
            for i, txns in hypo.items()}
    if own is not None:
        kwargs['transactions'] = gen.conv(mod, own)
    if t_limit is not None:
        kwargs['transaction_limit'] = mod(t_limit)
    if b_limit is not None:
        kwargs['balance_limit'] = mod(b_limit)
    before = copy.copy(kwargs.get('group_transactions'))
    got = getattr(acct, kind + 's')(gen.conv(mod, timing), **kwargs)
    got = {float(k): float(v) for k, v in got.items()}
    want = expected(group, index, kind, timing, own, hypo, t_limit, b_limit)
    info = dict(group.describe(), index=index, kind=kind, timing=timing,
                hypo=hypo, own=own, t_limit=t_limit, b_limit=b_limit)
    mon.check(kwargs.get('group_transactions') == before,
              'hypothetical-mutated')
    mon.check(set(got) == set(want), 'timings', got=got, want=want, **info)
    for when in want:
        mon.close(got.get(when, math.nan), want[when], 'linked-' + kind,
                  abs_=1e-4, got=got, want=want, **info)
    mon.event(kind)
    if group.specs[index]['links'].get(kind) and \
            len(group.members(kind, group.specs[index]['links'][kind])) > 1:
        mon.event('shared')
        active = sum(1 for s in group.specs if s['txns']) + len(hypo)
        mon.interesting(active > 1)
    mon.obs(kind, sorted(want.items()))


def queries(rng, mon):
    mod = gen.mode(rng)
    group = Group(rng, mod)
    mon.note(**group.describe())
    for _ in range(rng.choice([1, 1, 2, 3])):
        for _ in range(rng.randint(2, 8)):
            op = rng.random()
            if op < 0.4:
                i = rng.randrange(len(group.accounts))
                when = gen.when(rng, words=False)
                value = gen.money(rng, -1e4, 1e4)
                group.accounts[i].add_transaction(mod(value), mod(when))
                group.specs[i]['txns'] = ref.add(
                    group.specs[i]['txns'], {when: value})
            elif op < 0.5 and group.limits:
                # Changing the limit for one changes it for all.
                key = rng.choice(sorted(group.limits, key=str))
                kind = key[1][0]
                members = group.members(kind, key)
                sign = -1 if 'outflow' in kind else 1
                value = sign * gen.money(rng, 0, 5e4)
                acct = group.accounts[rng.choice(members)]
                if rng.random() < 0.5:
                    setattr(acct, kind + '_limit', mod(value))
                else:
                    getattr(acct, kind + '_link').data = mod(value)
                group.limits[key] = value
                mon.event('relimit')
            else:
                ask(rng, mon, group)
        for i, acct in enumerate(group.accounts):
            for kind, key in group.specs[i]['links'].items():
                mon.close(getattr(acct, kind + '_limit'),
                          group.limits[key], 'limit', kind=kind,
                          **group.describe())
                members = {group.accounts[j]
                           for j in group.members(kind, key)}
                mon.check(getattr(acct, kind + '_link').group == members,
                          'membership', kind=kind, **group.describe())
        for acct, spec in zip(group.accounts, group.specs):
            spec['balance'] = ref.year_end(
                spec['balance'], spec['rate'], spec['nper'], spec['txns'])
            spec['txns'] = {}
            acct.next_year()


def fill(rng, mon):
    """ Filling up a group, one account after another. """
    mod = gen.mode(rng)
    group = Group(rng, mod)
    kind = rng.choice(['max_inflow', 'max_outflow', 'min_inflow',
                       'min_outflow'])
    keys = [k for k in group.limits if k[1][0] == kind]
    if not keys:
        return
    key = rng.choice(sorted(keys, key=str))
    limit, members = group.limits[key], group.members(kind, key)
    out = 'outflow' in kind
    order = list(members) * 2
    rng.shuffle(order)
    recorded = rng.random() < 0.5
    hypo = {}
    total, moved = 0.0, set()
    for index in order:
        acct = group.accounts[index]
        timing = gen.conv(mod, gen.timing(rng))
        cap = None
        if rng.random() < 0.5:
            cap = gen.money(rng, 0, 3e4) * (-1 if out else 1)
        kwargs = {} if cap is None else {'transaction_limit': mod(cap)}
        if not recorded:
            kwargs['group_transactions'] = hypo
        got = getattr(acct, kind + 's')(timing, **kwargs)
        whole = float(sum(got.values()))
        mon.check(math.isfinite(whole), 'unlimited', **group.describe())
        if cap is not None:
            mon.check(abs(whole) <= abs(cap) + 1e-6, 'past-cap',
                      whole=whole, cap=cap)
        if recorded:
            for when, value in got.items():
                acct.add_transaction(value, when)
        else:
            mine = dict(hypo.get(acct, {}))
            for when, value in got.items():
                mine[when] = mine.get(when, 0) + value
            hypo[acct] = mine
        total += whole
        if whole:
            moved.add(index)
        mon.event('fill-step')
        mon.check(abs(total) <= abs(limit) + 1e-4, 'limit-exceeded',
                  total=total, limit=limit, kind=kind, **group.describe())
    if not out:
        # Inflows have no other bound, so one more fills the room.
        got = getattr(group.accounts[order[0]], kind + 's')(
            gen.conv(mod, gen.timing(rng)),
            **({} if recorded else {'group_transactions': hypo}))
        mon.close(total + float(sum(got.values())), limit, 'room-unused',
                  abs_=1e-4, kind=kind, **group.describe())
        mon.event('filled')
    mon.interesting(len(moved) > 1)
    mon.obs(kind, limit, total)
    mon.note(kind=kind, limit=limit, **group.describe())


def links(rng, mon):
    """ Links with equal owner and token are the same link. """
    people = [Person(2000, n, 1970, retirement_date=2035) for n in 'AB']
    model, seen = {}, {}
    for _ in range(rng.randint(2, 10)):
        owner, token = rng.choice(people), rng.choice(['x', 'y', 3])
        default = rng.choice([None, dict, list])
        key = (people.index(owner), token)
        link = AccountLink((owner, token), default_factory=default) \
            if default else AccountLink((owner, token))
        if key not in model:
            model[key] = [{} if default is None else default(), set()]
        op = rng.random()
        mon.event('link')
        acct = seen.setdefault(
            rng.randrange(4),
            LinkedLimitAccount(owner=owner, balance=1))
        if op < 0.3:
            link.data = rng.random()
            model[key][0] = link.data
        elif op < 0.6:
            link.link_account(acct)
            model[key][1].add(acct)
        elif op < 0.7 and model[key][1]:
            acct = rng.choice(sorted(model[key][1], key=id))
            link.unlink_account(acct)
            model[key][1].discard(acct)
        elif op < 0.75:
            link.unregister()
            del model[key]
            mon.check(not link.is_registered(), 'unregister')
            mon.check(link.data is None and link.group is None,
                      'unregistered-data')
        for (who, tok), (data, members) in model.items():
            other = AccountLink((people[who], tok))
            mon.check(other.is_registered(), 'registered')
            mon.check(other.data == data, 'shared-data', got=other.data,
                      want=data)
            mon.check(other.group == members, 'shared-group')
            for cand in seen.values():
                mon.check(other.is_linked(cand) == (cand in members),
                          'is_linked')
            mon.check((other == link) == ((who, tok) == key), 'equality')
            if other == link:
                mon.check(hash(other) == hash(link), 'hash')
    mon.obs(len(model), [str(k) for k in model])
    mon.interesting(len(model) > 1)


WORKLOADS = [
    Workload('queries', queries, 10000, 200000),
    Workload('fill', fill, 8000, 160000),
    Workload('links', links, 1500, 20000),
]
REQUIRED = {'max_inflow': 500, 'min_inflow': 300, 'max_outflow': 500,
            'min_outflow': 300, 'shared': 500, 'fill-step': 1000,
            'filled': 200, 'relimit': 200, 'link': 1000}
