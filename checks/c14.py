""" C14: how money is split along a priority tree. """

import math
from vmon import gen, trees
from vmon.core import Workload
from forecaster import Account, Debt, Person
from forecaster.accounts import LinkedLimitAccount
from forecaster.strategy import TransactionTraversal

PROPERTY = 'C14'
RULE = (
    'Random priority trees (ordered and weighted nodes nested up to four '
    'deep, raw or wrapped in nodes with limits of their own) over stand-in '
    'accounts with random least and most flows, or over real accounts and '
    'debts, are given an amount to allocate in either direction; every '
    'account\'s share is compared with an independent top-down split. '
    'Separately, weighted or ordered accounts (stand-ins, or real linked '
    'accounts) share limits or minimums in groups, and one traversal is '
    'given new priorities over the same accounts. '
    'Non-trivial: at least two accounts receive something and one of them '
    'is at a limit, or has a minimum.')


def totals(result):
    return {leaf: sum(txns.values()) for leaf, txns in result.items()}


def amount(rng):
    kind = rng.random()
    if kind < 0.15:
        return round(rng.uniform(0.01, 5), 3)
    if kind < 0.6:
        return round(rng.uniform(1, 150), rng.choice([0, 2, 6]))
    return round(rng.uniform(1, 1500), rng.choice([0, 2, 6]))


def available(rng, mod, total):
    """ A time series that adds up to `total`. """
    times = rng.sample([0, 0.25, 0.5, 0.75, 1], rng.choice([1, 1, 2, 3]))
    parts = [rng.uniform(0.1, 1) for _ in times]
    scale = total / sum(parts)
    return {mod(t): mod(p * scale) for t, p in zip(times, parts)}


def compare(mon, root, got, want, sign, **detail):
    """ Every leaf gets what it should, in the right direction. """
    mon.check(set(got) <= set(want), 'unknown-account',
              got=sorted(map(str, got)))
    good = True
    for leaf, expected in want.items():
        seen = got.get(leaf, 0)
        mon.check(seen * sign >= -1e-9, 'wrong-direction',
                  leaf=str(leaf), amount=seen, **detail)
        good = mon.close(
            abs(seen), expected, 'share', rel=1e-7, abs_=2e-3,
            leaf=str(leaf), tree=root.describe() if good else None,
            **detail) and good
    return good


def tree(rng, mon):
    mod = gen.mode(rng, 0.2)
    mins = rng.random() < 0.6
    root = trees.random_tree(
        rng, mod, depth=rng.choice([1, 1, 2, 2, 3, 4]),
        limits=rng.choice([0, 0.3]), mins=mins,
        width=rng.choice([3, 4]))
    transaction_methods, group_methods = trees.methods()
    source = root.build(rng, mod)
    strategy = TransactionTraversal(
        source, transaction_methods, group_methods, **mod.kw)
    mon.note(tree=root.describe(), mode=mod.name)
    for _ in range(rng.randint(1, 2)):
        sign = rng.choice([1, -1])
        total = sign * amount(rng)
        flows = available(rng, mod, total)
        before = dict(flows)
        kwargs = {}
        if rng.random() < 0.3:
            # Allocate another total than is available.
            total = sign * amount(rng)
            kwargs['total'] = mod(total)
        assign_min = rng.random() < 0.8
        if not assign_min or rng.random() < 0.2:
            kwargs['assign_min'] = assign_min
        want, least = trees.split(root, total, assign_min)
        result = strategy(flows, **kwargs)
        mon.check(flows == before, 'available-mutated')
        got = totals(result)
        detail = dict(total=total, assign_min=assign_min)
        compare(mon, root, got, want, sign, **detail)
        mon.obs([round(float(got.get(n.leaf, 0)), 4) for n in root.leaves()])
        mon.event('split')
        way = 'max_inflow' if sign > 0 else 'max_outflow'
        bound = sum(1 for leaf, x in want.items()
                    if 0 < x and x >= leaf.limits[way] - 1e-6)
        given = sum(1 for x in want.values() if x > 0)
        if sum(least.values()) > 0:
            mon.event('minimum')
        if bound:
            mon.event('account-limit-binds')
        if any(n.limit for n in root.nodes()):
            mon.event('node-limits')
        if root.kind == 'weighted' and given > 1:
            mon.event('weighted-root')
        if root.kind == 'ordered' and given > 1:
            mon.event('ordered-root')
        mon.interesting(given > 1 and (bound or sum(least.values()) > 0))
        if rng.random() < 0.2:
            again = totals(strategy(dict(flows), **kwargs))
            mon.event('repeated')
            for leaf in want:
                mon.close(again.get(leaf, 0), got.get(leaf, 0), 'repeated',
                          abs_=2e-3, leaf=str(leaf))


def anew(rng, mon):
    """ One traversal is given other priorities over the same accounts. """
    mod = gen.mode(rng, 0.2)
    root = trees.random_tree(
        rng, mod, depth=rng.choice([1, 1, 2]), limits=0,
        mins=rng.random() < 0.3, width=4)
    strategy = TransactionTraversal(
        root.build(rng, mod, wrap=False), *trees.methods(), **mod.kw)
    mon.note(tree=root.describe(), mode=mod.name)
    several = 0
    for turn in range(rng.randint(2, 3)):
        if turn:
            for node in root.nodes():
                if node.kind == 'ordered' and rng.random() < 0.5:
                    rng.shuffle(node.children)
                if node.kind == 'weighted' and rng.random() < 0.3:
                    node.children.reverse()
                node.weights = [trees.weight(rng) for _ in node.weights]
            strategy.priority = root.build(rng, mod, wrap=False)
            mon.event('priority-anew')
        sign = rng.choice([1, 1, -1])
        total = sign * amount(rng)
        want, _ = trees.split(root, total)
        got = totals(strategy(available(rng, mod, total)))
        compare(mon, root, got, want, sign, total=total, turn=turn)
        mon.obs([round(float(got.get(n.leaf, 0)), 4) for n in root.leaves()])
        several += sum(1 for x in want.values() if x > 0) > 1
    mon.interesting(several > 1)


def shared(rng, mon):
    """ Accounts of one node share limits. """
    mod = gen.mode(rng, 0.2)
    kind = rng.choice(['weighted', 'weighted', 'ordered'])
    sign = rng.choice([1, -1])
    way = 'inflow' if sign > 0 else 'outflow'
    root = trees.random_tree(
        rng, mod, depth=1, limits=0, mins=False, width=6,
        kinds=kind[0])
    trees.share_limits(rng, root, ['max_' + way], 1)
    if rng.random() < 0.3:
        root.limit['max_' + way] = round(rng.uniform(0, 300), 2)
    total = sign * amount(rng)
    size = min(abs(total), root.limit.get('max_' + way, math.inf))
    leaves = [n.leaf for n in root.children]
    own = [leaf.limits['max_' + way] for leaf in leaves]
    groups = [leaf.shared.get('max_' + way) for leaf in leaves]
    if kind == 'weighted':
        parts = trees.fill_shared(root.weights, own, groups, size)
    else:
        parts, left, room = [], size, {g: g.cap for g in groups if g}
        for limit, group in zip(own, groups):
            part = min(limit, left, room.get(group, math.inf))
            if group:
                room[group] -= part
            left -= part
            parts.append(part)
    want = dict(zip(leaves, parts))
    transaction_methods, group_methods = trees.methods()
    strategy = TransactionTraversal(
        root.build(rng, mod), transaction_methods, group_methods, **mod.kw)
    mon.note(tree=root.describe(), total=total, mode=mod.name)
    got = totals(strategy(available(rng, mod, total)))
    compare(mon, root, got, want, sign, total=total)
    mon.obs([round(float(got.get(leaf, 0)), 4) for leaf in leaves])
    sizes = [len(g.members) for g in groups if g]
    if sizes and max(sizes) > 1:
        mon.event('shared-limit')
        mon.interesting(sum(1 for x in parts if x > 0) > 1)


def fill(kind, weights, own, groups, size, low=None):
    """ Split along one node of leaves, of which some share limits. """
    if kind == 'weighted':
        if low is not None:
            high = [max(limit, a) for limit, a in zip(own, low)]
            return trees.level(weights, low, high, sum(low) + size)
        return trees.fill_shared(weights, own, groups, size)
    low = low or [0] * len(own)
    parts, left, room = [], size, {g: g.cap for g in groups if g}
    for limit, group, had in zip(own, groups, low):
        part = max(min(limit - had, left, room.get(group, math.inf)), 0)
        if group:
            room[group] -= part
        left -= part
        parts.append(had + part)
    return parts


def least(rng, mon):
    """ Accounts of one node share what they must at least take or give. """
    mod = gen.mode(rng, 0.2)
    kind = rng.choice(['weighted', 'ordered'])
    sign = rng.choice([1, -1])
    way = 'inflow' if sign > 0 else 'outflow'
    root = trees.random_tree(
        rng, mod, depth=1, limits=0, mins=False, width=6, kinds=kind[0])
    leaves = [n.leaf for n in root.children]
    real = rng.random() < 0.4
    if real:
        # What linked accounts have in common is theirs, not each one's.
        owner = Person(2000, 'P', 1970, retirement_date=2035, **mod.kw)
    tops = [leaf.limits['max_' + way] for leaf in leaves]
    if real and sign < 0:
        # (Limits on withdrawals come down to balances here.)
        tops = [gen.money(rng, 0, 300) for _ in tops]
    caps = [round(rng.uniform(0, 90), 2) for _ in range(2)]
    tops = [t if t == 0 or t > max(caps) else t + max(caps) for t in tops]
    shares = [trees.Shared(cap) for cap in caps]
    for i, node in enumerate(root.children):
        leaf, share = node.leaf, rng.choice(shares + [None])
        if tops[i] == 0:
            share = None
        leaf.limits['max_' + way] = tops[i]
        leaf.limits['min_' + way] = 0
        if share is not None:
            leaf.shared['min_' + way] = share
            share.members.add(leaf)
            leaf.limits['min_' + way] = share.cap
        elif tops[i] and rng.random() < 0.5:
            leaf.limits['min_' + way] = min(
                tops[i], round(rng.uniform(0, 60), 2))
        if not real:
            continue
        kwargs, name = {}, 'min_%s_' % way
        if leaf.limits[name[:-1]]:
            token = str(i) if share is None else 's%d' % shares.index(share)
            kwargs = {name + 'link': (owner, token),
                      name + 'limit': mod(sign * leaf.limits[name[:-1]])}
        if sign > 0 and tops[i] < math.inf:
            kwargs['max_inflow_link'] = (owner, 'own%d' % i)
            kwargs['max_inflow_limit'] = mod(tops[i])
        acct = LinkedLimitAccount(
            owner, balance=mod(tops[i] if sign < 0 else 0), **kwargs,
            **mod.kw)
        acct.limits, acct.shared = leaf.limits, leaf.shared
        node.leaf = acct
    leaves = [n.leaf for n in root.children]
    total = sign * amount(rng)
    size = abs(total)
    groups = [leaf.shared.get('min_' + way) for leaf in leaves]
    low = fill(kind, root.weights, [x.limits['min_' + way] for x in leaves],
               groups, size if sign > 0 else 1e7)
    parts = fill(kind, root.weights, tops, [None] * len(leaves),
                 max(size - sum(low), 0), low)
    strategy = TransactionTraversal(
        root.build(rng, mod), *(() if real else trees.methods()), **mod.kw)
    mon.note(tree=root.describe(), total=total, mode=mod.name, real=real,
             groups=[g and g.cap for g in groups], tops=tops)
    flows = available(rng, mod, total)
    got = totals(strategy(flows))
    compare(mon, root, got, dict(zip(leaves, parts)), sign, total=total,
            low=low, real=real)
    mon.obs([round(float(got.get(leaf, 0)), 4) for leaf in leaves])
    if any(groups.count(g) > 1 for g in groups if g):
        mon.event('shared-minimum')
        mon.interesting(sum(1 for x in parts if x > 0) > 1)


def accounts(rng, mon):
    """ Real accounts and debts in a tree. """
    mod = gen.mode(rng, 0.2)
    root = trees.random_tree(
        rng, mod, depth=rng.choice([1, 2, 2, 3]), mins=False,
        limits=rng.choice([0, 0.3]), width=3)
    sign = rng.choice([1, 1, -1])
    total = sign * amount(rng) * 10
    flows = available(rng, mod, total)
    owner = Person(2000, 'P', 1970, retirement_date=2035, **mod.kw)
    for node in root.leaves():
        kwargs = dict(mod.kw, rate=mod(round(rng.uniform(0, 0.1), 3)))
        balance = gen.money(rng, 0, 3000)
        if rng.random() < 0.3:
            node.leaf = Debt(
                owner, balance=mod(-balance),
                minimum_payment=mod(gen.money(rng, 0, 300)),
                accelerated_payment=mod(rng.choice(
                    [0, 500, math.inf, gen.money(rng, 0, 300)])), **kwargs)
        else:
            node.leaf = Account(owner, balance=mod(balance), **kwargs)
    mon.note(total=total, mode=mod.name)
    for node in root.leaves():
        acct = node.leaf
        acct.limits = {
            kind: abs(float(sum(getattr(acct, kind + 's')(flows).values())))
            for kind in trees.KINDS}
    before = {
        n.leaf: (dict(n.leaf.transactions), n.leaf.balance)
        for n in root.leaves()}
    mon.note(tree=root.describe())
    want, _ = trees.split(root, total)
    result = TransactionTraversal(root.build(rng, mod), **mod.kw)(flows)
    got = totals(result)
    compare(mon, root, got, want, sign, total=total)
    whole = sum(flows.values())
    for acct, txns in result.items():
        # Each account's flows are spread as the available money is.
        mon.check(set(txns) <= set(flows), 'timings', txns=txns,
                  available=flows)
        for when, part in flows.items():
            mon.close(txns.get(when, 0), got[acct] * part / whole,
                      'spread', rel=1e-6, abs_=1e-3, txns=txns,
                      available=flows)
    for acct, (txns, balance) in before.items():
        mon.check(dict(acct.transactions) == txns
                  and acct.balance == balance, 'account-changed')
    mon.event('real-accounts')
    mon.obs([round(float(got.get(n.leaf, 0)), 4) for n in root.leaves()])
    mon.interesting(sum(1 for x in want.values() if x > 0) > 1)


WORKLOADS = [Workload('tree', tree, 2000, 120000),
             Workload('anew', anew, 500, 20000),
             Workload('shared', shared, 900, 30000),
             Workload('least', least, 600, 30000),
             Workload('accounts', accounts, 600, 25000)]
REQUIRED = {'split': 1500, 'minimum': 400, 'account-limit-binds': 400,
            'node-limits': 250, 'weighted-root': 150, 'ordered-root': 150,
            'shared-limit': 300, 'shared-minimum': 150,
            'real-accounts': 300,
            'priority-anew': 300, 'repeated': 100}
