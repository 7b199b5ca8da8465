""" C13: allocations conserve money, respect limits and leave none idle. """

from vmon import gen, trees
from vmon.core import Workload
from checks.c14 import amount, available, totals
from forecaster.strategy import TransactionTraversal

PROPERTY = 'C13'
SCALE = 10
RULE = (
    'Random priority trees nested up to three deep, in which accounts share '
    'limits in groups across branches, occur more than once and have least '
    'flows, are given an amount to allocate in either direction. What the '
    'accounts get is checked for sign and limits, for being routable '
    'through the tree at all, and for not being improvable: the total is '
    'compared with an independent maximum flow, and no account may have '
    'room for more while money is left. Non-trivial: the limits, not the '
    'amount available, decide the total, or some account has a minimum.')

SLACK = 3e-3


def share_least(rng, leaves, least, most):
    """ Lets accounts share what they must at least take or give. """
    shares = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        fit = [x for x in leaves
               if x.limits[most] > 0 and least not in x.shared]
        rng.shuffle(fit)
        fit = fit[:rng.randint(2, 3)]
        if not fit:
            continue
        cap = round(rng.uniform(0, min(
            90, max(x.limits[most] for x in fit))), 2)
        share = trees.Shared(cap)
        for leaf in fit:
            if leaf.limits[most] >= cap:
                share.members.add(leaf)
                leaf.shared[least] = share
                leaf.limits[least] = cap
        shares.append(share)
    return shares


def used(rng, mon, mod, strategy, leaves):
    """ A strategy allocates other money, maybe in fuller accounts, first. """
    held = [(leaf, dict(leaf.limits)) for leaf in leaves]
    for _ in range(rng.choice([1, 1, 2])):
        if rng.random() < 0.5:
            for leaf, limits in held:
                part = rng.choice([0, 0.5, 1])
                leaf.limits.update({
                    k: v * part if part else 0 for k, v in limits.items()})
        other = rng.choice([1, -1]) * amount(rng)
        strategy(available(rng, mod, other), **rng.choice(
            [{}, {}, {'assign_min': False}, {'total': mod(other / 2)}]))
    for leaf, limits in held:
        leaf.limits.update(limits)
    mon.event('used-before')


def allocate(rng, mon):
    mod = gen.mode(rng, 0.15)
    mins = rng.random() < 0.5
    root = trees.random_tree(
        rng, mod, depth=rng.choice([1, 2, 2, 3]), mins=mins,
        limits=0 if mins else rng.choice([0, 0.3]), width=3,
        repeat=rng.choice([0, 0.3]))
    leaves = trees.share_limits(rng, root, chance=0.6)
    sign = rng.choice([1, -1])
    way = 'inflow' if sign > 0 else 'outflow'
    least, most = 'min_' + way, 'max_' + way
    for leaf in leaves:
        if most in leaf.shared:
            # What is shared is at least what its members must do.
            leaf.limits[least] = 0 if rng.random() < 0.5 else min(
                leaf.limits[least], leaf.limits[most],
                leaf.shared[most].cap / len(leaf.shared[most].members))
    common = []
    if mins and not any(most in leaf.shared for leaf in leaves):
        common = share_least(rng, leaves, least, most)
    total = sign * amount(rng)
    size = abs(total)
    transaction_methods, group_methods = trees.methods()
    strategy = TransactionTraversal(
        root.build(rng, mod), transaction_methods, group_methods, **mod.kw)
    mon.note(tree=root.describe(), total=total, mode=mod.name)
    if rng.random() < 0.4:
        used(rng, mon, mod, strategy, leaves)
    got = totals(strategy(available(rng, mod, total)))
    mon.check(set(got) <= set(leaves), 'unknown-account')
    given = {leaf: abs(float(got.get(leaf, 0))) for leaf in leaves}
    mon.obs([round(given[leaf], 4) for leaf in leaves])
    detail = dict(total=total, given=given)

    # Direction and limits.
    for leaf in leaves:
        mon.check(got.get(leaf, 0) * sign >= -1e-9, 'wrong-direction',
                  leaf=str(leaf), **detail)
        mon.check(given[leaf] <= leaf.limits[most] + SLACK,
                  'past-account-limit', leaf=str(leaf), **detail)
    shares = {leaf.shared[most] for leaf in leaves if most in leaf.shared}
    for share in shares:
        mon.event('shared-limit')
        mon.check(
            sum(given[x] for x in share.members) <= share.cap + SLACK,
            'past-shared-limit', cap=share.cap, **detail)
    assigned = sum(given.values())
    due = sum(leaf.limits[least] for leaf in leaves
              if least not in leaf.shared)
    due += sum(share.cap for share in common)
    bound = max(size, due) if sign < 0 else size
    mon.check(assigned <= bound + SLACK, 'more-than-available', due=due,
              **detail)

    # What was given fits through the tree.
    routed = trees.capacity(root, most, assigned, given)
    mon.close(routed, assigned, 'past-node-limit', abs_=SLACK * 2, **detail)

    # None is left idle.
    best = trees.capacity(root, most, size)
    if due == 0:
        mon.close(assigned, best, 'total', abs_=SLACK * 2, **detail)
        mon.event('maximum')
    elif due <= size:
        mon.event('minimums-met')
        for leaf in leaves:
            if least not in leaf.shared:
                mon.check(given[leaf] >= leaf.limits[least] - SLACK,
                          'minimum-not-met', leaf=str(leaf), **detail)
        for share in common:
            mon.check(sum(given[x] for x in share.members)
                      >= share.cap - SLACK, 'shared-minimum-not-met',
                      cap=share.cap, **detail)
    elif sign > 0:
        mon.event('minimums-short')
        mon.close(assigned, size, 'minimums-idle', abs_=SLACK * 2, **detail)
        for leaf in leaves:
            mon.check(given[leaf] <= leaf.limits[least] + SLACK,
                      'beyond-minimum-first', leaf=str(leaf), **detail)
        for share in common:
            mon.check(sum(given[x] for x in share.members)
                      <= share.cap + SLACK, 'beyond-shared-minimum-first',
                      cap=share.cap, **detail)
    else:
        mon.event('minimums-beyond')
        for leaf in leaves:
            if least not in leaf.shared:
                mon.close(given[leaf], leaf.limits[least], 'minimum-outflow',
                          abs_=SLACK, leaf=str(leaf), **detail)
        for share in common:
            mon.close(sum(given[x] for x in share.members), share.cap,
                      'shared-minimum-outflow', abs_=SLACK, cap=share.cap,
                      **detail)
    if assigned < size - 1:
        mon.event('limits-decide')
        for leaf in leaves:
            more = dict(given)
            more[leaf] += 0.5
            if more[leaf] > leaf.limits[most]:
                continue
            mon.check(
                trees.capacity(root, most, assigned + 0.5, more)
                < assigned + 0.5 - SLACK * 2,
                'could-take-more', leaf=str(leaf), **detail)
    if any(leaf.limits[least] for leaf in leaves):
        mon.event('minimum')
    if common:
        mon.event('shared-minimum')
    if len(root.leaves()) > len(leaves):
        mon.event('repeated-account')
    mon.event('allocation')
    mon.interesting(len(leaves) > 1 and (assigned < size - 1 or due > 0))


def nothing(rng, mon):
    """ No money, or no accounts, means no transactions. """
    mod = gen.mode(rng, 0.3)
    root = trees.random_tree(rng, mod, depth=2, mins=True)
    transaction_methods, group_methods = trees.methods()
    tiny = rng.choice([0, 0, 1e-6, -1e-6])
    mon.note(tree=root.describe(), total=tiny)
    got = totals(TransactionTraversal(
        root.build(rng, mod), transaction_methods, group_methods,
        **mod.kw)({mod(0.5): mod(tiny)}))
    mon.check(not any(got.values()), 'from-nothing', got=got, total=tiny)
    empty = rng.choice([[], (), {}])
    got = TransactionTraversal(
        empty, transaction_methods, group_methods,
        **mod.kw)({mod(0.5): mod(rng.choice([100, -100]))})
    mon.check(got == {}, 'to-nobody', got=got)
    mon.event('nothing')
    mon.interesting()


WORKLOADS = [Workload('allocate', allocate, 3000, 80000),
             Workload('nothing', nothing, 200, 1000)]
REQUIRED = {'allocation': 1500, 'shared-minimum': 150, 'shared-limit': 500, 'maximum': 500,
            'minimums-met': 200, 'minimums-short': 80, 'minimums-beyond': 80,
            'limits-decide': 500, 'repeated-account': 200, 'nothing': 100,
            'used-before': 500}
