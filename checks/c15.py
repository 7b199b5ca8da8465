""" C15: transaction strategies order and weight accounts as asked. """

import math
from vmon import gen, trees
from vmon.core import Workload
from checks.c14 import available, totals
from forecaster import Account, Debt, Person
from forecaster.canada import TaxableAccount
from forecaster.strategy import TransactionStrategy

PROPERTY = 'C15'
SCALE = 12
RULE = (
    'Random sets of accounts of several classes (some of them subclasses '
    'known only by their base class) and debts are given weights by class '
    'name, a strategy, a debt strategy and sometimes a threshold for high '
    'interest; contributions and withdrawals are compared with an '
    'independent split along the tree that the strategy describes, over '
    'one to three years of actually making them. Non-trivial: at least two '
    'accounts of different classes receive something.')


class Savings(Account):
    """ Known by its own name. """


class HighSavings(Savings):
    """ Known by its base class's name, unless weights name it. """


class DeepSavings(HighSavings):
    """ Known by the nearest base class that weights name. """


class Mortgage(Debt):
    """ A debt known as a debt. """


KEYS = ['Savings', 'HighSavings', 'DeepSavings', 'TaxableAccount', 'Debt',
        'Account']


def key_of(account, weights):
    for cls in type(account).__mro__:
        if cls.__name__ in weights:
            return cls.__name__
    return None


def tree_of(accounts, weights, strategy, debt_strategy, threshold):
    """ The priority tree that a strategy stands for. """
    owed = [a for a in accounts if isinstance(a, Debt) and a.balance < 0]
    high = [d for d in owed if threshold is not None and d.rate >= threshold]

    def ordered(debts):
        if debt_strategy == 'Snowball':
            debts = sorted(debts, key=lambda d: -d.balance)
        else:
            debts = sorted(debts, key=lambda d: -d.rate)
        return trees.Node(
            'ordered', [trees.Node('leaf', leaf=d) for d in debts])

    groups = {}
    for account in accounts:
        if isinstance(account, Debt) and (
                account not in owed or account in high):
            continue
        key = key_of(account, weights)
        if key is not None:
            groups.setdefault(key, []).append(account)
    names = sorted(groups, key=weights.get)
    kids = []
    for name in names:
        members = groups[name]
        if isinstance(members[0], Debt):
            kids.append(ordered(members))
        elif len(members) == 1:
            kids.append(trees.Node('leaf', leaf=members[0]))
        else:
            kids.append(trees.Node(
                'weighted', [trees.Node('leaf', leaf=m) for m in members],
                [1] * len(members)))
    if strategy == 'Ordered':
        root = trees.Node('ordered', kids)
    else:
        root = trees.Node('weighted', kids, [weights[n] for n in names])
    if high:
        root = trees.Node('ordered', [ordered(high), root])
    return root, groups, high


def follow(rng, mon):
    mod = gen.mode(rng, 0.2)
    owner = Person(2000, 'P', 1970, retirement_date=2035, **mod.kw)
    rates = rng.sample(range(0, 200), 12)
    accounts = []
    for _ in range(rng.randint(1, 6)):
        kwargs = dict(
            mod.kw, rate=mod(rates.pop() / 1000),
            balance=mod(gen.money(rng, 0, 3000) + rng.random() / 1000))
        cls = rng.choice([Savings, HighSavings, DeepSavings, TaxableAccount,
                          Debt, Debt, Mortgage])
        if not issubclass(cls, Debt) and rng.random() < 0.1:
            # Overdrawn, but no debt.
            kwargs['balance'] = -kwargs['balance']
            mon.event('overdrawn')
        if issubclass(cls, Debt):
            kwargs['balance'] = -kwargs['balance']
            if rng.random() < 0.1:
                kwargs['balance'] = mod(0)
            kwargs['minimum_payment'] = mod(gen.money(rng, 0, 300))
            kwargs['accelerated_payment'] = mod(rng.choice(
                [0, 500, math.inf, gen.money(rng, 0, 300)]))
        accounts.append(cls(owner, **kwargs))
    strategy = rng.choice(['Ordered', 'Weighted'])
    names = [k for k in KEYS if rng.random() < rng.choice([0.3, 0.8])]
    if 'Debt' not in names and 'Account' in names:
        # Debts that are not a rank of their own have no order.
        names.remove('Account')
    if strategy == 'Ordered':
        values = rng.sample(range(1, 12), len(names))
    else:
        values = [trees.weight(rng) for _ in names]
    weights = dict(zip(names, values))
    debt_strategy = rng.choice([None, 'Avalanche', 'Snowball'])
    threshold = None
    if rng.random() < 0.5:
        threshold = rng.choice([0.05, 0.1, 0.1, 0])
        if rng.random() < 0.3:
            # Right at some debt's rate.
            debts = [a for a in accounts if isinstance(a, Debt)]
            if debts:
                threshold = float(rng.choice(debts).rate)
        threshold = mod(threshold)
    tool = TransactionStrategy(
        strategy, {k: mod(v) for k, v in weights.items()},
        **dict({} if debt_strategy is None else {
            'debt_strategy': debt_strategy},
            **({} if threshold is None else {
                'high_interest_threshold': threshold}), **mod.kw))
    mon.note(strategy=strategy, weights=weights, threshold=threshold,
             debt_strategy=debt_strategy, mode=mod.name, accounts=[
                 (type(a).__name__, a.balance, a.rate,
                  getattr(a, 'minimum_payment', None),
                  getattr(a, 'accelerated_payment', None))
                 for a in accounts])
    for year in range(rng.randint(1, 3)):
        sign = rng.choice([1, 1, -1])
        total = sign * rng.choice([
            rng.uniform(1, 500), rng.uniform(1, 5000)])
        flows = available(rng, mod, total)
        for account in accounts:
            account.limits = {
                kind: abs(float(sum(
                    getattr(account, kind + 's')(flows).values())))
                for kind in trees.KINDS}
        root, groups, high = tree_of(
            accounts, weights, strategy, debt_strategy, threshold)
        want = {}
        if root.leaves():
            want, _ = trees.split(root, total)
        given = rng.choice([set, list, frozenset, tuple])(accounts)
        result = tool(flows, given)
        got = totals(result)
        mon.event('split')
        mon.obs(sorted(round(float(x), 3) for x in got.values()))
        detail = dict(total=total, year=year,
                      limits=[a.limits for a in accounts])
        for i, account in enumerate(accounts):
            mon.close(
                abs(got.get(account, 0)), want.get(account, 0), 'share',
                rel=1e-7, abs_=3e-3, account=i, **detail)
            mon.check(got.get(account, 0) * sign >= -1e-9,
                      'wrong-direction', account=i, **detail)
        mon.check(set(got) <= set(accounts), 'unknown-account', **detail)
        served = {type(a).__name__ for a, x in want.items() if x > 0}
        mon.interesting(len(served) > 1)
        if high and sign > 0:
            mon.event('high-interest')
        if 'Debt' in groups and len(groups['Debt']) > 1 and sign > 0:
            mon.event('several-debts')
        if any(len(g) > 1 and n != 'Debt' for n, g in groups.items()):
            mon.event('several-alike')
        if any(key_of(a, weights) is None for a in accounts):
            mon.event('without-weight')
        for account in accounts:
            ranks = [c.__name__ for c in type(account).__mro__
                     if c.__name__ in weights]
            if len(ranks) > 1:
                mon.event('several-base-classes')
            if ranks and ranks[0] not in [type(account).__name__] + [
                    c.__name__ for c in type(account).__bases__]:
                mon.event('distant-base-class')
        # Make the transactions, as far as they go, and carry on.
        for account, txns in result.items():
            if sign < 0 and isinstance(account, TaxableAccount):
                continue
            for when, value in txns.items():
                account.add_transaction(value, when)
        owner.next_year()
        for account in accounts:
            account.next_year()


WORKLOADS = [Workload('follow', follow, 1500, 40000)]
REQUIRED = {'split': 1500, 'high-interest': 200, 'several-debts': 100,
            'several-alike': 200, 'without-weight': 200, 'overdrawn': 100,
            'several-base-classes': 300, 'distant-base-class': 100}
