""" Priority trees over stand-in accounts, and how to split flows on them.

A stand-in account only knows the least and the most it takes and gives, and
which other stand-ins it shares those limits with.  The reference split is
computed top-down: ordered children are exhausted in order, weighted children
are filled in proportion to their weights until they can take no more.
"""

import math
from forecaster import LimitTuple
from forecaster.strategy import TransactionNode

INF = math.inf
KINDS = ('min_inflow', 'max_inflow', 'min_outflow', 'max_outflow')


class Shared:
    """ A limit shared by several stand-ins. """

    def __init__(self, cap):
        self.cap = cap
        self.members = set()


class Leaf:
    """ A stand-in account. """

    def __init__(self, name, mod, limits):
        self.name, self.mod = name, mod
        self.limits = limits        # kind: magnitude
        self.shared = {}            # kind: Shared

    def __repr__(self):
        return self.name

    def flows(self, kind, timing, limit):
        """ What a leaf's transaction method returns. """
        sign = -1 if 'outflow' in kind else 1
        amount = self.limits[kind]
        if kind in self.shared:
            amount = min(amount, self.shared[kind].cap)
        if limit is not None:
            if limit * sign < 0:
                raise ValueError('limit %r of the wrong sign' % limit)
            amount = min(amount, abs(limit))
        whole = sum(timing.values())
        if amount == 0 or not math.isfinite(amount) or not whole:
            return {min(timing, default=0.5): self.mod(sign * amount)}
        return {
            when: self.mod(sign * amount) * part / whole
            for when, part in timing.items()}


def methods():
    """ Transaction methods and group methods for stand-ins. """
    def ask(kind):
        def select(leaf):
            def answer(timing, transaction_limit=None):
                return leaf.flows(kind, timing, transaction_limit)
            return answer
        return select

    def group(kind):
        def select(leaf):
            share = leaf.shared.get(kind)
            return None if share is None else share.members
        return select
    return (LimitTuple(**{k: ask(k) for k in KINDS}),
            LimitTuple(**{k: group(k) for k in KINDS}))


class Node:
    """ A node of a priority tree, and the source it was built from. """

    def __init__(self, kind, children=(), weights=(), leaf=None):
        self.kind = kind            # 'leaf', 'ordered' or 'weighted'
        self.children = list(children)
        self.weights = list(weights)
        self.leaf = leaf
        self.limit = {}             # kind: magnitude
        self.source = None
        self.cap = None

    def leaves(self):
        """ Leaf nodes, in order. """
        if self.kind == 'leaf':
            return [self]
        return [x for child in self.children for x in child.leaves()]

    def nodes(self):
        """ All nodes, parents first. """
        return [self] + [x for c in self.children for x in c.nodes()]

    def build(self, rng, mod, hashable=False, wrap=None):
        """ The priority structure for the real code. """
        if self.kind == 'leaf':
            raw = self.leaf
        elif self.kind == 'ordered':
            kids = [c.build(rng, mod) for c in self.children]
            raw = tuple(kids) if hashable or rng.random() < 0.5 else kids
            if isinstance(raw, tuple):
                try:
                    hash(raw)
                except TypeError:
                    raw = kids
        else:
            raw = {
                c.build(rng, mod, hashable=True): mod(w)
                for c, w in zip(self.children, self.weights)}
        if wrap is None:
            wrap = rng.random() < 0.3
        if hashable and not wrap:
            try:
                hash(raw)
            except TypeError:
                wrap = True
        if self.limit or wrap:
            values = {}
            for kind, amount in self.limit.items():
                sign = -1 if 'out' in kind and rng.random() < 0.7 else 1
                values[kind] = mod(sign * amount)
            limits = LimitTuple(**values)
            if not values and rng.random() < 0.5:
                limits = None
            elif rng.random() < 0.3:
                limits = list(limits)
            raw = TransactionNode(raw, limits=limits)
        self.source = raw
        return raw

    def describe(self):
        out = {'kind': self.kind}
        if self.limit:
            out['limit'] = dict(self.limit)
        if self.kind == 'leaf':
            out['leaf'] = getattr(
                self.leaf, 'name', type(self.leaf).__name__)
            out.update(getattr(self.leaf, 'limits', {}))
            shared = getattr(self.leaf, 'shared', None)
            if shared:
                out['shared'] = {
                    k: '%s %s' % (s.cap, sorted(map(str, s.members)))
                    for k, s in shared.items()}
        else:
            if self.weights:
                out['weights'] = self.weights
            out['children'] = [c.describe() for c in self.children]
        return out


def weight(rng):
    return rng.choice([1, 1, 2, 0.5, rng.uniform(0.1, 3)])


def random_leaf(rng, name, mod, mins):
    limits = {}
    for way in ('inflow', 'outflow'):
        most = rng.choice([INF, rng.uniform(0, 200), rng.uniform(0, 200), 0])
        if most not in (0, INF):
            most = round(most, rng.choice([0, 2, 6]))
        least = 0
        if mins and rng.random() < 0.4:
            least = min(most, round(rng.uniform(0, 80), rng.choice([0, 2])))
        limits['max_' + way], limits['min_' + way] = most, least
    return Leaf(name, mod, limits)


def random_tree(rng, mod, *, depth, limits=0.3, mins=True, repeat=0.0,
                width=4, kinds='ow'):
    """ A random priority tree. """
    leaves = []

    def grow(level):
        kind = rng.choice(kinds + 'l' * (level < depth)) if level else 'l'
        if kind == 'l':
            if leaves and rng.random() < repeat:
                leaf = rng.choice(leaves)
            else:
                leaf = random_leaf(
                    rng, 'L%d' % (len(leaves) + 1), mod, mins)
                leaves.append(leaf)
            node = Node('leaf', leaf=leaf)
        else:
            kids = [grow(level - 1) for _ in range(rng.randint(1, width))]
            seen, unique = set(), []
            for kid in kids:
                # The same account cannot be twice a key of one mapping.
                if kid.kind == 'leaf' and kid.leaf in seen:
                    continue
                seen.add(kid.leaf)
                unique.append(kid)
            node = Node(
                'ordered' if kind == 'o' else 'weighted', unique,
                [weight(rng) for _ in unique] if kind == 'w' else ())
        if rng.random() < limits:
            for way in ('inflow', 'outflow'):
                if rng.random() < 0.7:
                    node.limit['max_' + way] = round(rng.uniform(0, 300), 2)
                if mins and rng.random() < 0.4:
                    node.limit['min_' + way] = round(rng.uniform(0, 100), 2)
        return node
    return grow(depth)


# -- reference split ------------------------------------------------------

def _capacity(node, kind, done):
    if node.kind == 'leaf':
        cap = node.leaf.limits[kind] - done.get(node, 0)
    else:
        cap = sum(_capacity(c, kind, done) for c in node.children)
    limit = node.limit.get(kind, INF)
    if limit < INF:
        cap = min(cap, limit - done.get(node, 0))
    node.cap = max(cap, 0)
    return node.cap


def level(weights, low, high, total):
    """ Amounts in proportion to weights, within bounds, of this total. """
    def fill(lam):
        return [min(max(lam * w, a), b)
                for w, a, b in zip(weights, low, high)]
    if sum(high) <= total:
        return list(high)
    # Bracket, then bisect, the common factor.
    bottom, top = 0.0, 1.0
    while sum(fill(top)) < total and top < 1e15:
        top *= 2
    for _ in range(100):
        mid = (bottom + top) / 2
        if sum(fill(mid)) < total:
            bottom = mid
        else:
            top = mid
    return fill(top)


def _assign(node, amount, done, out):
    amount = min(amount, node.cap)
    out[node] = amount
    if node.kind == 'ordered':
        for child in node.children:
            part = min(amount, child.cap)
            _assign(child, part, done, out)
            amount -= part
    elif node.kind == 'weighted':
        low = [done.get(c, 0) for c in node.children]
        high = [a + c.cap for a, c in zip(low, node.children)]
        for child, had, gets in zip(
                node.children, low,
                level(node.weights, low, high, sum(low) + amount)):
            _assign(child, gets - had, done, out)


def split(root, total, assign_min=True):
    """ Leaf: amount (by magnitude), and what minimums came to.

    For trees in which no leaf appears twice and no limits are shared.
    """
    way = 'inflow' if total > 0 else 'outflow'
    done = {}
    if assign_min:
        _capacity(root, 'min_' + way, {})
        # Minimum outflows happen whether or not they are needed.
        _assign(root, total if total > 0 else INF, {}, done)
    more = {}
    _capacity(root, 'max_' + way, done)
    _assign(root, max(abs(total) - done.get(root, 0), 0), done, more)
    return ({n.leaf: done.get(n, 0) + more.get(n, 0)
             for n in root.leaves()},
            {n.leaf: done.get(n, 0) for n in root.leaves()})


def fill_shared(weights, own, groups, total):
    """ Weighted split of leaves of which some share limits.

    All shares grow in proportion to their weights; one stops growing when
    its own limit or its group's is reached.
    """
    count = len(weights)
    got = [0.0] * count
    active = set(range(count))

    def used(group):
        return sum(got[i] for i in range(count) if groups[i] is group)
    while active:
        left = total - sum(got)
        if left < 1e-9:
            break
        step = left / sum(weights[i] for i in active)
        for i in active:
            step = min(step, (own[i] - got[i]) / weights[i])
        for group in {g for g in groups if g is not None}:
            pull = sum(weights[i] for i in active if groups[i] is group)
            if pull > 0:
                step = min(step, (group.cap - used(group)) / pull)
        for i in active:
            got[i] += max(step, 0) * weights[i]
        full = {i for i in active if own[i] - got[i] < 1e-9 or (
            groups[i] is not None
            and groups[i].cap - used(groups[i]) < 1e-9)}
        if not full:
            break
        active -= full
    return got


# -- maximum flow ----------------------------------------------------------

def capacity(root, kind, total, leaf_caps=None):
    """ The most that fits through a tree, shared limits included.

    `leaf_caps` replaces what each leaf may take.  Amounts are whole
    millionths, so that the search is exact.
    """
    def unit(amount):
        return 10**15 if amount >= 1e9 else int(round(amount * 1e6))
    net = {}

    def edge(a, b, cap):
        net.setdefault(a, {})
        net.setdefault(b, {})
        net[a][b] = net[a].get(b, 0) + cap
        net[b].setdefault(a, 0)
    edge('source', ('in', id(root)), unit(total))
    seen = set()
    for node in root.nodes():
        edge(('in', id(node)), ('out', id(node)),
             unit(node.limit.get(kind, INF)))
        for child in node.children:
            edge(('out', id(node)), ('in', id(child)), unit(INF))
        if node.kind != 'leaf':
            continue
        leaf = node.leaf
        edge(('out', id(node)), leaf, unit(INF))
        if leaf in seen:
            continue
        seen.add(leaf)
        cap = leaf.limits[kind] if leaf_caps is None else leaf_caps[leaf]
        share = leaf.shared.get(kind)
        if share is None:
            edge(leaf, 'sink', unit(cap))
        else:
            edge(leaf, ('share', id(share)), unit(cap))
            if ('share', id(share)) not in seen:
                seen.add(('share', id(share)))
                edge(('share', id(share)), 'sink', unit(share.cap))
    flow = 0
    while True:
        back, queue = {'source': None}, ['source']
        while queue and 'sink' not in back:
            here = queue.pop(0)
            for there, cap in net[here].items():
                if cap > 0 and there not in back:
                    back[there] = here
                    queue.append(there)
        if 'sink' not in back:
            return flow / 1e6
        path, here = [], 'sink'
        while back[here] is not None:
            path.append((back[here], here))
            here = back[here]
        step = min(net[a][b] for a, b in path)
        for a, b in path:
            net[a][b] -= step
            net[b][a] += step
        flow += step


def share_limits(rng, root, kinds=('max_inflow', 'max_outflow'), chance=0.6):
    """ Lets random stand-ins of a tree share their limits. """
    leaves = []
    for node in root.leaves():
        if node.leaf not in leaves:
            leaves.append(node.leaf)
    for kind in kinds:
        if rng.random() > chance:
            continue
        groups = [Shared(round(rng.uniform(0, 200), 2))
                  for _ in range(rng.randint(1, 2))]
        for leaf in leaves:
            share = rng.choice(groups + [None])
            if share is not None:
                leaf.shared[kind] = share
                share.members.add(leaf)
                # Members state what they share as their own limit.
                leaf.limits[kind] = share.cap
        for share in groups:
            # (At least one of them can use all of it.)
            for leaf in rng.sample(leaves, len(leaves)):
                if leaf in share.members and rng.random() < 0.3 and any(
                        x.limits[kind] == share.cap
                        for x in share.members - {leaf}):
                    leaf.limits[kind] = round(rng.uniform(0, share.cap), 2)
    return leaves
