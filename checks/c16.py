""" C16: debts are repaid in the order of the debt strategy. """

import math
from vmon import gen
from vmon.core import Workload
from checks.c14 import available
from forecaster import Debt, Person
from forecaster.strategy import DebtPaymentStrategy

PROPERTY = 'C16'
SCALE = 12
RULE = (
    'Random sets of debts are paid down by a debt payment strategy, with an '
    'amount given as a number or as a time series, over up to eight years '
    'until repaid. Each year the payments are compared with an independent '
    'calculation (minimums in order, then as much as each debt takes in '
    'order), and the debts are watched for overpayment. Non-trivial: at '
    'least two debts, and money for some but not all of them.')

TOL = 2e-3


def repay(rng, mon):
    mod = gen.mode(rng, 0.2)
    owner = Person(2000, 'P', 1970, retirement_date=2035, **mod.kw)
    rates = rng.sample(range(0, 250), 6)
    debts = []
    for _ in range(rng.randint(1, 5)):
        kwargs = dict(
            mod.kw, rate=mod(rates.pop() / 1000), nper=gen.nper(rng),
            balance=mod(-gen.money(rng, 0, 4000) - rng.random() / 1000),
            minimum_payment=mod(gen.money(rng, 0, 500)),
            accelerated_payment=mod(rng.choice(
                [0, 500, math.inf, math.inf, gen.money(rng, 0, 800)])))
        if rng.random() < 0.4:
            times = rng.sample([0, 0.25, 0.5, 0.75, 1], rng.randint(1, 3))
            kwargs['default_timing'] = {
                mod(t): mod(rng.choice([1, 2, 0.5])) for t in times}
        debts.append(Debt(owner, **kwargs))
    name = rng.choice(['Snowball', 'Avalanche'])
    tool = DebtPaymentStrategy(name, **mod.kw)
    mon.note(strategy=name, mode=mod.name, debts=[
        (d.balance, d.rate, d.minimum_payment, d.accelerated_payment)
        for d in debts])
    scale = rng.choice([300, 1500, 4000])
    for year in range(rng.randint(1, 8)):
        total = round(rng.uniform(0.05, 1) * scale, 2)
        single = rng.random() < 0.4
        flows = {} if single else available(rng, mod, total)
        given = mod(total) if single else flows
        if name == 'Snowball':
            order = sorted(debts, key=lambda d: abs(d.balance))
        else:
            order = sorted(debts, key=lambda d: -d.rate)
        least = {d: float(sum(d.min_inflows(flows or None).values()))
                 for d in debts}
        most = {d: float(sum(d.max_inflows(flows or None).values()))
                for d in debts}
        left, want = total, {}
        for debt in order:
            want[debt] = min(least[debt], left)
            left -= want[debt]
        for debt in order:
            more = min(most[debt] - want[debt], left)
            want[debt] += more
            left -= more
        result = tool(rng.choice([list, set, tuple])(debts), given)
        got = {d: float(sum(t.values())) for d, t in result.items()}
        mon.event('payments')
        detail = dict(
            year=year, total=total, single=single,
            order=[debts.index(d) for d in order],
            least=[least[d] for d in debts], most=[most[d] for d in debts],
            got=[got.get(d, 0) for d in debts])
        close = name == 'Snowball' and any(
            abs(abs(a.balance) - abs(b.balance)) < 1e-9
            for a, b in zip(order, order[1:]))
        mon.check(set(got) <= set(debts), 'unknown-debt', **detail)
        mon.check(sum(got.values()) <= total + TOL * len(debts),
                  'more-than-available', **detail)
        for i, debt in enumerate(debts):
            if not close:
                mon.close(got.get(debt, 0), want[debt], 'payment', abs_=TOL,
                          rel=1e-7, debt=i, want=want[debt], **detail)
        for debt, txns in result.items():
            # Payments are made when money is available, or by default.
            timing = flows or debt.default_timing
            whole = sum(timing.values())
            mon.check(set(txns) <= set(timing), 'timings', txns=txns)
            for when, part in timing.items():
                mon.close(txns.get(when, 0), got[debt] * float(part / whole),
                          'spread', abs_=1e-3, rel=1e-6, txns=txns)
            for when, value in txns.items():
                debt.add_transaction(value, when)
            mon.check(debt.balance_at_time('end') <= TOL, 'overpaid',
                      debt=debts.index(debt), **detail)
        mon.interesting(len(debts) > 1 and 0 < sum(
            1 for x in want.values() if x > 0) < len(debts))
        if left > 1:
            mon.event('money-left')
        if single:
            mon.event('single-amount')
        if sum(least.values()) > total:
            mon.event('short-of-minimums')
        mon.obs(detail['got'])
        owner.next_year()
        for debt in debts:
            debt.next_year()
            if debt.balance > -1e-6:
                mon.event('repaid')
        if all(d.balance > -1e-6 for d in debts):
            break


WORKLOADS = [Workload('repay', repay, 1500, 40000)]
REQUIRED = {'payments': 2500, 'money-left': 100, 'single-amount': 500,
            'short-of-minimums': 200, 'repaid': 300}
