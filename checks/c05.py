""" C05: payments accepted by a debt. """

import math
from vmon import gen, ref
from vmon.core import Workload
from forecaster import Debt, Person, Timing

PROPERTY = 'C05'
RULE = (
    'Random debts (sign of the given balance, rate, frequency, minimum and '
    'accelerated payments, timing) are asked each year for their minimum '
    'and maximum payments, with payments already recorded or hypothesised, '
    'and are then paid by some of these amounts until repaid. Amounts are '
    'compared with an independent calculation and the debt is watched for '
    'overpayment. Non-trivial: at least one payment of a debt with a '
    'non-zero rate.')


class World:
    """ A debt and its plain description. """

    def __init__(self, rng, mod):
        self.rng, self.mod = rng, mod
        self.year = 2000
        self.nper = gen.nper(rng)
        self.rate = gen.rate(rng, 0, 0.6)
        given = gen.money(rng, -2e5, 2e5)
        self.balance = -abs(given)
        self.minimum = gen.money(rng, 0, 2e4) if rng.random() < 0.8 else 0
        self.accel = gen.money(rng, 0, 3e4) if rng.random() < 0.6 \
            else math.inf
        self.default = gen.timing(rng) if rng.random() < 0.4 else None
        kwargs = dict(mod.kw)
        if self.default is not None:
            kwargs['default_timing'] = Timing(
                gen.conv(mod, self.default), **mod.kw)
        if self.minimum or rng.random() < 0.5:
            kwargs['minimum_payment'] = mod(self.minimum)
        if self.accel != math.inf:
            kwargs['accelerated_payment'] = mod(self.accel)
        owner = None
        if rng.random() < 0.5:
            owner = Person(2000, 'A', 1970, retirement_date=2035, **mod.kw)
        else:
            kwargs['initial_year'] = 2000
        if rng.random() < 0.2:
            # (A rate known in advance, which is the one in force.)
            kwargs['inputs'] = {'rate': {2000: mod(self.rate)}}
        self.debt = Debt(owner, balance=mod(given), rate=mod(self.rate),
                         nper=self.nper, **kwargs)
        self.default = self.default or {0.5: 1}
        self.txns = {}

    def spec(self):
        return dict(
            balance=self.balance, rate=self.rate, nper=str(self.nper),
            minimum=self.minimum, accel=self.accel, txns=dict(self.txns),
            default=self.default, mode=self.mod.name, year=self.year)

    def tol(self):
        return 1e-9 * max(1e4, abs(self.balance)) * max(
            1, ref.accum(1, self.rate, self.nper))


def ask(world, mon, method, timing, hypo=None, t_limit=None, b_limit=None):
    """ Asks for payments and compares them with the model. """
    mod, kwargs = world.mod, {}
    if hypo is not None:
        kwargs['transactions'] = gen.conv(mod, hypo)
    if t_limit is not None:
        kwargs['transaction_limit'] = mod(t_limit)
    if b_limit is not None:
        kwargs['balance_limit'] = mod(b_limit)
    if timing is not None:
        kwargs['timing'] = gen.conv(mod, timing)
    got = getattr(world.debt, method)(**kwargs)
    got = {float(k): float(v) for k, v in got.items()}
    every = ref.add(world.txns, hypo or {})
    paid = ref.inflows(world.txns) + ref.inflows(hypo or {})
    limit = world.minimum
    if method == 'max_inflows':
        limit += world.accel
    high = max(limit - paid, 0)
    if t_limit is not None:
        high = min(high, t_limit)
    want = ref.to_balance(
        world.balance, world.rate, world.nper, every, b_limit or 0,
        timing or world.default, 0, high)
    info = dict(world.spec(), asked=timing, hypo=hypo, t_limit=t_limit,
                b_limit=b_limit, method=method)
    mon.check(set(got) == set(want), 'payment-timings', got=got, want=want,
              **info)
    for when in want:
        mon.close(got.get(when, math.nan), want[when], method,
                  abs_=world.tol(), got=got, want=want, **info)
    mon.event(method)
    return got


def life(rng, mon):
    """ Several years in the life of a debt. """
    mod = gen.mode(rng)
    world = World(rng, mod)
    debt = world.debt
    mon.close(debt.balance, world.balance, 'initial-sign', **world.spec())
    mon.note(**world.spec())
    paid_any = False
    for _ in range(rng.choice([1, 2, 3, 5, 8, 15])):
        if rng.random() < 0.15:
            world.minimum = gen.money(rng, 0, 2e4)
            debt.minimum_payment = mod(world.minimum)
        if rng.random() < 0.1:
            world.accel = gen.money(rng, 0, 3e4)
            debt.accelerated_payment = mod(world.accel)
        mon.close(debt.minimum_payment, world.minimum, 'minimum_payment')
        mon.close(debt.accelerated_payment, world.accel,
                  'accelerated_payment')
        for _ in range(rng.randint(0, 3)):
            timing = gen.timing(rng) if rng.random() < 0.6 else None
            hypo = gen.txns(rng, low=0, high=1e4) \
                if rng.random() < 0.3 else None
            ask(world, mon, rng.choice(['min_inflows', 'max_inflows']),
                timing, hypo,
                gen.money(rng, 0, 1e4) if rng.random() < 0.2 else None,
                -gen.money(rng, 0, 1e4) if rng.random() < 0.2 else None)
            if rng.random() < 0.3:
                when = gen.when(rng)
                there = ref.balance_at(
                    world.balance, world.rate, world.nper, world.txns, when)
                mon.close(
                    debt.max_inflow(mod(when)),
                    min(max(-there, 0), world.minimum + world.accel),
                    'max_inflow', abs_=world.tol(), when=when,
                    **world.spec())
                mon.close(debt.min_inflow_limit, world.minimum,
                          'min_inflow_limit')
                mon.close(debt.max_inflow_limit,
                          world.minimum + world.accel, 'max_inflow_limit')
            if rng.random() < 0.2:
                # Nothing may be borrowed.
                outs = debt.max_outflows(
                    **({} if timing is None
                       else {'timing': gen.conv(mod, timing)}))
                mon.check(all(v == 0 for v in outs.values()), 'borrowed',
                          outs=outs, **world.spec())
                mon.check(debt.max_outflow(mod(0.5)) == 0, 'borrowed-at')
                mon.event('no-borrowing')
        # Pay something:
        kind = rng.random()
        timing = gen.timing(rng) if rng.random() < 0.5 else None
        if kind < 0.35:
            payment = ask(world, mon, 'max_inflows', timing)
        elif kind < 0.7:
            payment = ask(world, mon, 'min_inflows', timing)
        elif kind < 0.85:
            # In two steps: the second is what the first left over.
            payment = {}
            most = ask(world, mon, 'max_inflows', timing)
            if all(math.isfinite(v) for v in most.values()):
                cut = rng.random()
                first = {k: v * cut for k, v in most.items()}
                for when, value in first.items():
                    debt.add_transaction(mod(value), mod(when))
                world.txns = ref.add(world.txns, first)
                payment = ask(world, mon, 'max_inflows', timing)
                mon.close(ref.total(first) + ref.total(payment),
                          ref.total(most), 'leftover',
                          abs_=100 * world.tol(), **world.spec())
                mon.event('two-steps')
        else:
            payment = {}
        payment = {k: v for k, v in payment.items() if math.isfinite(v)}
        for when, value in payment.items():
            debt.add_transaction(mod(value), mod(when))
            paid_any = paid_any or value > 0
        world.txns = ref.add(world.txns, payment)
        whole = ref.inflows(world.txns)
        mon.check(whole <= world.minimum + world.accel + world.tol(),
                  'paid-too-much', **world.spec())
        end = ref.year_end(world.balance, world.rate, world.nper, world.txns)
        mon.check(end <= 100 * world.tol(), 'overpaid', end=end,
                  **world.spec())
        mon.close(debt.balance_at_time('end'), end, 'year-end',
                  abs_=world.tol())
        debt.next_year()
        world.year += 1
        world.txns = {}
        mon.close(debt.balance, end, 'balance', abs_=10 * world.tol(),
                  **world.spec())
        mon.event('year')
        if abs(end) < 1e-6:
            mon.event('repaid')
            rest = debt.max_inflows()
            mon.check(abs(float(sum(rest.values()))) < 1e-4,
                      'repaid-but-accepts', rest=rest, end=end)
        world.balance = float(debt.balance)
        if world.balance > 0:
            break
        mon.obs(end)
    mon.interesting(paid_any and world.rate > 0)


def payoff(rng, mon):
    """ Constant payments repay a loan in the time they should. """
    mod = gen.mode(rng)
    rate, nper = gen.rate(rng, 0, 0.3), rng.choice(['A', 'M', 'C', 'W'])
    principal = gen.pos(rng, 2e5)
    payment = max(principal * rng.uniform(0.02, 0.8), 1)
    accel = rng.choice([0, 0, payment * rng.random(), math.inf])
    when = gen.when(rng, words=False)
    debt = Debt(None, balance=mod(-principal), rate=mod(rate), nper=nper,
                minimum_payment=mod(payment), accelerated_payment=mod(accel),
                initial_year=2000, **mod.kw)
    balance, growth = -principal, ref.accum(1, rate, nper)
    later = ref.accum(1 - when, rate, nper)
    for year in range(2000, 2060):
        due = debt.max_inflows({mod(when): mod(1)})
        least = debt.min_inflows({mod(when): mod(1)})
        owing = -balance * growth / later
        want = min(owing, payment + accel)
        tol = 1e-9 * principal * growth + 1e-6
        mon.close(sum(due.values()), want, 'most-due', abs_=tol,
                  rate=rate, nper=nper, principal=principal, when=when,
                  payment=payment, accel=accel, year=year)
        mon.close(sum(least.values()), min(owing, payment), 'least-due',
                  abs_=tol, rate=rate, nper=nper, principal=principal,
                  when=when, payment=payment, accel=accel, year=year)
        for key, val in due.items():
            debt.add_transaction(val, key)
        debt.next_year()
        balance = balance * growth + want * later
        mon.close(debt.balance, balance, 'payoff-balance', abs_=tol * 10)
        mon.event('payoff-year')
        if balance > -tol or balance < -20 * principal:
            break
        balance = float(debt.balance)
    mon.event('payoff-complete', int(balance > -1e-3))
    mon.interesting(rate > 0)
    mon.obs(principal, rate, payment, year)


WORKLOADS = [
    Workload('life', life, 15000, 300000),
    Workload('payoff', payoff, 6000, 100000),
]
REQUIRED = {'min_inflows': 1000, 'max_inflows': 1000, 'two-steps': 200,
            'repaid': 200, 'no-borrowing': 200, 'payoff-year': 1000,
            'payoff-complete': 200}
