""" C04: the largest and smallest permitted flows of an account. """

import math
from vmon import gen, ref
from vmon.core import Workload
from forecaster import Account, Person, Timing
from forecaster.canada.accounts import RRSP, TFSA, TaxableAccount

PROPERTY = 'C04'
SCALE = 8
RULE = (
    'Random accounts (including ones whose class sets inflow and outflow '
    'limits) with recorded and hypothetical transactions are asked for '
    'their maximum and minimum flows at random timings and limits; results '
    'are compared with an independent calculation and are then actually '
    'recorded, to see that the promised year-end balance results and that '
    'nothing more was permitted. Non-trivial: a finite non-zero result '
    'with a non-zero rate.')


class Limited(Account):
    """ An account whose limits are set by its class, as documented. """
    limits = None

    def _limit(self, name, default):
        return self.precision_convert(self.limits.get(name, default))

    @property
    def max_inflow_limit(self):
        return self._limit('max_inflow', math.inf)

    @property
    def min_inflow_limit(self):
        return self._limit('min_inflow', 0)

    @property
    def max_outflow_limit(self):
        return self._limit('max_outflow', -math.inf)

    @property
    def min_outflow_limit(self):
        return self._limit('min_outflow', 0)


DEFAULTS = {'max_inflow': math.inf, 'min_inflow': 0,
            'max_outflow': -math.inf, 'min_outflow': 0}


def setup(rng, mod):
    """ An account and its plain description. """
    nper, rate = gen.nper(rng), gen.rate(rng, -0.4, 1.2)
    balance = gen.money(rng, -5e3, 2e5)
    default = gen.timing(rng) if rng.random() < 0.5 else None
    limits = {}
    if rng.random() < 0.6:
        for name in rng.sample(sorted(DEFAULTS), rng.randint(1, 4)):
            sign = -1 if 'outflow' in name else 1
            limits[name] = sign * gen.money(rng, 0, 4e4)
    kwargs = dict(mod.kw)
    if default is not None:
        kwargs['default_timing'] = gen.conv(mod, default)
        if len(default) == 1 and rng.random() < 0.5:
            # A time, rather than times and weights.
            kwargs['default_timing'] = mod(min(default))
        elif rng.random() < 0.5:
            kwargs['default_timing'] = Timing(
                kwargs['default_timing'], **mod.kw)
    acct = Limited(initial_year=2000, balance=mod(balance), rate=mod(rate),
                   nper=nper, **kwargs)
    if rng.random() < 0.1:
        # Changed later, or restored.
        default = rng.choice([None, 0, 1, 0.25])
        if default is None:
            del acct.default_timing
        else:
            acct.default_timing = mod(default)
            default = {default: 1}
    acct.limits = {k: mod(v) for k, v in limits.items()}
    own = gen.txns(rng, low=-2e4, high=2e4)
    for when, value in own.items():
        acct.add_transaction(mod(value), mod(when))
    spec = dict(nper=nper, rate=rate, balance=balance,
                default=default or {0.5: 1}, limits=limits, own=own)
    return acct, spec


def same(mon, got, want, mech, scale, **info):
    """ Compares two `{when: value}` dicts. """
    got = {float(k): float(v) for k, v in got.items()}
    mon.check(set(got) == set(want), mech + ':timings', got=got, want=want,
              **info)
    for when in want:
        if when in got:
            mon.close(got[when], want[when], mech + ':amount', rel=1e-9,
                      abs_=1e-9 * scale + 1e-7, when=when, got=got,
                      want=want, **info)


def ask_timing(rng, mod):
    """ A timing argument, and its plain form (None: default). """
    kind = rng.random()
    if kind < 0.2:
        return None, None
    if kind < 0.25:
        return {}, None
    timing = gen.timing(rng)
    if rng.random() < 0.1:
        # Zero total weight means uniform weights; zero weights drop out.
        for key in list(timing):
            if rng.random() < 0.6:
                timing[key] = 0
    asked = gen.conv(mod, timing)
    if rng.random() < 0.5:
        asked = Timing(asked, **mod.kw)
        if rng.random() < 0.1:
            # A schedule whose weights were since set to zero.
            for key in list(asked):
                asked[key] = mod(0)
            timing = {key: 0 for key in timing}
    return asked, timing


def flows(rng, mon):
    mod = gen.mode(rng)
    acct, spec = setup(rng, mod)
    limits = dict(DEFAULTS, **spec['limits'])
    for _ in range(rng.randint(1, 4)):
        asked, timing = ask_timing(rng, mod)
        used = timing if timing is not None else spec['default']
        if not used:
            continue
        hypo = gen.txns(rng, low=-1e4, high=1e4) \
            if rng.random() < 0.4 else None
        every = ref.add(spec['own'], hypo or {})
        t_limit = b_limit = None
        method = rng.choice(['max_inflow', 'min_inflow',
                             'max_outflow', 'min_outflow'])
        out = 'outflow' in method
        if rng.random() < 0.4:
            t_limit = gen.money(rng, 0, 4e4) * (-1 if out else 1)
        if rng.random() < 0.4:
            b_limit = gen.money(rng, 0, 1e5)
        kwargs = {}
        if hypo is not None:
            kwargs['transactions'] = gen.conv(mod, hypo)
        before = dict(kwargs.get('transactions') or {})
        if t_limit is not None:
            kwargs['transaction_limit'] = mod(t_limit)
        if b_limit is not None:
            kwargs['balance_limit'] = mod(b_limit)
        args = []
        if asked is not None or rng.random() < 0.5:
            if rng.random() < 0.5:
                args = [asked]
            else:
                kwargs['timing'] = asked
        asked_before = dict(asked) if asked is not None else None
        got = getattr(acct, method + 's')(*args, **kwargs)
        mon.event(method)
        info = dict(spec, method=method, asked=timing, hypo=hypo,
                    t_limit=t_limit, b_limit=b_limit, mode=mod.name)
        mon.check(asked is None or dict(asked) == asked_before,
                  'timing-mutated', **info)
        mon.check(dict(kwargs.get('transactions') or {}) == before,
                  'hypothetical-mutated', **info)
        limit = limits[method]
        if out:
            low = limit - ref.outflows(spec['own'])
            if hypo:
                low -= ref.outflows(hypo)
            if t_limit is not None:
                low = max(low, t_limit)
            low, high = min(low, 0), 0
            target = 0 if b_limit is None else b_limit
        else:
            high = limit - ref.inflows(spec['own'])
            if hypo:
                high -= ref.inflows(hypo)
            if t_limit is not None:
                high = min(high, t_limit)
            low, high = 0, max(high, 0)
            target = math.inf if b_limit is None else b_limit
        want = ref.to_balance(
            spec['balance'], spec['rate'], spec['nper'], every, target,
            used, low, high)
        scale = max(1e3, abs(spec['balance']), 1e5)
        same(mon, got, want, method, scale, **info)
        # The meaning of the result, observed by recording it:
        whole = ref.total(got)
        if not all(math.isfinite(float(v)) for v in got.values()):
            mon.event('infinite')
            continue
        mon.check(all((v <= 0) if out else (v >= 0) for v in got.values()),
                  'sign', got=got, **info)
        trial = Limited(
            initial_year=2000, balance=mod(spec['balance']),
            rate=mod(spec['rate']), nper=spec['nper'], **mod.kw)
        trial.limits = {}
        for dct in (gen.conv(mod, every), got):
            for when, value in dct.items():
                trial.add_transaction(value, when)
        end = float(trial.balance_at_time('end'))
        unforced = ref.year_end(
            spec['balance'], spec['rate'], spec['nper'], every)
        tol = 1e-8 * scale + 1e-6
        growth = max(ref.accum(1, spec['rate'], spec['nper']), 1)
        if math.isfinite(target) and whole:
            # Never past the balance limit ...
            past = (target - end) if out else (end - target)
            mon.check(past <= tol * growth, 'past-balance-limit', end=end,
                      target=target, **info)
            # ... and unless a limit on the amount binds, exactly there.
            bound = low if out else high
            if abs(whole - bound) > tol * growth:
                mon.check(abs(end - target) <= tol * growth,
                          'short-of-balance-limit', end=end,
                          target=target, **info)
                mon.event('balance-bound')
            else:
                mon.event('amount-bound')
        elif math.isfinite(target):
            # Nothing is allowed: either a limit is used up, or the
            # balance is already past the target.
            done = (unforced <= target + tol * growth) if out else (
                unforced >= target - tol * growth)
            mon.check(done or abs(low if out else high) <= tol,
                      'nothing-allowed', unforced=unforced, **info)
        mon.interesting(whole != 0 and spec['rate'] != 0)
        mon.obs(method, whole, end)
        mon.note(**info)


def at_moment(rng, mon):
    """ `max_outflow(when)` and friends, for one moment. """
    mod = gen.mode(rng)
    acct, spec = setup(rng, mod)
    limits = dict(DEFAULTS, **spec['limits'])
    for _ in range(rng.randint(1, 4)):
        when = gen.when(rng)
        method = rng.choice(sorted(DEFAULTS))
        call = getattr(acct, method)
        if rng.random() < 0.15:
            got, when = call(), 'end'
        else:
            got = call(mod(when))
        want = limits[method]
        if method == 'max_outflow':
            there = ref.balance_at(spec['balance'], spec['rate'],
                                   spec['nper'], spec['own'], when)
            want = max(min(-there, 0), want)
            if math.isfinite(float(got)) and got:
                # Withdrawing that leaves a non-negative balance then.
                acct2 = Account(
                    initial_year=2000, balance=mod(spec['balance']),
                    rate=mod(spec['rate']), nper=spec['nper'], **mod.kw)
                for k, v in spec['own'].items():
                    acct2.add_transaction(mod(v), mod(k))
                acct2.add_transaction(got, mod(when))
                mon.check(float(acct2.balance_at_time(mod(when))) >=
                          -1e-8 * max(1e4, abs(there)), 'overdrawn',
                          when=when, got=got, **spec)
                mon.interesting(spec['rate'] != 0)
        mon.close(got, want, 'moment:' + method, abs_=1e-5, when=when,
                  mode=mod.name, **spec)
        mon.event('moment')
        mon.obs(method, float(got))


def to_balance(rng, mon):
    """ `transactions_to_balance` brings the account to a balance. """
    mod = gen.mode(rng)
    acct, spec = setup(rng, mod)
    target = gen.money(rng, -1e4, 3e5)
    asked, timing = ask_timing(rng, mod)
    used = timing if timing is not None else spec['default']
    hypo = gen.txns(rng, low=-1e4, high=1e4) if rng.random() < 0.4 else None
    every = ref.add(spec['own'], hypo or {})
    low, high, kwargs = -math.inf, math.inf, {}
    if rng.random() < 0.3:
        low = gen.money(rng, -5e4, 5e4)
        kwargs['min_total'] = mod(low)
    if rng.random() < 0.3:
        high = max(gen.money(rng, -5e4, 5e4), low)
        kwargs['max_total'] = mod(high)
    if hypo is not None:
        kwargs['transactions'] = gen.conv(mod, hypo)
    got = acct.transactions_to_balance(mod(target), asked, **kwargs)
    want = ref.to_balance(spec['balance'], spec['rate'], spec['nper'], every,
                          target, used, low, high)
    info = dict(spec, target=target, asked=timing, hypo=hypo, low=low,
                high=high, mode=mod.name)
    same(mon, got, want, 'to-balance', 3e5, **info)
    mon.event('to-balance')
    if math.isinf(low) and math.isinf(high):
        if hypo:
            for when, value in hypo.items():
                acct.add_transaction(mod(value), mod(when))
        for when, value in got.items():
            acct.add_transaction(value, when)
        scale = 3e5 * max(1, ref.accum(1, spec['rate'], spec['nper']))
        mon.close(acct.balance_at_time('end'), target, 'balance-reached',
                  abs_=1e-9 * scale, **info)
        acct.next_year()
        mon.close(acct.balance, target, 'balance-reached-next-year',
                  abs_=1e-9 * scale, **info)
        mon.event('reached')
    mon.interesting(spec['rate'] != 0)
    mon.obs(target, sorted(want.items()))
    mon.note(**info)


def kinds(rng, mon):
    """ Every kind of account heeds what it was made with. """
    mod = gen.mode(rng)
    born, year = rng.randint(1955, 1985), rng.randint(2010, 2020)
    owner = Person(year, 'A', born, retirement_date=year + 3, **mod.kw)
    cls = rng.choice([Account, RRSP, TFSA, TaxableAccount])
    nper, rate = gen.nper(rng), gen.rate(rng, -0.3, 0.6)
    balance = gen.money(rng, 0, 2e5)
    kwargs = dict(mod.kw, nper=nper)
    if cls in (RRSP, TFSA):
        kwargs['inflation_adjust'] = lambda val, *_: val
        room = gen.money(rng, 0, 3e4)
        kwargs['contribution_room'] = mod(room)
    default = gen.timing(rng) if rng.random() < 0.7 else None
    if default is not None:
        kwargs['default_timing'] = gen.conv(mod, default)
        if rng.random() < 0.5:
            kwargs['default_timing'] = Timing(
                kwargs['default_timing'], **mod.kw)
    default = default or {0.5: 1}
    if rng.random() < 0.5:
        kwargs['initial_year'] = year
    acct = cls(owner, mod(balance), mod(rate), **kwargs)
    info = dict(cls=cls.__name__, nper=nper, rate=rate, balance=balance,
                default=default, mode=mod.name, year=year)
    mon.note(**info)
    mon.check(acct.owner is owner and acct.initial_year == year, 'owner')
    for age in range(rng.choice([1, 2, 3])):
        if age:
            balance = float(acct.balance)
        target = rng.choice([None, gen.money(rng, 0, 1e5)])
        more = {} if target is None else {'balance_limit': mod(target)}
        got = acct.max_outflows(**more)
        want = ref.to_balance(balance, rate, nper, {}, target or 0, default,
                              -math.inf, 0)
        same(mon, got, want, 'kind-outflow', 2e5, target=target, **info)
        most = math.inf if cls in (Account, TaxableAccount) else float(
            acct.contribution_room)
        if not age and most < math.inf:
            mon.close(most, room, 'kind-room', abs_=1e-6, **info)
        most = min(most, 5e5)
        got = acct.max_inflows(transaction_limit=mod(5e5))
        total = sum(v for v in default.values())
        want = {t: most * v / total for t, v in default.items() if v}
        if most > 0:
            same(mon, got, want, 'kind-inflow', 5e5, **info)
        mon.event(cls.__name__)
        mon.obs(cls.__name__, sorted(default), target)
        mon.interesting(rate != 0 and len(default) > 1)
        owner.next_year()
        acct.next_year()


WORKLOADS = [
    Workload('kinds', kinds, 2000, 40000),
    Workload('flows', flows, 20000, 500000),
    Workload('moment', at_moment, 8000, 150000),
    Workload('to-balance', to_balance, 10000, 200000),
]
REQUIRED = {'max_inflow': 500, 'min_inflow': 500, 'max_outflow': 500,
            'min_outflow': 500, 'moment': 500, 'to-balance': 500,
            'balance-bound': 100, 'amount-bound': 100, 'infinite': 50,
            'reached': 100, 'Account': 300, 'RRSP': 300, 'TFSA': 300,
            'TaxableAccount': 300}
