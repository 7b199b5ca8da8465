""" C01: account balances and returns against a reference replay. """

from decimal import Decimal
from vmon import gen, ref
from vmon.core import Workload
from forecaster import Account, Debt, Person, Timing
from forecaster.canada.accounts import TFSA, PrincipleResidence

PROPERTY = 'C01'
RULE = (
    'Random accounts (class, nper, rate form, precision, owner, inputs) are '
    'driven through 1-6 years of random transaction edits, interleaved with '
    'a second account and with reads at random points; every number is '
    'compared with an independent replay. Non-trivial: at least two years '
    'and two transactions with a non-zero rate.')


class Model:
    """ One account and the reference model that shadows it. """

    def __init__(self, rng, mon, mod, owner, year):
        self.rng, self.mon, self.mod, self.year = rng, mon, mod, year
        self.start = year
        self.nper = gen.nper(rng)
        self.change_nper = rng.random() < 0.2
        kind = rng.random()
        self.rates = {
            y: gen.rate(rng) for y in range(year, year + 90)}
        if kind < 0.4:
            const = gen.rate(rng)
            self.rates = {y: const for y in self.rates}
            rate = mod(const)
        elif kind < 0.7:
            rate = {y: mod(r) for y, r in self.rates.items()}
        else:
            table = {y: mod(r) for y, r in self.rates.items()}
            rate = lambda y: table[y]   # noqa: E731
        self.cls = rng.choice([Account] * 5 + [Debt, PrincipleResidence])
        low, high = (-3e5, 0) if self.cls is Debt else (-2e4, 1e6)
        self.balance = gen.money(rng, low, high)
        self.low, self.high = (-2e4, 5e4)
        self.txns = {}
        self.edits = 0
        self.hist = {'balance': {}, 'rate': {}, 'returns': {},
                     'transactions': {}, 'taxable_income': {}}
        # Manual entries for later years override computed values.
        self.inputs = {}
        if rng.random() < 0.35:
            for prop in rng.sample(['balance', 'rate', 'returns'],
                                   rng.choice([1, 1, 2])):
                years = rng.sample(range(year + 1, year + 5), 2)
                self.inputs[prop] = {
                    y: (gen.rate(rng) if prop == 'rate'
                        else gen.money(rng, low, max(high, 0)))
                    for y in years}
        kwargs = dict(mod.kw)
        if self.inputs:
            kwargs['inputs'] = {
                prop: {y: mod(v) for y, v in vals.items()}
                for prop, vals in self.inputs.items()}
        if owner is None or rng.random() < 0.5:
            kwargs['initial_year'] = year
        nper = self.nper
        if self.cls is Debt:
            args = [owner]
        else:
            args = []
            kwargs['owner'] = owner
        if rng.random() < 0.3:
            kwargs['default_timing'] = Timing({mod(0.5): mod(1)})
        self.acct = self.cls(
            *args, balance=mod(self.balance), rate=rate, nper=nper, **kwargs)
        self.this_rate = None
        self._begin()

    def _begin(self):
        rates = self.inputs.get('rate', {})
        self.rate = rates.get(self.year, self.rates[self.year])

    # -- reading -------------------------------------------------------
    def want_returns(self):
        given = self.inputs.get('returns', {})
        if self.year in given:
            return given[self.year]
        return ref.returns(self.balance, self.rate, self.nper, self.txns)

    def scale(self):
        return max(1.0, abs(self.balance), *(
            [abs(v) for v in self.txns.values()] or [0]))

    def same(self, got, want, mech, **kw):
        scale = self.scale() * max(1.0, ref.accum(1, self.rate, self.nper))
        self.mon.close(
            got, want, mech, abs_=1e-9 * scale + 1e-7, rel=1e-9,
            year=self.year, cls=self.cls.__name__, nper=str(self.nper),
            rate=self.rate, balance=self.balance, txns=self.txns,
            inputs=self.inputs, mode=self.mod.name, **kw)

    def read(self):
        acct, rng, mon, mod = self.acct, self.rng, self.mon, self.mod
        what = rng.randrange(9)
        mon.event('read')
        if what == 0:
            self.same(acct.balance, self.balance, 'balance')
        elif what == 1:
            self.same(acct.returns, self.want_returns(), 'returns')
        elif what == 2:
            self.same(acct.rate, self.rate, 'rate')
        elif what == 3:
            self.compare_txns()
        elif what == 4:
            extra = None
            if rng.random() < 0.5:
                extra = gen.txns(rng)
            hypo = gen.conv(mod, extra) if extra is not None else None
            before = dict(hypo) if hypo is not None else None
            both = [self.txns] + ([extra] if extra else [])
            self.same(
                acct.inflows(hypo) if hypo is not None else acct.inflows(),
                sum(v for d in both for v in d.values() if v > 0), 'inflows',
                extra=extra)
            self.same(
                acct.outflows(hypo) if hypo is not None else acct.outflows(),
                sum(v for d in both for v in d.values() if v < 0),
                'outflows', extra=extra)
            mon.check(hypo == before, 'hypothetical-mutated')
        elif what in (5, 6):
            time = gen.when(rng)
            if rng.random() < 0.3 and self.txns:
                time = rng.choice(sorted(self.txns))
            arg = mod(time)
            extra = gen.txns(rng) if rng.random() < 0.5 else None
            hypo = gen.conv(mod, extra) if extra is not None else None
            before = dict(hypo) if hypo is not None else None
            every = ref.add(self.txns, extra or {})
            got = acct.balance_at_time(arg) if hypo is None else \
                acct.balance_at_time(arg, hypo)
            self.same(got, ref.balance_at(
                self.balance, self.rate, self.nper, every, time),
                'balance_at_time', time=time, extra=extra)
            mon.check(hypo == before, 'hypothetical-mutated')
            mon.event('balance_at_time')
        elif what == 7:
            if self.cls is Account:
                want = max(self.want_returns(), 0)
                self.same(acct.taxable_income, want, 'taxable_income')
        else:
            acct.balance_history  # noqa: B018 -- reads must not disturb
            acct.returns_history
            acct.transactions_history

    def compare_txns(self):
        acct, mon, mod = self.acct, self.mon, self.mod
        for name, view in (
                ('transactions', dict(acct.transactions)),
                ('items', dict(acct.items())),
                ('iter', {k: acct[k] for k in list(acct)})):
            got = {float(k): float(v) for k, v in view.items()}
            mon.check(got == self.txns, 'recorded:' + name, got=got,
                      want=self.txns)
        mon.check(len(acct) == len(self.txns), 'len')
        mon.check([float(k) for k in acct] == sorted(self.txns), 'order')
        for key in gen.WHENS:
            mon.check((mod(key) in acct) == (ref.when_num(key) in self.txns),
                      'contains', key=key)
            there = self.txns.get(ref.when_num(key))
            for more, none in (((), None), ((mod(7),), 7)):
                got = acct.get(mod(key), *more)
                want = none if there is None else there
                mon.check((got is None) == (want is None) and (
                    want is None or float(got) == float(want)), 'get',
                          key=key, observed=got, expected=want)
        mon.check([float(v) for v in acct.values()] == [
            float(v) for v in acct.transactions.values()], 'values')

    # -- writing -------------------------------------------------------
    def edit(self):
        acct, rng, mod = self.acct, self.rng, self.mod
        self.mon.event('edit')
        self.edits += 1
        when = gen.when(rng)
        value = gen.money(rng, self.low, self.high)
        if self.txns and rng.random() < 0.4:
            when = rng.choice(sorted(self.txns))
        key = ref.when_num(when)
        op = rng.random()
        if op < 0.6:
            if rng.random() < 0.1 and self.mod.hp is None:
                acct.add_transaction(value)     # default: end of year
                key = 1.0
            elif rng.random() < 0.5:
                acct.add_transaction(mod(value), mod(when))
            else:
                acct.add_transaction(value=mod(value), when=mod(when))
            if mod.hp is not None:
                old = self.txns.get(key, 0)
                self.txns[key] = float(
                    Decimal(repr(old)) + Decimal(repr(value)))
            else:
                self.txns[key] = self.txns.get(key, 0) + value
        elif op < 0.8:
            acct[mod(when)] = mod(value)
            self.txns[key] = value
        elif op < 0.9:
            if key in self.txns:
                del acct[mod(when)]
                del self.txns[key]
        elif op < 0.95:
            if rng.random() < 0.3:
                acct.clear()
                self.txns.clear()
        else:
            given = self.inputs.get('balance', {})
            new = -abs(value) if self.cls is Debt else abs(value)
            acct.balance = mod(new)
            if self.year not in given:
                self.balance = new

    # -- years ---------------------------------------------------------
    def end_year(self):
        hist = self.hist
        hist['balance'][self.year] = self.balance
        hist['rate'][self.year] = self.rate
        hist['returns'][self.year] = self.want_returns()
        hist['transactions'][self.year] = dict(self.txns)
        flows = ref.total(self.txns)
        close = ref.year_end(self.balance, self.rate, self.nper, self.txns)
        if self.rng.random() < 0.7:
            # The two ways of accounting for the year agree.
            if self.year not in self.inputs.get('returns', {}):
                self.same(
                    float(self.acct.balance) + flows +
                    float(self.acct.returns), close, 'returns-identity')
            self.same(self.acct.balance_at_time('end'), close, 'year-end')
        self.acct.next_year()
        self.year += 1
        self.mon.event('year')
        self.balance = self.inputs.get('balance', {}).get(self.year, close)
        if self.change_nper and self.rng.random() < 0.3:
            # Last year's growth is settled: a new frequency is for
            # this year and those after it.
            self.nper = gen.nper(self.rng)
            self.acct.nper = self.nper
            self.mon.event('new-nper')
        self.txns = {}
        self._begin()
        if self.rng.random() < 0.8:
            self.same(self.acct.balance, self.balance, 'balance-next-year')

    def finish(self):
        mon, acct = self.mon, self.acct
        mon.check(acct.this_year == self.year, 'this_year')
        mon.check(acct.initial_year == self.start, 'initial_year')
        for name in ('balance', 'rate', 'returns'):
            got = getattr(acct, name + '_history')
            for year, want in self.hist[name].items():
                mon.check(year in got, 'history-missing', name=name,
                          year=year)
                if year in got:
                    self.same(got[year], want, 'history:' + name, at=year)
        got = acct.transactions_history
        for year, want in self.hist['transactions'].items():
            view = {float(k): float(v) for k, v in got[year].items()}
            mon.check(view == want, 'history:transactions', year=year,
                      got=view, want=want)
        self.same(acct.balance, self.balance, 'balance-final')
        mon.obs(self.balance, sorted(self.hist['balance'].items()))


def drive(rng, mon):
    mod = gen.mode(rng)
    year = rng.choice([1999, 2000, 2010, 2020])
    owner = None
    if rng.random() < 0.3:
        owner = Person(year, 'Owner', 1970, retirement_date=2040, **mod.kw)
    models = [Model(rng, mon, mod, owner, year)]
    if rng.random() < 0.5:
        models.append(Model(rng, mon, mod, owner, year))
    years = rng.choice([1, 2, 2, 3, 4, 6])
    if rng.random() < 0.02:
        years = rng.choice([20, 45, 80])
        mon.event('decades')
    mon.note(mode=mod.name, years=years, nper=str(models[0].nper),
             cls=models[0].cls.__name__, inputs=models[0].inputs)
    for _ in range(years):
        for _ in range(rng.randint(0, 8)):
            model = rng.choice(models)
            if rng.random() < 0.5:
                model.edit()
            else:
                model.read()
        for model in models:
            if rng.random() < 0.4:
                model.compare_txns()
            model.end_year()
    for model in models:
        model.finish()
        mon.interesting(
            years > 1 and model.edits > 1 and
            any(model.hist['rate'].values()))


def split(rng, mon):
    """ Order and grouping of transactions make no difference. """
    mod = gen.mode(rng)
    year, nper, rate = 2000, gen.nper(rng), gen.rate(rng)
    balance = gen.money(rng, 0, 1e6)
    parts = []
    for _ in range(rng.randint(2, 6)):
        when, value = gen.when(rng, words=False), gen.money(rng, -1e4, 4e4)
        parts.append((when, value))
    accts = []
    for order in range(3):
        acct = Account(initial_year=year, balance=mod(balance),
                       rate=mod(rate), nper=nper, **mod.kw)
        mine = list(parts)
        if order:
            rng.shuffle(mine)
        for when, value in mine:
            if order == 2:
                cut = rng.random()
                acct.add_transaction(mod(value * cut), mod(when))
                acct.add_transaction(mod(value - value * cut), mod(when))
            else:
                acct.add_transaction(mod(value), mod(when))
        accts.append(acct)
    results = []
    for acct in accts:
        returns = acct.returns
        mid = acct.balance_at_time(mod(0.5))
        acct.next_year()
        results.append((returns, mid, acct.balance))
    scale = max(abs(balance), 1e5)
    for other in results[1:]:
        for a, b, name in zip(results[0], other,
                              ('returns', 'mid-year', 'balance')):
            mon.close(a, b, 'order-or-split:' + name, abs_=1e-9 * scale,
                      parts=parts, nper=str(nper), rate=rate)
    mon.event('split')
    mon.obs(balance, parts, rate)
    mon.note(parts=parts, rate=rate, nper=str(nper))
    mon.interesting(rate != 0)


def tfsa(rng, mon):
    """ Registered and linked accounts grow like any other. """
    mod = gen.mode(rng)
    year = rng.choice([2010, 2016])
    owner = Person(year, 'P', 1980, retirement_date=2045, **mod.kw)
    accts, models = [], []
    for _ in range(rng.randint(1, 3)):
        balance = gen.money(rng, 0, 1e5)
        rate, nper = gen.rate(rng, -0.2, 0.5), gen.nper(rng)
        accts.append(TFSA(
            owner, balance=mod(balance), rate=mod(rate), nper=nper,
            **mod.kw))
        models.append([balance, rate, nper])
    for _ in range(rng.randint(1, 4)):
        recorded = []
        for acct in accts:
            flows = gen.txns(rng, low=-2e3, high=3e3)
            for when, value in flows.items():
                acct.add_transaction(mod(value), mod(when))
            recorded.append(flows)
        accts[rng.randrange(len(accts))].next_year()
        for acct, model, flows in zip(accts, models, recorded):
            while acct.this_year < max(a.this_year for a in accts):
                acct.next_year()
            model[0] = ref.year_end(*model, flows)
            mon.close(acct.balance, model[0], 'linked-balance',
                      rel=1e-9, abs_=1e-6 * max(1, abs(model[0]) * 1e-3))
            mon.event('linked-year')
    mon.obs([m[0] for m in models])
    mon.interesting()


WORKLOADS = [
    Workload('drive', drive, 30000, 600000),
    Workload('split', split, 4000, 60000),
    Workload('linked', tfsa, 2000, 30000),
]
REQUIRED = {'edit': 2000, 'decades': 30, 'read': 2000, 'year': 2000,
            'balance_at_time': 300, 'split': 100, 'linked-year': 100}
