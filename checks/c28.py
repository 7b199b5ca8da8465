""" C28: what is refused, or fails, leaves no trace and may be retried. """

from decimal import Decimal, InvalidOperation
from vmon import gen, world
from vmon.core import Workload, close
from vmon.eco import Economy
from vmon import taxes
from checks.c03 import photograph
from checks.c19 import distinct, picture, near
from forecaster import (
    Account, Debt, Person, Scenario, Tax, Timing, LivingExpensesStrategy,
    TransactionStrategy)
from forecaster.strategy import AllocationStrategy
from forecaster.accounts import LinkedLimitAccount
from forecaster.canada.accounts import (
    RRSP, TFSA, TaxableAccount, PrincipleResidence)
from forecaster.utility import when_conv, frequency_conv

PROPERTY = 'C28'
RULE = (
    'Households in any state are sent requests that must be refused (times '
    'outside the year, unknown frequencies, owners and spouses that are '
    'nobody, dates before birth, conversions too late, amounts that are no '
    'numbers, objects built from one bad argument); everything that can be '
    'seen of everyone is photographed before and after, and the household '
    'is then compared, a year on, with a twin that was never asked. '
    'Separately, faults are injected at a random call of the rates, raises, '
    'tax treatments, inflation adjustments and strategies that years, '
    'sub-forecasts, assessments and whole forecasts depend on, and what is '
    'asked again is compared with a twin in which nothing failed. '
    'Non-trivial: at least one refusal or injected fault.')

NOT_TIMES = [2, -1, 1.0001, -0.0001, 7, 1e9, 'later', None]
NOT_FREQUENCIES = [0, -1, -12, 1.5, 'XX', 'monthly-ish', '']
BAD = (ValueError, TypeError, InvalidOperation)


class Fault(Exception):
    """ What an injected failure raises. """


class Fuse:
    """ Counts calls of the things it is in, and fails at some of them. """

    def __init__(self, *at):
        self.at = set(at)
        self.calls = 0
        self.blown = 0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def call(self):
        self.calls += 1
        if self.calls in self.at:
            self.blown += 1
            raise Fault('injected at call %d' % self.calls)


class Flaky:
    """ A callable that may fail, and is otherwise the one it wraps. """

    def __init__(self, func, fuse):
        self.func, self.fuse = func, fuse

    def __call__(self, *args, **kwargs):
        self.fuse.call()
        return self.func(*args, **kwargs)

    def __getattr__(self, name):
        if name.startswith('__') or name in ('func', 'fuse'):
            raise AttributeError(name)
        return getattr(self.func, name)


# -- what can be seen --------------------------------------------------
def sight(made):
    """ Everything that can be seen of a household. """
    out = {}
    named = [('person-%d' % p.verif_tag, p) for p in made.people]
    named += [('account-%d' % a.verif_tag, a) for a in made.accounts]
    named += [('debt-%d' % d.verif_tag, d) for d in made.debts]
    for name, item in named:
        out.update(photograph([(name, item)]))
        out[name, 'year'] = item.this_year, item.initial_year
        if isinstance(item, Person):
            out[name, 'facts'] = (
                item.name, item.birth_date, item.retirement_date,
                item.spouse, frozenset(item.accounts), item.tax_treatment,
                item.raise_rate_callable, tuple(item.payment_timing.items()))
            out[name, 'links'] = {
                token: (record.data, frozenset(record.group))
                for token, record in item.data.items()}
        else:
            out[name, 'facts'] = (
                item.owner, item.nper, tuple(item.transactions.items()),
                tuple(item.items()), len(item), item.rate_callable,
                tuple(item.default_timing.items()))
            out[name, 'limits'] = tuple(
                getattr(item, kind + '_limit') for kind in (
                    'max_inflow', 'min_inflow', 'max_outflow',
                    'min_outflow'))
            if isinstance(item, RRSP):
                out[name, 'rrif'] = item.rrif_conversion_year
            if isinstance(item, Debt):
                out[name, 'payments'] = (
                    item.minimum_payment, item.accelerated_payment)
    return out


def shots(made):
    return photograph(
        [('person-%d' % p.verif_tag, p) for p in made.people]
        + [('account-%d' % a.verif_tag, a) for a in made.accounts]
        + [('debt-%d' % d.verif_tag, d) for d in made.debts])


def same(one, two):
    """ Plain values are the same up to rounding. """
    if one == two:
        return True
    if isinstance(one, (tuple, list)) and isinstance(two, (tuple, list)):
        return len(one) == len(two) and all(
            same(a, b) for a, b in zip(one, two))
    if isinstance(one, dict) and isinstance(two, dict):
        return set(one) == set(two) and all(same(one[k], two[k]) for k in one)
    numeric = (int, float, Decimal)
    if isinstance(one, numeric) and isinstance(two, numeric):
        return close(one, two, 1e-9, 1e-6)
    return False


def compare(mon, got, want, mechanism, **detail):
    bad = [(k, got.get(k, 'missing'), want.get(k, 'missing'))
           for k in dict.fromkeys(list(got) + list(want))
           if not same(got.get(k, 'missing'), want.get(k, 'missing'))]
    mon.oracle += len(want)
    mon.check(not bad, mechanism, first=bad[:3], count=len(bad), **detail)


# -- the household's own doings ----------------------------------------
def act(script, made):
    """ Records the scripted transactions. """
    for tag, when, value in script:
        acct = (made.accounts + made.debts)[tag]
        acct.add_transaction(made.mod(value), made.mod(when))


def a_script(rng, made):
    out = []
    for tag, acct in enumerate(made.accounts + made.debts):
        for _ in range(rng.choice([0, 0, 1, 2])):
            value = gen.money(rng, 0, 2e4)
            if not isinstance(acct, Debt) and rng.random() < 0.3:
                value = -round(float(acct.balance) * rng.uniform(0, 0.2), 2)
            out.append((tag, gen.when(rng, words=False), value))
    return out


def advance(made, order):
    for item in made.people + [
            (made.accounts + made.debts)[i] for i in order]:
        goal = made.year + 1
        while item.this_year < goal:
            item.next_year()
    made.year += 1


def household(rng, **kwargs):
    spec = world.make_spec(rng, **kwargs)
    for acct in spec['accounts']:
        # Withdrawals from worthless taxable accounts are another matter.
        acct['balance'] = max(acct['balance'], 1000)
    return spec


def twins(rng, mon, count=2, **kwargs):
    spec = household(rng, **kwargs)
    mon.note(spec=spec)
    made = [world.build(spec) for _ in range(count)]
    for one in made:
        one.year = spec['year']
    return spec, made


# -- refusals ----------------------------------------------------------
def requests(rng, made):
    """ Requests that must be refused: (name, errors, what is done). """
    mod = made.mod
    accounts = made.accounts + made.debts
    acct, person = rng.choice(accounts), rng.choice(made.people)
    when = rng.choice(NOT_TIMES)
    if isinstance(when, (int, float)) and rng.random() < 0.5:
        when = mod(when)
    some = mod(gen.money(rng, 1, 1e4))
    nobody = rng.choice(['someone', made.scenario, {}, made.forecaster])
    past = rng.choice([
        person.birth_date.year - rng.randint(1, 60),
        '%d-01-01' % (person.birth_date.year - 1)])
    time = mod(gen.when(rng, words=False))
    used = list(acct.keys())
    if used and rng.random() < 0.7:
        time = rng.choice(used)
    out = [
        ('add-when', BAD, lambda: acct.add_transaction(some, when)),
        ('set-when', BAD, lambda: acct.__setitem__(when, some)),
        ('del-when', BAD, lambda: acct.__delitem__(when)),
        ('get-when', BAD, lambda: acct[when]),
        ('add-value', BAD, lambda: acct.add_transaction(
            rng.choice([None, 'much', [], {}]), time)),
        ('set-value', BAD, lambda: acct.__setitem__(
            time, rng.choice([None, 'much', [], {}]))),
        ('balance-when', BAD, lambda: acct.balance_at_time(when)),
        ('nper', BAD, lambda: setattr(
            acct, 'nper', rng.choice(NOT_FREQUENCIES))),
        ('owner', TypeError, lambda: setattr(acct, 'owner', nobody)),
        ('spouse', TypeError, lambda: setattr(person, 'spouse', nobody)),
        ('tax-treatment', TypeError, lambda: setattr(
            person, 'tax_treatment', rng.choice(['low', 5, [0.3]]))),
        ('retire-early', ValueError, lambda: setattr(
            person, 'retirement_date', past)),
        ('retire-never', NotImplementedError, lambda: setattr(
            person, rng.choice(['retirement_date', 'retirement_age']),
            None)),
        ('retire-when', BAD, lambda: setattr(
            person, 'retirement_date', 'some day')),
        ('retire-age', BAD, lambda: setattr(
            person, 'retirement_age', rng.choice([-3, 'old', []]))),
        ('born', BAD, lambda: setattr(
            person, 'birth_date', rng.choice(['long ago', [], None]))),
    ]
    if when is not None:
        out.append((
            'timing', BAD, lambda: setattr(acct, 'default_timing', when)))
    gone = [t for t in (0.123, 0.321, 0.77) if mod(t) not in acct]
    if gone:
        out.append(('del-none', KeyError,
                    lambda: acct.__delitem__(mod(gone[0]))))
    if isinstance(acct, RRSP):
        last = acct.initial_year + 71 - acct.owner.age(acct.initial_year)
        out += [
            ('rrif', ValueError, lambda: setattr(
                acct, 'rrif_conversion_year', last + rng.randint(1, 40))),
            ('rrif-when', ValueError, lambda: setattr(
                acct, 'rrif_conversion_year', 'later')),
            ('rrif-convert', ValueError, lambda: acct.convert_to_rrif(
                last + rng.randint(1, 40)))]
    if not isinstance(acct, (RRSP, TFSA)):
        out.append(('limit', AttributeError, lambda: setattr(
            acct, 'max_inflow_limit', some)))
    return out


def buildings(rng, made):
    """ Objects that must not come about. """
    mod, person = made.mod, rng.choice(made.people)
    cls = rng.choice([Account, Debt, RRSP, TFSA, TaxableAccount,
                      PrincipleResidence])
    year = person.this_year
    good = dict(mod.kw, balance=mod(1000), rate=mod(0.05), initial_year=year)

    def account(kind=cls, **bad):
        return lambda: kind(owner=person, **dict(good, **bad))

    def someone(**bad):
        return lambda: Person(year, 'New', 1970, **dict(dict(
            mod.kw, retirement_date=2050, gross_income=mod(5e4),
            spouse=person), **bad))
    last = year + 71 - person.age(year)
    when = rng.choice([t for t in NOT_TIMES if t is not None])
    out = [
        ('account-nper', BAD, account(nper=rng.choice(NOT_FREQUENCIES))),
        ('account-timing', BAD, account(default_timing=when)),
        ('account-year', BAD, account(initial_year='soon')),
        ('account-extra', TypeError, account(flavour=3)),
        ('account-owner', BAD + (AttributeError,), lambda: Account(
            owner='someone', initial_year=year, **mod.kw)),
        ('account-no-year', TypeError, lambda: Account(
            owner=None, **mod.kw)),
        ('account-inputs', TypeError, account(inputs=5)),
        ('rrsp-late', ValueError, account(
            RRSP, rrif_conversion_year=last + rng.randint(1, 30),
            **({'contribution_room': mod(777)} if rng.random() < 0.5
               else {}))),
        ('link-malformed', TypeError, account(
            LinkedLimitAccount, **{rng.choice([
                'max_inflow_link', 'min_inflow_link', 'max_outflow_link',
                'min_outflow_link']): rng.choice([5, 1.5, {'a': 1}])})),
        ('room-twice', ValueError, account(
            rng.choice([RRSP, TFSA]), contribution_room=mod(5),
            max_inflow_limit=mod(6))),
        ('person-treatment', TypeError, someone(tax_treatment=5)),
        ('person-early', ValueError, someone(retirement_date=1950)),
        ('person-never', NotImplementedError, someone(
            retirement_date=None)),
        ('person-timing', BAD, someone(payment_timing=when)),
        ('person-raise-fault', Fault, someone(
            tax_treatment=Flaky(made.tax, Fuse(1)))),
        ('person-spouse', TypeError, someone(spouse='someone')),
        ('person-year', BAD, lambda: Person(
            'now', 'New', 1970, retirement_date=2050, spouse=person)),
        ('person-born', BAD, lambda: Person(
            year, 'New', 'long ago', retirement_date=2050, spouse=person)),
        ('scenario-years', ValueError, lambda: Scenario(
            year, rng.choice([0, -3]), 0, 0, 0, 0, 0)),
        ('scenario-none', ValueError, lambda: Scenario(
            year, 5, None, 0, 0, 0, 0)),
        ('strategy', ValueError, lambda: TransactionStrategy(
            'Nothing', weights={'Account': 1})),
        ('living', ValueError, lambda: LivingExpensesStrategy('Nothing')),
        ('living-kind', TypeError, lambda: LivingExpensesStrategy(5)),
        ('allocation', ValueError, lambda: AllocationStrategy(
            'n-age', target=100, min_equity=mod(0.6), max_equity=mod(0.5),
            **mod.kw)),
        ('timing-when', BAD, lambda: Timing(when, **mod.kw)),
        ('when', BAD, lambda: when_conv(when, **mod.kw)),
        ('frequency', BAD, lambda: frequency_conv(
            rng.choice(NOT_FREQUENCIES))),
    ]
    return out


def refused(mon, name, errors, do):
    """ The request is refused as it should be. """
    try:
        do()
    except errors as err:
        mon.event('refused')
        mon.event('refused:' + name)
        mon.obs(name, type(err).__name__)
        return mon.check(True, 'refused')
    except Exception as err:    # noqa: BLE001 -- reported
        mon.violate('wrong-error:' + name, error=repr(err))
    else:
        mon.violate('not-refused:' + name)
    return False


def half_built(bad, kind):
    """ All that changed is that the refused account is among the others.

    (What people earn is then in doubt, as it isn't fit to be asked.)
    """
    for key, old, new in bad:
        if key[1] == 'facts' and key[0].startswith('person'):
            more = new[4] - old[4]
            if (old[:4] + old[5:] != new[:4] + new[5:] or old[4] - new[4]
                    or [type(x) for x in more] != [kind]):
                return False
        elif key[1] not in ('links', 'limits', 'contribution_room_history',
                            'taxable_income_history'):
            return False
    return bool(bad)


def refuse(rng, mon):
    spec, (made, twin) = twins(rng, mon, years=rng.choice([2, 3]))
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        script = a_script(rng, made)
        order = list(range(len(made.accounts + made.debts)))
        rng.shuffle(order)
        for one in (made, twin):
            act(script, one)
            advance(one, order)
    script = a_script(rng, made)
    act(script, made)
    act(script, twin)
    done = []
    before = sight(made)
    for _ in range(rng.choice([1, 2, 4])):
        catalogue = requests if rng.random() < 0.65 else buildings
        name, errors, do = rng.choice(catalogue(rng, made))
        done.append(name)
        refused(mon, name, errors, do)
        after = sight(made)
        bad = [(k, before.get(k, 'missing'), after.get(k, 'missing'))
               for k in dict.fromkeys(list(before) + list(after))
               if before.get(k, 'missing') != after.get(k, 'missing')]
        mon.oracle += len(before)
        mechanism = 'trace:' + name
        if name == 'rrsp-late' and half_built(bad, RRSP):
            mechanism = 'half-built-rrsp'
        if name == 'link-malformed' and half_built(bad, LinkedLimitAccount):
            mechanism = 'half-built-linked'
        if not mon.check(not bad, mechanism, first=bad[:3]):
            return
    order = list(range(len(made.accounts + made.debts)))
    rng.shuffle(order)
    more = a_script(rng, made)
    for one in (made, twin):
        act(more, one)
        advance(one, order)
    compare(mon, shots(made), shots(twin), 'twin-after-refusal', done=done)
    mon.interesting()


# -- faults ------------------------------------------------------------
def wire(made, fuse, parts):
    """ Puts the fuse where years may fail. """
    groups = {}
    for acct in made.accounts:
        if isinstance(acct, (RRSP, TFSA)):
            key = acct.contributor, type(acct)
            groups.setdefault(key, []).append(acct)
    shared = {a for group in groups.values() if len(group) > 1
              for a in group}
    for acct in made.accounts + made.debts:
        if acct in shared:
            continue
        if 'rates' in parts:
            acct.rate_callable = Flaky(acct.rate_callable, fuse)
        if 'inflation' in parts and isinstance(acct, (RRSP, TFSA)):
            acct.inflation_adjust = Flaky(acct.inflation_adjust, fuse)
    for person in made.people:
        if 'raises' in parts:
            person.raise_rate_callable = Flaky(
                person.raise_rate_callable, fuse)
        if 'tax' in parts and person.tax_treatment is not None:
            person.tax_treatment = Flaky(person.tax_treatment, fuse)


def refusing(acct, fuse):
    """ Makes an account that may fail to take a transaction. """
    kind = type(acct)

    class Refusing(kind):
        """ The same account, but for its moods. """

        def __setitem__(self, key, value):
            fuse.call()
            super().__setitem__(key, value)
    Refusing.__name__ = kind.__name__
    Refusing.__qualname__ = kind.__qualname__
    acct.__class__ = Refusing


def years(rng, mon):
    """ Years that fail to begin, and are tried again. """
    spec, (made, twin) = twins(rng, mon, years=5)
    parts = [p for p in ('rates', 'inflation', 'raises', 'tax')
             if rng.random() < 0.8] or ['rates']
    fuse, sound = Fuse(), Fuse()
    wire(made, fuse, parts)
    wire(twin, sound, parts)
    log = []
    for _ in range(rng.choice([1, 2, 3])):
        script = a_script(rng, twin)
        act(script, made)
        act(script, twin)
        order = list(range(len(made.accounts + made.debts)))
        rng.shuffle(order)
        everyone = list(range(len(made.people)))
        rng.shuffle(everyone)
        pairs = [(made.people[i], twin.people[i]) for i in everyone]
        pairs += [((made.accounts + made.debts)[i],
                   (twin.accounts + twin.debts)[i]) for i in order]
        for item, other in pairs:
            goal = item.this_year + 1
            if goal > made.year + 1:
                continue
            if rng.random() < 0.6:
                fuse.at = {fuse.calls + rng.choice([1, 1, 2, 3])}
            blown = fuse.blown
            try:
                item.next_year()
            except Fault:
                log.append((item.this_year, type(item).__name__))
                mon.event('year-failed')
            if fuse.blown > blown:
                if not mon.check(item.this_year == goal - 1, 'half-advanced',
                                 cls=type(item).__name__, log=log):
                    return
                if isinstance(item, Account) and rng.random() < 0.5:
                    # The year goes on after all.
                    value = made.mod(gen.money(rng, 0, 5e3))
                    when = made.mod(gen.when(rng, words=False))
                    item.add_transaction(value, when)
                    other.add_transaction(value, when)
                    mon.event('went-on')
                fuse.at = set()
                item.next_year()
                mon.event('year-retried')
            fuse.at = set()
            mon.check(item.this_year == goal, 'this-year')
            while other.this_year < goal:
                other.next_year()
        made.year += 1
        twin.year += 1
    mon.note(log=log, parts=parts)
    compare(mon, shots(made), shots(twin), 'twin-after-fault', log=log)
    mon.obs(log)
    mon.interesting(fuse.blown > 0)


def reads(rng, mon):
    """ Figures that fail to be found, and are asked for again. """
    spec, (made, twin) = twins(rng, mon, years=4)
    fuse = Fuse()
    wire(made, fuse, ('rates', 'inflation', 'raises', 'tax'))
    script = a_script(rng, twin)
    act(script, made)
    act(script, twin)
    if rng.random() < 0.5:
        order = list(range(len(made.accounts + made.debts)))
        advance(made, order)
        advance(twin, order)
        script = a_script(rng, twin)
        act(script, made)
        act(script, twin)
    things = made.people + made.accounts + made.debts
    others = twin.people + twin.accounts + twin.debts
    log = []
    for _ in range(6):
        i = rng.randrange(len(things))
        if isinstance(things[i], Person):
            name = rng.choice(['gross_income', 'net_income', 'tax_withheld',
                               'taxable_income', 'gross_income_history'])
            ask = lambda x: getattr(x, name)    # noqa: E731
        else:
            name = rng.choice([
                'balance', 'returns', 'rate', 'returns_history',
                'taxable_income', 'tax_withheld', 'max_inflows',
                'max_outflows', 'min_outflows', 'min_inflows',
                'balance_at_time', 'time_to_balance'])
            when = made.mod(gen.when(rng, words=False))
            goal = made.mod(gen.money(rng, 0, 1e5))
            ask = {
                'balance_at_time': lambda x: x.balance_at_time(when),
                'time_to_balance': lambda x: x.time_to_balance(goal),
                'max_inflows': lambda x: x.max_inflows(when),
                'max_outflows': lambda x: x.max_outflows(when),
                'min_inflows': lambda x: x.min_inflows(when),
                'min_outflows': lambda x: x.min_outflows(when),
            }.get(name, lambda x: getattr(x, name))
        if rng.random() < 0.5 and not isinstance(things[i], Person):
            # (A new rate for the rest of the year.)
            del things[i].rate, others[i].rate
        fuse.at = {fuse.calls + rng.choice([1, 1, 2])}
        blown = fuse.blown
        try:
            ask(things[i])
        except Fault:
            mon.event('read-failed')
            log.append(name)
        fuse.at = set()
        mon.check(same(_plain(ask(things[i])), _plain(ask(others[i]))),
                  'read-after-fault', name=name, failed=fuse.blown - blown)
    compare(mon, shots(made), shots(twin), 'reads-twin', log=log)
    mon.obs(log)
    mon.interesting(fuse.blown > 0)


def _plain(val):
    if isinstance(val, dict):
        return {float(k): float(v) for k, v in val.items()}
    return val


def assess(rng, mon):
    """ Taxes that fail to be assessed, and are assessed again. """
    mod = gen.mode(rng)
    eco = Economy(rng, mod, allow_none=False)
    year = rng.randint(2000, 2025)
    tables = taxes.random_tables(rng, year)
    kwargs = taxes.conv_tables(mod, tables)
    fuse = Fuse()
    arg = eco.arg()
    if isinstance(arg, dict):
        table = dict(arg)
        first = min(table)

        def arg(target_year, base_year=None):
            base = first if base_year is None else base_year
            return table[target_year] / table[base]
    tax = Tax(inflation_adjust=Flaky(arg, fuse), **kwargs, **mod.kw)
    other = Tax(inflation_adjust=arg, **kwargs, **mod.kw)
    failed = 0
    for _ in range(rng.choice([3, 6])):
        when = year + rng.randint(-5, 12)
        amount = mod(gen.money(rng, 0, 2e5))
        kind = rng.choice(['tax', 'marginal_rate', 'marginal_bracket',
                           'tax_brackets', 'personal_deduction', 'accum'])

        def ask(one):
            if kind == 'tax':
                return one(amount, when)
            got = getattr(one, kind)
            got = got(amount, when) if kind.startswith('marg') else got(when)
            return _plain(got) if isinstance(got, dict) else got
        fuse.at = {fuse.calls + rng.choice([1, 1, 2, 3, 5])}
        try:
            ask(tax)
        except Fault:
            failed += 1
            mon.event('assessment-failed')
        fuse.at = set()
        mon.check(same(ask(tax), ask(other)), 'assessed-after-fault',
                  kind=kind, year=when, amount=amount, tables=tables)
        mon.obs(kind, when, failed)
    mon.interesting(failed > 0)


def calls(rng, mon):
    """ Sub-forecasts that fail, and are called again. """
    spec, (made,) = twins(rng, mon, count=1, years=4, hp=True)
    mod = made.mod
    fuse = Fuse()
    parts = [p for p in ('rates', 'inflation', 'tax', 'strategies',
                         'accounts')
             if rng.random() < 0.6] or ['strategies']
    wire(made, fuse, parts)
    if 'accounts' in parts:
        for acct in made.accounts + made.debts:
            refusing(acct, fuse)
    subs = world.subforecasts(made)
    if 'strategies' in parts:
        for name in ('saving', 'withdrawal'):
            sub = subs[name + '_forecast']
            sub.transaction_strategy = Flaky(sub.transaction_strategy, fuse)
        sub = subs['living_expenses_forecast']
        sub.living_expenses_strategy = Flaky(
            sub.living_expenses_strategy, fuse)
        subs['tax_forecast'].tax_treatment = Flaky(made.tax, fuse)
    name = rng.choice(['income', 'living_expenses', 'saving', 'saving',
                       'withdrawal', 'withdrawal', 'tax']) + '_forecast'
    sub = subs[name]
    act(a_script(rng, made), made)
    flows = {gen.when(rng, words=False): gen.money(rng, 0, 6e4)
             for _ in range(rng.choice([1, 2, 4]))}
    if name == 'withdrawal_forecast':
        flows[1] = -abs(sum(flows.values())) * rng.uniform(0.1, 2)
    mon.note(name=name, flows=flows, parts=parts)
    accounts = made.accounts + made.debts

    def moves(cash):
        out = {('cash', t): v for t, v in cash.items() if abs(v) > 1e-9}
        for i, acct in enumerate(accounts):
            out.update({(i, t): v for t, v in acct.items() if abs(v) > 1e-9})
        return out

    def cash():
        return {mod(t): mod(round(v, 2)) for t, v in flows.items()}
    plain = moves(cash())
    opening = [acct.balance for acct in accounts]
    one = cash()
    fuse.calls = 0
    sub(one)
    count, want = fuse.calls, moves(one)
    sub.undo_transactions()
    mon.check(near_moves(moves(one), plain), 'undone', name=name)
    two = cash()
    # (What was found out the first time is not asked about again.)
    for acct, balance in zip(accounts, opening):
        acct.clear_cache()
        acct.balance = balance
    fuse.calls = 0
    fuse.at = {rng.randint(1, count)} if count else set()
    blown = fuse.blown
    try:
        sub(two)
    except Fault:
        mon.event('call-failed')
        mon.event('call-failed:' + name)
        fuse.at = set()
        sub(two)
    fuse.at = set()
    got = moves(two)
    mon.check(near_moves(got, want), 'call-after-fault', name=name,
              got=sorted(got.items(), key=repr),
              want=sorted(want.items(), key=repr))
    mon.obs(name, sorted(two.items()))
    mon.interesting(fuse.blown > blown)


def near_moves(one, two):
    """ The same amounts at the same times, nearly. """
    return all(abs(one.get(k, 0) - two.get(k, 0)) < Decimal('0.01')
               for k in set(one) | set(two))


def forecasts(rng, mon):
    """ Forecasts that fail, and are run again. """
    spec = distinct(household(rng, years=rng.choice([1, 2, 3])))
    for person in spec['people']:
        person['timing'] = {0: 1}
    spec['payment_timing'] = spec['refund_timing'] = 0
    spec['retired_living'] = spec.get('retired_living')
    if spec['retired_living'] is None:
        del spec['retired_living']
    mon.note(spec=spec)
    made = world.build(spec)
    fuse = Fuse()
    wire(made, fuse, ('rates', 'inflation', 'raises', 'tax'))
    forecaster = made.forecaster
    for name in ('living_expenses_strategy', 'saving_strategy',
                 'withdrawal_strategy', 'tax_treatment'):
        setattr(forecaster, name, Flaky(getattr(forecaster, name), fuse))
    before = sight(made)
    want = picture(world.run(made))
    total = fuse.calls
    mon.check(sight(made) == before, 'forecast-trace')
    for _ in range(rng.choice([1, 2, 3])):
        at = rng.randint(1, total)
        fuse.at, fuse.calls = {at}, 0
        blown = fuse.blown
        try:
            world.run(made)
        except Fault:
            mon.event('forecast-failed')
        else:
            mon.check(fuse.blown == blown, 'failure-hidden', at=at)
        mon.obs(at, total)
        fuse.at = set()
        mon.check(sight(made) == before, 'failed-forecast-trace', at=at,
                  total=total)
    got = picture(world.run(made))
    bad = [(k, got.get(k, 'missing'), v) for k, v in want.items()
           if got.get(k, 'missing') != v and not near(
               got.get(k, 'missing'), v)]
    mon.oracle += len(want)
    mon.check(not bad and set(got) == set(want), 'forecast-after-fault',
              first=bad[:3], count=len(bad))
    mon.interesting()


WORKLOADS = [
    Workload('refuse', refuse, 6000, 80000),
    Workload('years', years, 3000, 40000),
    Workload('reads', reads, 3000, 40000),
    Workload('assess', assess, 3000, 40000),
    Workload('calls', calls, 3000, 40000),
    Workload('forecasts', forecasts, 500, 8000),
]
REQUIRED = {'refused': 500, 'year-retried': 200, 'read-failed': 200,
            'assessment-failed': 200, 'call-failed': 100,
            'forecast-failed': 10}
