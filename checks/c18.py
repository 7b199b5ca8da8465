""" C18: money is conserved through the years of a forecast. """

from vmon import gen, ref, world
from vmon.core import Workload
from forecaster import Timing

PROPERTY = 'C18'
SCALE = 10
RULE = (
    'Forecasts of random households (Canadian and not, one or two people, '
    'accounts, debts, strategies, taxes, up to eight years) are run with '
    'every sub-forecast watched: what is available before and after each, '
    'every balance, return, transaction and withholding. Cash and wealth '
    'are reconciled year by year with an independent account of what '
    'should have flowed, and the recorded histories with what was seen. '
    'Non-trivial: at least two years in which money was both saved or '
    'withdrawn and carried over.')

TOL = dict(rel=1e-8, abs_=1e-4)
NAMES = ['income', 'living', 'saving', 'withdrawal', 'tax']


def cash(available):
    out = {}
    for when, value in available.items():
        if value:
            out[float(when)] = float(value)
    return out


def same(one, two, tol=1e-4):
    return all(
        abs(one.get(k, 0) - two.get(k, 0)) <= max(
            tol, 1e-9 * abs(one.get(k, 0))) for k in set(one) | set(two))


def spread(base, total, timing):
    whole = float(sum(timing.values()))
    for when, weight in timing.items():
        when = float(when)
        base[when] = base.get(when, 0) + float(total) * float(weight) / whole


class Watch:
    """ Photographs of a year. """

    def __init__(self, made):
        self.made = made
        self.accounts = made.accounts + made.debts
        self.years = {}

    def wrap(self, sub, name):
        cls = type(sub)
        watch = self

        def call(this, available):
            year = watch.years.setdefault(this.this_year, {})
            year[name, 'calls'] = year.get((name, 'calls'), 0) + 1
            year[name, 'before'] = cash(available)
            year[name, 'held'] = watch.held()
            cls.__call__(this, available)
            year[name, 'after'] = cash(available)
            year[name, 'done'] = watch.held()
            if name == 'tax':
                watch.end(year)
        sub.__class__ = type(cls)(
            'Watched' + cls.__name__, (cls,), {'__call__': call})

    def held(self):
        return [(sum(map(float, a.transactions.values())),
                 float(a.tax_withheld)) for a in self.accounts]

    def end(self, year):
        """ The year's figures, when all is done. """
        made = self.made
        year['balances'] = [float(a.balance) for a in self.accounts]
        year['returns'] = [float(a.returns) for a in self.accounts]
        year['txns'] = [ref.total(a.transactions) for a in self.accounts]
        year['assets'] = sum(float(a.balance) for a in made.accounts)
        year['net'] = [float(p.net_income) for p in made.people]
        year['gross'] = [float(p.gross_income) for p in made.people]
        year['paye'] = [float(p.tax_withheld) for p in made.people]
        year['owing'] = float(made.tax(
            set(made.people), made.people[0].this_year))


def forecast(rng, mon, years=(2, 3, 4, 5, 6, 8)):
    spec = world.make_spec(rng, years=rng.choice(years))
    made = world.build(spec)
    mon.note(spec=spec)
    watch = Watch(made)
    subs = world.subforecasts(made)
    for (_, sub), name in zip(subs.items(), NAMES):
        watch.wrap(sub, name)
    result = world.Forecast(scenario=made.scenario, **subs, **made.mod.kw)
    first, last = spec['year'], spec['year'] + spec['years'] - 1
    mon.check(sorted(watch.years) == list(range(first, last + 1)), 'years',
              seen=sorted(watch.years))
    before, busy = None, 0
    for number in range(first, last + 1):
        year = watch.years[number]
        detail = dict(year=number)
        reconcile(mon, made, subs, result, number, year, before, detail)
        if before is not None:
            moved = any(year[n, 'before'] != year[n, 'after']
                        for n in ('saving', 'withdrawal'))
            busy += moved and bool(year['income', 'before'])
        before = year
        mon.event('year')
    mon.interesting(busy > 1)
    for item in list(subs.values()) + made.people + watch.accounts + [result]:
        mon.check(item.this_year == last, 'lockstep', item=repr(type(item)),
                  this_year=item.this_year, last=last)
    ending = cash(result.available)
    mon.check(same(ending, watch.years[last]['tax', 'after']), 'final-cash')


def lifetime(rng, mon):
    """ Decades of it. """
    forecast(rng, mon, (15, 25, 40, 60))
    mon.event('lifetime')


def reconcile(mon, made, subs, result, number, year, before, detail):
    watched = list(subs.values())
    for name in NAMES:
        mon.check(year.get((name, 'calls')) == 1, 'called-once', name=name,
                  calls=year.get((name, 'calls')), **detail)
    # Each takes over from the one before.
    for one, two in zip(NAMES, NAMES[1:]):
        mon.check(same(year[one, 'after'], year[two, 'before']), 'hand-over',
                  one=one, two=two, **detail)
    # The year starts with last year's money and taxes.
    want = {}
    if before is not None:
        over = before['tax', 'after']
        adjust = sum(before['paye']) + sum(
            held for _, held in before['tax', 'done']) - before['owing']
        spread(want, sum(over.values()), {0: 1})
        if abs(adjust) > 1e-9:
            tax = made.tax
            spread(want, adjust, tax.refund_timing if adjust > 0
                   else tax.payment_timing)
            mon.event('refund' if adjust > 0 else 'payment')
        mon.close(watched[4].tax_adjustment_history[number - 1], adjust,
                  'tax-adjustment', **TOL, **detail)
        if sum(over.values()) > 1:
            mon.event('carried-over')
    mon.check(same(year['income', 'before'], want), 'carry-over',
              got=year['income', 'before'], want=want, **detail)
    # Income.
    want = dict(year['income', 'before'])
    for person, net in zip(made.people, year['net']):
        spread(want, net, person.payment_timing)
    mon.check(same(year['income', 'after'], want), 'income-cash',
              got=year['income', 'after'], want=want, **detail)

    def change(name):
        return (sum(year[name, 'after'].values())
                - sum(year[name, 'before'].values()))

    def moved(name):
        return (sum(t for t, _ in year[name, 'done'])
                - sum(t for t, _ in year[name, 'held']))
    # Living expenses.
    living = float(result.living_expenses_history[number])
    mon.close(change('living'), -living, 'living-cash', **TOL, **detail)
    for name in ('income', 'living', 'tax'):
        mon.check(year[name, 'held'] == year[name, 'done'],
                  'accounts-moved', name=name, **detail)
    mon.check(year['tax', 'before'] == year['tax', 'after'], 'tax-cash',
              **detail)
    # Savings.
    mon.close(change('saving'), -moved('saving'), 'saving-cash', **TOL,
              **detail)
    if sum(year['saving', 'before'].values()) <= 0:
        mon.check(year['saving', 'held'] == year['saving', 'done'],
                  'saved-without-surplus', **detail)
    elif moved('saving') > 0.01:
        mon.event('saved')
    # Withdrawals, net of what is withheld from them.
    withheld = (sum(w for _, w in year['withdrawal', 'done'])
                - sum(w for _, w in year['withdrawal', 'held']))
    got = change('withdrawal')
    want = -moved('withdrawal') - withheld
    if abs(withheld) > 0.01:
        mon.event('withheld')
    sign_error = 0
    if abs(withheld) > 0.01 and ref_close(got, want + 2 * withheld):
        sign_error = 2 * withheld
        mon.violate('withholding-sign', observed=got, expected=want,
                    withheld=withheld, **detail)
    else:
        mon.close(got, want, 'withdrawal-cash', **TOL, **detail)
    if moved('withdrawal') < -0.01:
        mon.event('withdrew')
    # Wealth: what comes in and goes out, wherever it is held.
    cash_in = sum(year['income', 'before'].values())
    cash_out = sum(year['tax', 'after'].values())
    mon.close(
        sum(year['txns']) + cash_out - cash_in,
        sum(year['net']) - living - withheld + sign_error, 'wealth',
        abs_=1e-3, rel=1e-8, **detail)
    if before is not None:
        for i, (old, new) in enumerate(zip(
                before['balances'], year['balances'])):
            mon.close(new, old + before['txns'][i] + before['returns'][i],
                      'balance', abs_=1e-4, rel=1e-9, account=i, **detail)
    # What is recorded is what happened.
    for name, value in [
            ('income', sum(year['net'])), ('living_expenses', living),
            ('savings', max(sum(year['net']) - living, 0)),
            ('principal', year['assets']),
            ('withdrawals', -sum(year['withdrawal', 'before'].values())),
            ('tax', year['owing'])]:
        mon.close(getattr(result, name + '_history')[number], value,
                  'recorded:' + name, abs_=1e-4, rel=1e-9, **detail)
    income, _, saving, withdrawal, tax = watched
    for sub, name, value in [
            (income, 'net_income', sum(year['net'])),
            (income, 'gross_income', sum(year['gross'])),
            (income, 'tax_withheld', sum(year['paye'])),
            (income, 'carryover', cash_in),
            (saving, 'total', moved('saving')),
            (saving, 'debt_repayment', sum(
                b[0] - a[0] for a, b in list(zip(
                    year['saving', 'held'], year['saving', 'done']))[
                        len(made.accounts):])),
            (saving, 'retirement_savings', sum(
                b[0] - a[0] for a, b in list(zip(
                    year['saving', 'held'], year['saving', 'done']))[
                        :len(made.accounts)])),
            (tax, 'tax_withheld', sum(year['paye']) + sum(
                w for _, w in year['tax', 'done'])),
            (tax, 'tax_owing', year['owing'])]:
        mon.close(getattr(sub, name + '_history')[number], value,
                  'recorded:%s.%s' % (type(sub).__mro__[1].__name__, name),
                  abs_=1e-3, rel=1e-9, **detail)
    mon.obs(round(cash_out, 2), round(living, 2),
            [round(b, 2) for b in year['balances']])


def ref_close(one, two):
    return abs(one - two) <= max(1e-4, 1e-8 * abs(two))


WORKLOADS = [Workload('forecast', forecast, 500, 15000),
             Workload('lifetime', lifetime, 40, 1000)]
REQUIRED = {'year': 1500, 'refund': 150, 'payment': 150, 'carried-over': 80,
            'saved': 300, 'withdrew': 300, 'withheld': 30, 'lifetime': 30}
