""" C09: adjusted cost base and capital gains of taxable accounts. """

import math
from vmon import gen, ref
from vmon.core import Workload
from forecaster import Person
from forecaster.canada.accounts import TaxableAccount, PrincipleResidence

PROPERTY = 'C09'
SCALE = 16
RULE = (
    'Random taxable accounts (rate, frequency, opening cost base, manually '
    'entered cost bases and gains) are traded for 1-8 years with deposits '
    'and withdrawals recorded in any order, replaced, deleted and cleared, '
    'with reads in between; cost base, gain and taxable income are compared '
    'each year with an independent chronological calculation, and the sum '
    'of gains with the money made. Non-trivial: a withdrawal.')


def year_of(balance, acb, rate, nper, txns):
    """ Gain realised in the year, and the cost base at its end. """
    gain = 0.0
    for when in sorted(txns):
        value = txns[when]
        if value >= 0:
            acb += value
        else:
            before = ref.balance_at(balance, rate, nper, txns, when) - value
            share = -value / before
            gain += -value - acb * share
            acb *= 1 - share
    return gain, acb


def legal(balance, rate, nper, txns):
    """ No withdrawal takes more than there is (or from nothing). """
    for when, value in txns.items():
        if value < 0:
            after = ref.balance_at(balance, rate, nper, txns, when)
            if after < 0 or after - value < 1:
                return False
    return True


def trade(rng, mon):
    mod = gen.mode(rng)
    year = 2000
    nper = gen.nper(rng)
    rates = {y: gen.rate(rng, -0.3, 0.6) for y in range(1999, 2012)}
    balance = 0 if rng.random() < 0.1 else gen.pos(rng, 5e5)
    kwargs, acb, inputs = dict(mod.kw), balance, {}
    if rng.random() < 0.5:
        acb = gen.money(rng, 0, 5e5) if rng.random() < 0.5 else round(
            balance * rng.uniform(0, 2), 2)
        kwargs['acb'] = mod(acb)
    if rng.random() < 0.2:
        for name in ('acb', 'capital_gain'):
            inputs[name] = {
                y: gen.money(rng, 0, 1e5) for y in rng.sample(
                    range(2000, 2006), rng.choice([1, 2]))}
        kwargs['inputs'] = {n: {y: mod(v) for y, v in d.items()}
                            for n, d in inputs.items()}
    owner = Person(year, 'A', 1970, retirement_date=2035, **mod.kw)
    acct = TaxableAccount(
        owner, balance=mod(balance), nper=nper,
        rate={y: mod(r) for y, r in rates.items()}, **kwargs)
    acb = inputs.get('acb', {}).get(year, acb)
    start = (balance, acb)
    mon.note(balance=balance, acb=acb, nper=str(nper), rates=rates,
             inputs=inputs, mode=mod.name)
    gains, history, made = 0.0, {}, []

    def look(what, txns):
        gain, after = year_of(balance, acb, rates[year], nper, txns)
        gain = inputs.get('capital_gain', {}).get(year, gain)
        scale = max(1e3, balance, acb, *[abs(v) for v in txns.values()] or [0])
        info = dict(
            year=year, balance=balance, base=acb, rate=rates[year],
            nper=str(nper), txns=dict(txns), inputs=inputs)
        tol = 1e-8 * scale * max(1, ref.accum(1, rates[year], nper))
        if 'gain' in what:
            mon.close(acct.capital_gain, gain, 'capital-gain', abs_=tol,
                      **info)
        if 'tax' in what:
            mon.close(acct.taxable_income, gain / 2, 'taxable-income',
                      abs_=tol, **info)
        if 'acb' in what:
            mon.close(acct.acb, acb, 'acb', abs_=tol, **info)
        return gain, after, tol

    for _ in range(rng.choice([1, 2, 3, 4, 6, 8])):
        txns = {}
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6])):
            when = gen.when(rng, words=False)
            if txns and rng.random() < 0.2:
                when = rng.choice(sorted(txns))
            value = gen.money(rng, -1e5, 1e5)
            if rng.random() < 0.4:
                room = ref.balance_at(balance, rates[year], nper, txns, when)
                value = round(-max(room, 0) * rng.choice(
                    [1, 0.5, rng.random()]), 2)
            after = dict(txns)
            op = rng.random()
            if op < 0.75:
                after[when] = after.get(when, 0) + value
            elif op < 0.9:
                after[when] = value
            elif op < 0.97:
                after.pop(when, None)
            else:
                after = {}
            if not legal(balance, rates[year], nper, after):
                continue
            if op < 0.75:
                acct.add_transaction(mod(value), mod(when))
            elif op < 0.9:
                acct[mod(when)] = mod(value)
                mon.event('replaced')
            elif op < 0.97:
                if when in txns:
                    del acct[mod(when)]
                    mon.event('deleted')
            else:
                acct.clear()
                mon.event('deleted')
            txns = after
            if rng.random() < 0.3:
                look(rng.choice(['gain', 'tax', 'acb', 'gain tax']), txns)
                mon.event('mid-year-look')
        what = 'gain tax acb'
        if rng.random() < 0.4:
            what = rng.choice(['', 'gain', 'acb', 'tax'])
        gain, after, tol = look(what, txns)
        history[year] = (gain, acb, tol)
        gains += gain
        made.append(ref.returns(balance, rates[year], nper, txns))
        if any(v < 0 for v in txns.values()):
            mon.interesting()
            mon.event('withdrawal-year')
            mon.event('loss' if gain < 0 else 'gain')
        mon.obs(float(acct.acb), float(acct.capital_gain))
        acct.next_year()
        balance = ref.year_end(balance, rates[year], nper, txns)
        year += 1
        acb = inputs.get('acb', {}).get(year, after)
        mon.close(acct.acb, acb, 'next-acb', abs_=tol * 10, year=year,
                  txns=txns, base=history[year - 1][1], inputs=inputs)
        mon.close(acct.balance, balance, 'balance', abs_=tol * 10)
        mon.event('year')
        if balance < 1:
            break
    for y, (gain, base, tol) in history.items():
        mon.close(acct.capital_gain_history[y], gain, 'gain-history',
                  abs_=tol * 10)
        mon.close(acct.acb_history[y], base, 'acb-history', abs_=tol * 10)
        mon.close(acct.taxable_income_history[y], gain / 2,
                  'taxable-history', abs_=tol * 10)
    if not inputs:
        # Money made is either realised, or embedded in the account.
        mon.close(
            sum(float(v) for y, v in acct.capital_gain_history.items()
                if y < year) + (float(acct.balance) - float(acct.acb)),
            start[0] - start[1] + math.fsum(made), 'gains-conserved',
            abs_=1e-6 * max(1e4, *map(abs, start), *map(abs, made)),
            history=history)
        mon.event('conserved')


def residence(rng, mon):
    """ Gains on a principal residence aren't taxable. """
    mod = gen.mode(rng)
    acct = PrincipleResidence(
        Person(2000, 'A', 1970, retirement_date=2035, **mod.kw),
        balance=mod(gen.pos(rng)), rate=mod(gen.rate(rng)),
        nper=gen.nper(rng), **mod.kw)
    for _ in range(3):
        for when, value in gen.txns(rng).items():
            acct.add_transaction(mod(value), mod(when))
        for name in ('taxable_income', 'tax_withheld', 'tax_credit',
                     'tax_deduction'):
            mon.close(getattr(acct, name, 0), 0, 'residence-' + name)
        mon.event('residence')
        acct.next_year()


WORKLOADS = [Workload('trade', trade, 9000, 180000),
             Workload('residence', residence, 100, 1000)]
REQUIRED = {'withdrawal-year': 3000, 'loss': 500, 'gain': 500,
            'conserved': 2000, 'mid-year-look': 2000, 'replaced': 200,
            'deleted': 200, 'residence': 100}
