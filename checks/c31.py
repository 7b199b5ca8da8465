""" C31: copies live on as the originals would, and apart from them. """

import random
from copy import deepcopy
from types import SimpleNamespace
from vmon import gen, world
from vmon.core import Workload
from checks import c28
from checks.c19 import alike, household, inputs, picture
from checks.c30 import answers, view
from forecaster import Debt, Forecast, Scenario
from forecaster.accounts import LinkedLimitAccount
from forecaster.canada.accounts import RRSP

PROPERTY = 'C31'
KINDS = ['max_inflow', 'min_inflow', 'max_outflow', 'min_outflow']
RULE = (
    'Random households are copied (all together, or people, accounts and '
    'debts only, or through any one of their members) before, between and '
    'after random years and transactions; then copy and original live '
    'different lives. Each is compared with a twin that lived the same life '
    'and was never copied: histories, limits, relations, and answers. '
    'Separately, households that have lived a while are forecast, from '
    'copies, from fresh twins and directly. '
    'Non-trivial: something happened before and after the copying.')


def copied(rng, mon, made):
    """ A copy of a household, and what is in it. """
    kind = rng.choice(['all', 'members', 'person', 'account', 'again'])
    tags = list(range(len(made.accounts + made.debts)))
    if kind == 'all':
        out = deepcopy(made)
    elif kind == 'again':
        out = deepcopy(deepcopy(made))
    else:
        out = SimpleNamespace(**vars(made))
        if kind == 'members':
            out.people, out.accounts, out.debts = deepcopy(
                (made.people, made.accounts, made.debts))
        else:
            # Through one of them come all that are related to it.
            one = rng.choice(made.people if kind == 'person'
                             else made.accounts + made.debts)
            memo = {}
            deepcopy(one, memo)
            out.people = [deepcopy(p, memo) for p in made.people]
            out.accounts = [deepcopy(a, memo) for a in made.accounts]
            out.debts = [deepcopy(d, memo) for d in made.debts]
    mon.event('copied:' + kind)
    for old, new in zip(made.people, out.people):
        mon.check(new is not old, 'shared-person', kind=kind)
        mon.check((new.spouse is None) == (old.spouse is None) and (
            new.spouse is None
            or new.spouse is out.people[old.spouse.verif_tag]),
            'spouse', kind=kind)
    held = out.accounts + out.debts
    originals = made.accounts + made.debts
    for tag in tags:
        old, new = originals[tag], held[tag]
        mon.check(new is not old and type(new) is type(old),
                  'shared-account', kind=kind)
        mon.check(new.owner is out.people[old.owner.verif_tag], 'owner',
                  kind=kind)
        if hasattr(old, 'contributor'):
            mon.check(new.contributor is out.people[
                old.contributor.verif_tag], 'contributor', kind=kind)
    for old, new in zip(made.people, out.people):
        mon.check({id(a) for a in new.accounts} == {
            id(held[originals.index(a)]) for a in old.accounts},
            'accounts', kind=kind)
        mon.check(set(new.data) == set(old.data) and all(
            {id(a) for a in new.data[token].group} == {
                id(held[originals.index(a)]) for a in old.data[token].group}
            for token in old.data), 'links', kind=kind)
    return out


def a_life(rng, made, steps):
    """ What happens to a household, as plain data. """
    out = []
    for _ in range(steps):
        kind = rng.random()
        count = len(made.accounts + made.debts)
        if kind < 0.5:
            out.append(('moves', c28.a_script(rng, made)))
        elif kind < 0.6:
            out.append(('balance', rng.randrange(count),
                        gen.money(rng, 1000, 1e5)))
        elif kind < 0.68:
            out.append(('room', rng.randrange(count),
                        gen.money(rng, 0, 5e4)))
        elif kind < 0.75:
            out.append(('convert', rng.randrange(count)))
        elif kind < 0.8:
            out.append(('timing', rng.randrange(count), gen.timing(rng)))
        elif kind < 0.85:
            out.append(('divorce',))
        else:
            order = list(range(count))
            rng.shuffle(order)
            out.append(('year', order))
    return out


def live(mon, made, life):
    mod = made.mod
    for kind, *args in life:
        accounts = made.accounts + made.debts
        if kind == 'moves':
            c28.act(args[0], made)
        elif kind == 'balance':
            acct, value = accounts[args[0]], mod(args[1])
            acct.balance = -value if isinstance(acct, Debt) else value
        elif kind == 'room':
            acct = accounts[args[0]]
            if hasattr(acct, 'contribution_room'):
                acct.contribution_room = mod(args[1])
            elif getattr(acct, 'max_inflow_link', None) is not None:
                acct.max_inflow_limit = mod(args[1])
                mon.event('life:limit')
        elif kind == 'convert':
            acct = accounts[args[0]]
            if isinstance(acct, RRSP) and (
                    acct.rrif_conversion_year > acct.this_year):
                acct.convert_to_rrif()
        elif kind == 'timing':
            accounts[args[0]].default_timing = gen.conv(mod, args[1])
        elif kind == 'divorce':
            made.people[0].spouse = None
        else:
            c28.advance(made, args[0])
        mon.event('life:' + kind)


def linked(rng, made):
    """ Gives each of some alike households accounts with shared limits. """
    people = made[0].people
    plan = [(rng.randrange(len(people)), rng.choice(['A', 'B']),
             rng.sample(KINDS, rng.randint(1, 3)), gen.money(rng, 1e3, 1e5),
             rng.choice([None, gen.money(rng, 0, 1e4)]))
            for _ in range(rng.choice([0, 1, 2, 3]))]
    for one in made:
        for owner, token, kinds, balance, limit in plan:
            kwargs = dict(one.mod.kw)
            for kind in kinds:
                kwargs[kind + '_link'] = one.people[owner], token + kind
                sign = -1 if 'outflow' in kind else 1
                kwargs[kind + '_limit'] = one.mod(
                    sign * (1000 if limit is None else limit))
            acct = LinkedLimitAccount(
                one.people[owner], balance=one.mod(balance),
                rate=one.mod(0.03), nper=1, **kwargs)
            acct.verif_tag = len(one.accounts)
            one.accounts.append(acct)


def apart(rng, mon):
    spec, made = c28.twins(rng, mon, 3, years=8)
    linked(rng, made)
    original, alone, other = made
    before = a_life(rng, original, rng.randint(0, 5))
    for one in made:
        live(mon, one, before)
    copy = copied(rng, mon, original)
    first = a_life(rng, original, rng.randint(1, 5))
    second = a_life(rng, original, rng.randint(1, 5))
    detail = dict(before=before, lives=(first, second), spec=spec)
    # Each lives its own life; perhaps by turns.
    turns = [(original, s) for s in first], [(copy, s) for s in second]
    merged = turns[0] + turns[1]
    if rng.random() < 0.5:
        merged = [s for pair in zip(*turns) for s in pair] + turns[0][
            len(turns[1]):] + turns[1][len(turns[0]):]
    elif rng.random() < 0.5:
        merged = turns[1] + turns[0]
    for one, step in merged:
        live(mon, one, [step])
    live(mon, alone, first)
    live(mon, other, second)
    c28.compare(mon, view(original), view(alone), 'original', **detail)
    c28.compare(mon, view(copy), view(other), 'copy', **detail)
    seed = rng.getrandbits(64)
    c28.compare(mon, answers(original, seed, 6), answers(alone, seed, 6),
                'original-answers', **detail)
    c28.compare(mon, answers(copy, seed, 6), answers(other, seed, 6),
                'copy-answers', **detail)
    mon.event('compared')
    mon.obs((before, first, second))
    mon.interesting(bool(before))


# -- forecasts of households that have lived ---------------------------
def later(made, count):
    """ The household's forecast, `count` years on, for what is left. """
    spec = made.spec
    eco = {k: world._rate(made.mod, v) for k, v in spec['scenario'].items()}
    made.scenario = Scenario(
        initial_year=spec['year'] + count, num_years=spec['years'] - count,
        **eco)
    made.forecaster = type(made.forecaster)(
        scenario=made.scenario, living_expenses_strategy=made.living,
        saving_strategy=made.saving, withdrawal_strategy=made.withdrawal,
        tax_treatment=made.tax, **made.mod.kw)
    made.spec = dict(spec, year=spec['year'] + count)
    return made


def mid_life(rng, mon):
    spec = household(rng, years=rng.choice([3, 4, 5, 6]))
    if 'orderly' not in spec:
        spec['people'], spec['spouses'] = spec['people'][:1], False
        spec['accounts'], spec['debts'] = spec['accounts'][:1], []
        spec['accounts'][0]['owner'] = 0
        spec['accounts'][0].pop('contributor', None)
        spec['orderly'] = 'simple'
    for acct in spec['accounts']:
        acct['balance'] = max(acct['balance'], 1000)
    mon.note(spec=spec)
    made = [world.build(spec) for _ in range(2)]
    count = rng.randint(1, spec['years'] - 1)
    seed = rng.getrandbits(64)
    for one in made:
        one.year = spec['year']
        script = random.Random(seed)
        for _ in range(count):
            if script.random() < 0.6:
                c28.act(c28.a_script(script, one), one)
            c28.advance(one, list(range(len(one.accounts + one.debts))))
        later(one, count)
    one, two = made
    before = inputs(one)
    past = c28.shots(one)
    forecast = world.run(one)
    mon.check(inputs(one) == before, 'inputs-changed')
    shot = picture(forecast)
    again = world.run(one)
    alike(mon, shot, picture(again), 'again', spec)
    direct = world.run_direct(two)
    alike(mon, shot, picture(direct), 'direct', spec)
    # What was lived before the forecast is part of the histories.
    lost = [k for k, v in past.items()
            if k[2] < spec['year'] + count and shot.get(k) != v]
    mon.check(not lost, 'past-lost', first=[
        (k, past[k], shot.get(k)) for k in lost[:3]])
    mon.check(forecast.this_year == spec['year'] + spec['years'] - 1,
              'last-year', got=forecast.this_year)
    # A copy that is run on leaves the first result alone.
    copies = deepcopy((forecast.people, forecast.assets, forecast.debts))
    for group in copies:
        for item in group:
            while item.this_year <= forecast.this_year:
                item.next_year()
    mon.check(picture(forecast) == shot, 'result-changed')
    mon.event('mid-life')
    mon.obs((count, spec['people'], spec['accounts']))
    mon.interesting(True)


# -- forecasts, copied half-way ----------------------------------------
class Unmoved(Forecast):
    """ A forecast that has not begun. """

    def __init__(self, scenario, **kwargs):
        first = Scenario(initial_year=scenario.initial_year, num_years=1,
                         inflation=0, stock_return=0, bond_return=0,
                         other_return=0, management_fees=0)
        super().__init__(scenario=first, **kwargs)
        self.scenario = scenario
        self.__class__ = Forecast

    def call_subforecasts(self):
        pass


def step(forecast, at):
    """ The step of a forecast's year that is next. """
    if at == 5:
        forecast.next_year()
    else:
        forecast.forecasts[at](forecast.available)


def go(mon, forecast, steps, whole):
    """ Makes the given steps; `whole` years at once where possible. """
    steps = list(steps)
    while steps:
        if whole and steps[:5] == [0, 1, 2, 3, 4]:
            forecast.call_subforecasts()
            mon.event('whole-year')
            del steps[:5]
        else:
            step(forecast, steps.pop(0))


def forecast_copies(rng, mon):
    spec = household(rng, years=rng.choice([2, 3, 4]))
    if 'orderly' not in spec:
        spec['people'], spec['spouses'] = spec['people'][:1], False
        spec['accounts'], spec['debts'] = spec['accounts'][:1], []
        spec['accounts'][0]['owner'] = 0
        spec['accounts'][0].pop('contributor', None)
        spec['orderly'] = 'simple'
    mon.note(spec=spec)
    steps = [i for _ in range(spec['years']) for i in range(6)][:-1]
    one, alone = (world.run_direct(world.build(spec), cls=Unmoved)
                  for _ in range(2))
    cut = rng.randrange(len(steps) + 1)
    whole = rng.random() < 0.7
    go(mon, one, steps[:cut], whole)
    two = deepcopy(one)
    if rng.random() < 0.3:
        two = deepcopy(two)
    shot = picture(one)
    c28.compare(mon, picture(two), shot, 'copy-differs', cut=cut)
    undone = rng.random() < 0.3 and cut and steps[cut - 1] != 5
    if undone:
        # The last step is taken back in the copy, and made again.
        last = two.forecasts[steps[cut - 1]]
        last.undo_transactions()
        mon.event('undone')
        c28.compare(mon, picture(one), shot, 'undone-in-original', cut=cut)
        last(two.available)
    first, then = (one, two) if rng.random() < 0.5 else (two, one)
    go(mon, first, steps[cut:], whole)
    if not undone:
        c28.compare(mon, picture(then), shot, 'lived-by-the-other', cut=cut)
    go(mon, then, steps[cut:], whole)
    go(mon, alone, steps, False)
    want = picture(alone)
    alike(mon, want, picture(one), 'original-forecast', spec)
    alike(mon, want, picture(two), 'copied-forecast', spec)
    for new, old in zip(two.forecasts, one.forecasts):
        mon.check(new is not old and new.transactions is not
                  old.transactions, 'shared-step')
        mon.check(not any(a is b for a in new.transactions
                          for b in old.transactions
                          if a is not None), 'shared-party')
        for flows in (new.transactions, old.transactions):
            mon.check(len(flows.keys()) == len(flows), 'keys')
    mon.event('copied:step-%d' % (steps[cut] if cut < len(steps) else 5))
    mon.obs((cut, spec['people'], spec['accounts']))
    mon.interesting(cut > 0)


WORKLOADS = [
    Workload('forecast_copies', forecast_copies, 250, 10000),
    Workload('apart', apart, 1200, 40000),
    Workload('mid_life', mid_life, 250, 10000),
]
REQUIRED = dict({'copied:' + kind: 200 for kind in (
    'all', 'members', 'person', 'account', 'again')}, **{
        'life:' + kind: 200 for kind in (
            'moves', 'balance', 'room', 'convert', 'timing', 'divorce',
            'limit', 'year')}, **{'copied:step-%d' % i: 30 for i in range(6)}, **{
                'compared': 2000, 'mid-life': 300, 'undone': 50, 'whole-year': 300})
