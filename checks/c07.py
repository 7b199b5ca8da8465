""" C07: contribution room of registered accounts. """

from vmon import gen, ref
from vmon.core import Workload
from vmon.eco import Economy
from vmon.statute import statute
from forecaster import Person
from forecaster.canada.accounts import RRSP, TFSA

PROPERTY = 'C07'
RULE = (
    'Random RRSPs and TFSAs of one or two people (shared or separate '
    'contributors and tokens, given or inferred initial room, manual '
    'entries, any form of inflation) are contributed to and withdrawn from '
    'for 1-12 years and advanced in random order; room is compared every '
    'year with an independent calculation from the statutory tables, or '
    'from other tables given to the accounts. '
    'Non-trivial: at least two years with contributions.')


class Pool:
    """ The room shared by the accounts of one contributor and token. """

    def __init__(self, eco, law, cls, person, born):
        self.eco, self.law, self.cls = eco, law, cls
        self.person, self.born = person, born
        self.accounts, self.flows, self.inputs = [], [], {}
        self.room = None
        self.hist = {}

    def tfsa_accruals(self, year):
        """ The accrual for `year`, as it should be and as it is known
        to be beyond the statutory table (see KNOWN_FINDINGS). """
        law = self.law
        if year - self.born < law.tfsa_age:
            return [0], []
        if year in law.tfsa:
            return [law.tfsa[year]], []
        first = min(law.tfsa)
        base = law.tfsa[first]
        return (law.round_tfsa(base * self.eco.factor(year, first)),
                law.round_tfsa(base * self.eco.factor(first, year)))

    def sums(self, years):
        """ Possible totals of accruals (right, right-or-known). """
        right, known = {0}, {0}
        for year in years:
            good, bad = self.tfsa_accruals(year)
            right = {a + b for a in right for b in good}
            known = {a + b for a in known for b in (bad or good)}
        return right, known

    def initial(self, mon, year, got):
        """ Checks the inferred initial room. """
        if self.cls is RRSP:
            mon.close(got, 0, 'rrsp-initial-room')
            self.room = 0.0
            return
        past = [y for y in self.inputs if y < year]
        if past:
            base, start = self.inputs[max(past)], max(past) + 1
        else:
            base, start = 0, max(
                self.born + self.law.tfsa_age, min(self.law.tfsa))
        right, known = self.sums(range(start, year + 1))
        self.judge(mon, got, [base + r for r in right],
                   [base + k for k in known], 'tfsa-initial-room',
                   year=year, born=self.born, inputs=self.inputs)
        self.room = float(got)
        mon.event('inferred')

    @staticmethod
    def judge(mon, got, right, known, mech, **info):
        mon.oracle += 1
        good = any(abs(float(got) - r) < 1e-4 for r in right)
        if not good:
            seen = any(abs(float(got) - k) < 1e-4 for k in known)
            mon.violate('tfsa-accrual-deflated' if seen else mech,
                        observed=got, expected=right, **info)

    def advance(self, mon, year, income, info):
        """ Checks the room for `year + 1`. """
        self.hist[year] = self.room
        acct = self.accounts[0]
        got = acct.contribution_room
        ins = sum(ref.inflows(f) for f in self.flows)
        outs = sum(ref.outflows(f) for f in self.flows)
        info = dict(info, flows=self.flows, room=self.room, year=year,
                    born=self.born, inputs=self.inputs, income=income,
                    inflation=self.eco.kind)
        if year + 1 in self.inputs:
            want = self.inputs[year + 1]
            mon.close(got, want, 'room-input', **info)
            mon.event('room-input')
        elif self.cls is RRSP:
            if year + 1 - self.born > self.law.conversion_age:
                want = 0
                mon.event('too-old')
            else:
                most = self.eco.extend(self.law.accrual_max, year + 1)
                earned = self.law.accrual_rate * income
                if earned > most:
                    mon.event('accrual-capped')
                want = self.room - ins + min(earned, most)
            mon.close(got, want, 'rrsp-room', abs_=1e-4, **info)
        else:
            right, known = self.tfsa_accruals(year + 1)
            carry = self.room - ins - outs
            self.judge(mon, got, [carry + r for r in right],
                       [carry + k for k in known], 'tfsa-room', **info)
        for other in self.accounts:
            mon.close(other.contribution_room, got, 'room-not-shared',
                      **info)
            mon.close(other.max_inflow_limit, got, 'room-not-limit', **info)
        mon.event(self.cls.__name__ + '-year')
        self.room = float(got)
        self.flows = [{} for _ in self.flows]


def family(rng, mod, year, eco):
    people = []
    for i in range(rng.choice([1, 1, 2])):
        born = year - rng.randint(12, 75)
        people.append((Person(
            year, 'P%d' % i, '%d-%02d-%02d' % (
                born, rng.randint(1, 12), rng.randint(1, 28)),
            retirement_date=max(year + rng.randint(-5, 10), born + 1),
            gross_income=mod(gen.money(rng, 0, 2.5e5)),
            raise_rate=mod(gen.rate(rng, -0.05, 0.2)), **mod.kw), born))
    return people


def refuse(rng, mon, mod, cls, owner):
    """ Saying the same thing twice is refused and leaves no account. """
    twice = rng.choice([
        {'contribution_room': mod(1), 'max_inflow_limit': mod(1)},
        {'contributor': owner, 'max_inflow_link': (owner, 'refused')},
        {'max_inflow_token': 'a', 'max_inflow_link': (owner, 'refused')}])
    before = set(owner.accounts)
    try:
        cls(owner, **twice, **mod.kw)
    except ValueError:
        mon.event('refused')
    else:
        mon.violate('taken-twice', given=sorted(twice))
    mon.check(set(owner.accounts) == before, 'refused-account-kept')


def rooms(rng, mon):
    mod = gen.mode(rng)
    year = rng.randint(2009, 2026)
    eco, law = Economy(rng, mod), statute(rng)
    if law.own:
        mon.event('own-rules')
        year = max(year, min(law.tfsa))
    people = family(rng, mod, year, eco)
    pools, owners = {}, {}
    for _ in range(rng.randint(1, 5)):
        cls = rng.choice([RRSP, TFSA])
        owner, born = rng.choice(people)
        contributor, cborn = owner, born
        kwargs = dict(mod.kw, **law.arg(mod))
        if cls is RRSP and rng.random() < 0.3:
            contributor, cborn = rng.choice(people)
            kwargs['contributor'] = contributor
        elif cls is TFSA and rng.random() < 0.2:
            # (Somebody else's age counts only where it makes no odds.)
            other = rng.choice(people)
            if max(born, other[1]) + law.tfsa_age <= min(
                    *law.tfsa, year - 4):
                contributor, cborn = other
                kwargs['contributor'] = contributor
                mon.event('tfsa-contributor', contributor is not owner)
        token = rng.choice([None, None, None, 'special'])
        if token:
            # (Tokens of different kinds of account must differ.)
            token += cls.__name__
            kwargs['max_inflow_token'] = token
            if rng.random() < 0.4:
                # The same link, spelled out.
                del kwargs['max_inflow_token']
                kwargs.pop('contributor', None)
                kwargs['max_inflow_link'] = (contributor, token)
                mon.event('linked-directly')
        key = (cls, contributor, token)
        new = key not in pools
        pool = pools.setdefault(key, Pool(eco, law, cls, contributor, cborn))
        given = None
        if rng.random() < 0.4:
            given = gen.money(rng, 0, 1e5)
            kwargs[rng.choice(['contribution_room', 'max_inflow_limit'])] = \
                mod(given)
        elif new and rng.random() < 0.4:
            years = rng.sample(
                [y for y in range(year - 4, year + 8) if y != year], 2)
            pool.inputs = {y: gen.money(rng, 0, 5e4) for y in years}
        if pool.inputs:
            kwargs['inputs'] = {'contribution_room': {
                y: mod(v) for y, v in pool.inputs.items()}}
        if rng.random() < 0.1:
            refuse(rng, mon, mod, cls, owner)
        acct = cls(owner, balance=mod(gen.money(rng, 0, 1e5)),
                   rate=mod(gen.rate(rng, -0.2, 0.3)), nper=gen.nper(rng),
                   inflation_adjust=eco.arg(), **kwargs)
        pool.accounts.append(acct)
        pool.flows.append({})
        if given is not None:
            pool.room = given
        elif new:
            pool.initial(mon, year, acct.contribution_room)
        for member in pool.accounts:
            mon.close(member.contribution_room, pool.room, 'initial-shared')
            mon.check(member.contributor is contributor, 'contributor')
    pools = list(pools.values())
    mon.note(year=year, eco=eco.kind, mode=mod.name,
             pools=[(p.cls.__name__, p.born, len(p.accounts), p.inputs)
                    for p in pools])
    span = rng.choice([1, 2, 3, 5, 8, 12])
    active = 0
    for this in range(year, year + span):
        for pool in pools:
            for acct, flows in zip(pool.accounts, pool.flows):
                for _ in range(rng.choice([0, 1, 1, 2])):
                    when = gen.when(rng, words=False)
                    value = gen.money(rng, -1e4, 1e4)
                    if rng.random() < 0.4 and pool.room > 0:
                        # Use up (some of) the room that's left.
                        left = acct.max_inflows({mod(when): mod(1)})
                        used = sum(ref.inflows(f) for f in pool.flows)
                        mon.close(sum(left.values()),
                                  max(pool.room - used, 0), 'room-left',
                                  abs_=1e-4, year=this)
                        mon.event('room-left')
                        value = float(sum(left.values())) * rng.choice(
                            [1, rng.random()])
                    acct.add_transaction(mod(value), mod(when))
                    flows[when] = flows.get(when, 0) + value
                    active += value > 0
        incomes = {id(p): float(p.gross_income) for p, _ in people}
        accounts = [a for pool in pools for a in pool.accounts]
        movers = accounts + [p for p, _ in people]
        rng.shuffle(movers)
        for item in movers:
            while item.this_year <= this:
                item.next_year()
        for acct in accounts:
            mon.check(acct.this_year == this + 1, 'group-out-of-step',
                      year=acct.this_year)
        for person, _ in people:
            mon.check(person.this_year == this + 1, 'person-out-of-step')
        for pool in pools:
            pool.advance(mon, this, incomes[id(pool.person)],
                         {'mode': mod.name, 'cls': pool.cls.__name__})
    for pool in pools:
        for acct in pool.accounts:
            got = acct.contribution_room_history
            for y, want in pool.hist.items():
                mon.close(got[y], want, 'room-history', year=y)
    mon.interesting(span > 1 and active > 1)
    mon.obs([sorted(p.hist.items()) for p in pools])


WORKLOADS = [Workload('rooms', rooms, 8000, 120000)]
REQUIRED = {'RRSP-year': 2000, 'tfsa-contributor': 100, 'refused': 300,
            'linked-directly': 500,
            'TFSA-year': 2000, 'room-left': 1000,
            'inferred': 200, 'room-input': 200, 'too-old': 50,
            'accrual-capped': 100, 'own-rules': 1000}
