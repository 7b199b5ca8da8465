""" Groups of taxpayers with accounts, and what they should be taxed on. """

from vmon import gen, ref
from forecaster import Account, Debt, Person, recorded_property
from forecaster.canada.accounts import (
    RRSP, TFSA, TaxableAccount, PrincipleResidence)


class Itemized(Account):
    """ An account with deductions, credits and withholding of its own. """

    def __init__(self, *args, items=None, **kwargs):
        self.items = items or {}
        super().__init__(*args, **kwargs)

    def _item(self, name):
        return self.items.get(name, {}).get(
            self.this_year, self.precision_convert(0))

    @recorded_property
    def taxable_income(self):
        """ Listed income. """
        return self._item('income')

    @recorded_property
    def tax_deduction(self):
        """ Listed deductions. """
        return self._item('deduction')

    @recorded_property
    def tax_credit(self):
        """ Listed credits. """
        return self._item('credit')

    @recorded_property
    def tax_withheld(self):
        """ Listed withholding. """
        return self._item('withheld')


class Folk:
    """ Some people, their accounts, and an independent tally. """

    def __init__(self, rng, mod, year, count=None, canada=False, span=4):
        self.rng, self.mod, self.year = rng, mod, year
        self.canada = canada
        count = count or rng.choice([1, 2, 2, 3, 4])
        self.people, self.income, self.raises = [], [], []
        for i in range(count):
            income = 0 if rng.random() < 0.1 else gen.money(rng, 0, 2.5e5)
            if self.income and rng.random() < 0.15:
                income = self.income[0]
            rate = gen.rate(rng, -0.1, 0.3)
            self.people.append(Person(
                year, 'P%d' % i, 1960, retirement_date=2099,
                gross_income=mod(income), raise_rate=mod(rate), **mod.kw))
            self.income.append(income)
            self.raises.append(rate)
        self.spouse = [None] * count
        if count > 1 and rng.random() < 0.7:
            self.marry(0, 1)
        if count > 3 and rng.random() < 0.7:
            self.marry(2, 3)
        self.accounts = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            self.open(span)

    def marry(self, i, j):
        for k in (i, j):
            if self.spouse[k] is not None:
                self.spouse[self.spouse[k]] = None
        one, two = (i, j) if self.rng.random() < 0.5 else (j, i)
        self.people[one].spouse = self.people[two]
        self.spouse[i], self.spouse[j] = j, i

    def divorce(self, i):
        if self.spouse[i] is not None:
            self.people[i].spouse = None
            self.spouse[self.spouse[i]] = None
            self.spouse[i] = None

    def open(self, span=4):
        """ Opens an account for someone. """
        rng, mod = self.rng, self.mod
        kinds = ['Itemized', 'Itemized', 'Account', 'Debt']
        if self.canada:
            kinds += ['RRSP', 'RRSP', 'TFSA', 'Taxable', 'Residence']
        kind = rng.choice(kinds)
        owner = rng.randrange(len(self.people))
        person = self.people[owner]
        data = {'kind': kind, 'owner': owner, 'since': self.year,
                'balance': gen.money(rng, 0, 3e5),
                'rate': gen.rate(rng, -0.1, 0.3), 'nper': gen.nper(rng),
                'txns': {}}
        kwargs = dict(mod.kw, rate=mod(data['rate']), nper=data['nper'],
                      balance=mod(data['balance']), initial_year=self.year)
        if kind == 'Itemized':
            data['items'] = {
                name: {y: gen.money(rng, 0, high)
                       for y in range(self.year, self.year + span + 1)
                       if rng.random() < 0.7}
                for name, high in (('income', 1e5), ('deduction', 2e4),
                                   ('credit', 1e4), ('withheld', 1e4))}
            acct = Itemized(person, items={
                n: {y: mod(v) for y, v in d.items()}
                for n, d in data['items'].items()}, **kwargs)
        elif kind == 'Debt':
            data['rate'] = abs(data['rate'])
            acct = Debt(person, **dict(kwargs, rate=mod(data['rate'])))
            data['balance'] = -data['balance']
        elif kind == 'Account':
            acct = Account(owner=person, **kwargs)
        elif kind == 'Residence':
            acct = PrincipleResidence(owner=person, **kwargs)
        elif kind == 'Taxable':
            data['acb'] = round(data['balance'] * rng.uniform(0.1, 1.5), 2)
            acct = TaxableAccount(person, acb=mod(data['acb']), **kwargs)
        elif kind == 'TFSA':
            acct = TFSA(person, contribution_room=mod(1e5), **kwargs)
        else:
            acct = RRSP(person, contribution_room=mod(1e5), **kwargs)
        data['account'] = acct
        self.accounts.append(data)

    def trade(self):
        """ Records a few (affordable) transactions. """
        rng, mod = self.rng, self.mod
        for data in self.accounts:
            if data['kind'] == 'Debt':
                continue
            for _ in range(rng.choice([0, 1, 1, 2])):
                when = gen.when(rng, words=False)
                # Deposits first keep every withdrawal affordable.
                value = gen.money(rng, 0, 4e4)
                low = min(when, *data['txns']) if data['txns'] else when
                if rng.random() < 0.6 and data['balance'] > 100:
                    used = -ref.outflows(data['txns'])
                    base = data['balance'] * min(1, ref.accum(
                        1, data['rate'], data['nper']))
                    value = -max(base - used - 50, 0) * rng.choice(
                        [0.9, 0.5, 0.1]) * 0.9
                    value = round(value, 2)
                del low
                data['account'].add_transaction(mod(value), mod(when))
                data['txns'][when] = data['txns'].get(when, 0) + value

    def tally(self, i):
        """ Income, deduction, credit, account withholding of person i. """
        income, deduction, credit, held = self.income[i], 0.0, 0.0, 0.0
        pension = 0.0
        for data in self.accounts:
            if data['owner'] != i:
                continue
            kind, txns = data['kind'], data['txns']
            if kind == 'Itemized':
                get = {n: d.get(self.year, 0)
                       for n, d in data['items'].items()}
                income += get['income']
                deduction += get['deduction']
                credit += get['credit']
                held += get['withheld']
            elif kind == 'Account':
                income += max(ref.returns(
                    data['balance'], data['rate'], data['nper'], txns), 0)
            elif kind == 'RRSP':
                income -= ref.outflows(txns)
                deduction += ref.inflows(txns)
                held += float(data['account'].tax_withheld)
                pension -= ref.outflows(txns)
            elif kind == 'Taxable':
                from checks.c09 import year_of
                income += year_of(data['balance'], data['acb'],
                                  data['rate'], data['nper'], txns)[0] / 2
        return {'income': income, 'deduction': deduction, 'credit': credit,
                'withheld': held, 'pension': pension}

    def next_year(self):
        # (People's records cover their accounts, so people go first.)
        rng, items = self.rng, [d['account'] for d in self.accounts]
        rng.shuffle(items)
        for item in self.people + items:
            while item.this_year <= self.year:
                item.next_year()
        for data in self.accounts:
            if data['kind'] == 'Taxable':
                from checks.c09 import year_of
                data['acb'] = year_of(
                    data['balance'], data['acb'], data['rate'],
                    data['nper'], data['txns'])[1]
            data['balance'] = ref.year_end(
                data['balance'], data['rate'], data['nper'], data['txns'])
            data['txns'] = {}
        self.income = [
            v * (1 + r) for v, r in zip(self.income, self.raises)]
        self.year += 1

    def describe(self):
        return {
            'incomes': list(self.income), 'spouses': list(self.spouse),
            'accounts': [{k: v for k, v in d.items() if k != 'account'}
                         for d in self.accounts], 'mode': self.mod.name}

    def gather(self, picked):
        """ Some people, as any kind of collection. """
        rng = self.rng
        group = [self.people[i] for i in picked]
        rng.shuffle(group)
        return rng.choice([list, tuple, set, frozenset])(group)
