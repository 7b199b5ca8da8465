""" Reference tax calculations on plain numbers. """

from vmon import gen, ref
from forecaster import Tax


class RefTax:
    """ One jurisdiction: brackets, deduction, credit rate by year. """

    def __init__(self, eco, brackets, deduction=None, credit_rate=None):
        self.eco = eco
        self._brackets = brackets
        self._deduction = deduction
        self._credit_rate = credit_rate

    def brackets(self, year):
        """ Sorted [(threshold, rate)] applicable to `year`. """
        base = ref.nearest(self._brackets, year)
        factor = 1 if base == year else self.eco.factor(year, base)
        return sorted(
            (k * factor, r) for k, r in self._brackets[base].items())

    def deduction(self, year):
        if not self._deduction:
            return 0.0
        return self.eco.extend(self._deduction, year)

    def credit_rate(self, year):
        if not self._credit_rate:
            return 1.0
        return self._credit_rate[ref.nearest(self._credit_rate, year)]

    def gross(self, income, year):
        """ Tax on `income`, before credits. """
        brackets = self.brackets(year)
        if income <= brackets[0][0]:
            return (income - brackets[0][0]) * brackets[0][1]
        tax = 0.0
        for i, (low, rate) in enumerate(brackets):
            high = brackets[i + 1][0] if i + 1 < len(brackets) else income
            if income > low:
                tax += (min(income, high) - low) * rate
        return tax

    def money(self, income, year, deduction=0, credit=0):
        """ Tax payable, never negative. """
        return max(
            self.gross(income - deduction, year)
            - credit * self.credit_rate(year), 0.0)

    def marginal(self, income, year):
        """ All (threshold, rate) that may tax the last of `income`. """
        brackets = self.brackets(year)
        found = set()
        # (Thresholds inferred from other years' are subject to rounding.)
        for nudge in (0,) if year in self._brackets else (-1e-6, 0, 1e-6):
            found.add(max(
                (b for b in brackets if b[0] < income + nudge),
                default=brackets[0]))
        return found


def random_brackets(rng, floor=None):
    """ A `{threshold: rate}` table. """
    level = rng.choice(
        [0, 0, 0, 0, 5000, -2000]) if floor is None else floor
    out = {}
    flat = rng.random() < 0.2
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        out[level] = round(rng.uniform(0, 0.6), 3)
        if rng.random() < 0.1:
            out[level] = rng.choice([0, 1, 0.5])
        if flat and out:
            out[level] = out[min(out)]
        level = round(level + rng.choice(
            [rng.uniform(10, 2000), rng.uniform(5e3, 5e4),
             rng.choice([1e4, 2.5e4])]), rng.choice([0, 2]))
    return gen.shuffled(rng, out)


def random_tables(rng, year):
    """ Brackets, deductions and credit rates, as plain data. """
    def years(count):
        return rng.sample(range(year - 8, year + 9), count)
    floor = rng.choice([None, 0])
    brackets = {y: random_brackets(rng, floor)
                for y in years(rng.choice([1, 1, 2, 3]))}
    deduction = credit_rate = None
    if rng.random() < 0.7:
        deduction = {y: gen.money(rng, 0, 2e4)
                     for y in years(rng.choice([1, 2, 3]))}
    if rng.random() < 0.7:
        credit_rate = {y: round(rng.uniform(0, 1), 3)
                       for y in years(rng.choice([1, 2, 3]))}
    return brackets, deduction, credit_rate


def conv_tables(mod, tables):
    """ Keyword arguments for `Tax` in the mode's number type. """
    brackets, deduction, credit_rate = tables
    kwargs = {'tax_brackets': {
        y: {mod(k): mod(r) for k, r in b.items()}
        for y, b in brackets.items()}}
    if deduction is not None:
        kwargs['personal_deduction'] = {
            y: mod(v) for y, v in deduction.items()}
    if credit_rate is not None:
        kwargs['credit_rate'] = {y: mod(v) for y, v in credit_rate.items()}
    return kwargs


def build(rng, mod, eco, year, **extra):
    """ A random `Tax`, with its reference and the arguments given. """
    tables = random_tables(rng, year)
    kwargs = conv_tables(mod, tables)
    tax = Tax(inflation_adjust=eco.arg(), **kwargs, **extra, **mod.kw)
    return tax, RefTax(eco, *tables), kwargs


def income(rng, reference, year):
    """ An amount of income, often close to where something changes. """
    brackets = reference.brackets(year)
    kind = rng.random()
    if kind < 0.35:
        low = rng.choice(brackets)[0]
        return low + rng.choice(
            [0, 0.01, -0.01, 1, -1, rng.uniform(-2e3, 2e3)])
    if kind < 0.4:
        return 0
    if kind < 0.45:
        return -gen.money(rng, 0, 5e4)
    if kind < 0.5:
        return rng.uniform(1e6, 1e9)
    return gen.money(rng, 0, 3e5)
