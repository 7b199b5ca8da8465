""" Inflation, in every form the code accepts, with a reference. """

from forecaster import Scenario


class Economy:
    """ Year-by-year inflation over a wide range of years. """

    FIRST, LAST = 1985, 2180

    def __init__(self, rng, mod, allow_none=True):
        kinds = ['scenario', 'scenario', 'dict', 'callable']
        if allow_none:
            kinds.append('none')
        self.kind = rng.choice(kinds)
        self.mod = mod
        flat = round(rng.uniform(-0.01, 0.08), 3)
        self.rates = {
            y: flat if rng.random() < 0.5 else round(
                rng.uniform(-0.02, 0.1), 3)
            for y in range(self.FIRST, self.LAST)}
        if self.kind == 'none':
            self.rates = {y: 0 for y in self.rates}
        self.level = {self.FIRST: 1.0}
        for y in range(self.FIRST, self.LAST):
            self.level[y + 1] = self.level[y] * (1 + self.rates[y])
        self.scenario = None

    def factor(self, target, base):
        """ Money of `base` expressed in money of `target`. """
        return self.level[target] / self.level[base]

    def arg(self):
        """ An `inflation_adjust` argument. """
        mod = self.mod
        if self.kind == 'none':
            return None
        if self.kind == 'scenario':
            self.scenario = Scenario(
                initial_year=2000, num_years=60,
                inflation={y: mod(r) for y, r in self.rates.items()},
                stock_return=mod(0), bond_return=mod(0),
                other_return=mod(0), management_fees=mod(0))
            return self.scenario.inflation_adjust
        table = {y: mod(v) for y, v in self.level.items()}
        if self.kind == 'dict':
            return table
        first = self.FIRST

        def adjust(target_year, base_year=None):
            base = first if base_year is None else base_year
            return table[target_year] / table[base]
        return adjust

    def extend(self, table, year):
        """ The value for `year`: as given, or the nearest adjusted. """
        from vmon import ref
        if year in table:
            return table[year]
        base = ref.nearest(table, year)
        return table[base] * self.factor(year, base)
