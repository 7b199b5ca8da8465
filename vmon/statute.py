""" Rules for registered accounts: the statutory ones, or others. """

import math
from vmon import gen, ref
from forecaster.canada.constants import ConstantsCanada

WITHHOLD = {2017: {0: 0.1, 5000: 0.2, 15000: 0.3}}
MINIMUM = {
    71: 0.0528, 72: 0.0540, 73: 0.0553, 74: 0.0567, 75: 0.0582, 76: 0.0598,
    77: 0.0617, 78: 0.0636, 79: 0.0658, 80: 0.0682, 81: 0.0708, 82: 0.0738,
    83: 0.0771, 84: 0.0808, 85: 0.0851, 86: 0.0899, 87: 0.0955, 88: 0.1021,
    89: 0.1099, 90: 0.1192, 91: 0.1306, 92: 0.1449, 93: 0.1634, 94: 0.1879,
    95: 0.2000}
ACCRUAL_MAX = {2017: 25750.55}
TFSA_TABLE = {
    2009: 5000, 2010: 5000, 2011: 5000, 2012: 5000, 2013: 5500,
    2014: 5500, 2015: 10000, 2016: 5500, 2017: 5500}


class Statute:
    """ The rules in force, as plain data. """

    own = False
    accrual_rate, accrual_max = 0.18, ACCRUAL_MAX
    conversion_age, minimum, withhold = 71, MINIMUM, WITHHOLD
    tfsa, tfsa_age, tfsa_unit = TFSA_TABLE, 18, 500

    def least(self, age, balance):
        """ The least that a RRIF pays out. """
        if age in self.minimum:
            return self.minimum[age] * balance
        if age > max(self.minimum):
            return max(self.minimum.values()) * balance
        return balance / (90 - age)

    def withheld(self, income, year, eco=None, exact=False):
        """ Possible amounts withheld on `income` of withdrawals. """
        base = ref.nearest(self.withhold, year)
        adjusted = income
        if eco is not None:
            adjusted *= eco.factor(base, year)
        rates, out = self.withhold[base], set()
        for nudge in (0,) if exact else (-1e-6, 0, 1e-6):
            below = [b for b in rates if b < adjusted + nudge]
            out.add(income * rates[max(below, default=min(rates))])
        return out

    def round_tfsa(self, amount):
        """ Possible roundings of a TFSA accrual. """
        units = amount / self.tfsa_unit
        options = {round(units) * self.tfsa_unit}
        if abs(units - math.floor(units) - 0.5) < 1e-9:
            options |= {math.floor(units) * self.tfsa_unit,
                        math.ceil(units) * self.tfsa_unit}
        return sorted(options)

    def arg(self, mod):
        """ Keyword arguments for an account. """
        return {}


class OwnStatute(Statute):
    """ Other rules, passed to the accounts. """

    own = True

    def __init__(self, rng):
        def years(*counts):
            return rng.sample(range(2000, 2040), rng.choice(counts))
        self.accrual_rate = round(rng.uniform(0.02, 0.5), 3)
        self.accrual_max = {
            y: gen.money(rng, 100, 4e4) for y in years(1, 2, 4)}
        self.conversion_age = rng.randint(66, 75)
        first, rate = rng.randint(60, 76), rng.uniform(0.03, 0.06)
        self.minimum = {}
        for age in range(first, first + rng.randint(1, 25)):
            self.minimum[age] = round(rate, 4)
            rate *= rng.uniform(1.01, 1.06)
        self.minimum = gen.shuffled(rng, self.minimum)
        self.withhold = {}
        for year in years(1, 2, 3):
            level = rng.choice([0, 0, 1000])
            table = {}
            for _ in range(rng.randint(1, 4)):
                table[level] = round(rng.uniform(0, 0.5), 3)
                level += rng.choice([500, 2500, 5000, 10000])
            self.withhold[year] = gen.shuffled(rng, table)
        start = rng.randint(2005, 2012)
        self.tfsa_unit = rng.choice([1, 100, 500, 1000])
        self.tfsa = gen.shuffled(rng, {
            y: rng.randint(1, 30) * self.tfsa_unit
            for y in range(start, start + rng.randint(1, 10))})
        self.tfsa_age = rng.choice([16, 18, 19, 21])

    def arg(self, mod):
        made = ConstantsCanada(**mod.kw)

        def put(name, value):
            def conv(val):
                if isinstance(val, dict):
                    return {k: conv(v) for k, v in val.items()}
                return mod(val)
            setattr(made, name, conv(value))
        put('RRSP_ACCRUAL_RATE', self.accrual_rate)
        put('RRSP_ACCRUAL_MAX', self.accrual_max)
        put('RRSP_RRIF_WITHDRAWAL_MIN', self.minimum)
        put('RRSP_WITHHOLDING_TAX_RATE', {
            y: {mod(k): v for k, v in table.items()}
            for y, table in self.withhold.items()})
        put('TFSA_ANNUAL_ACCRUAL', self.tfsa)
        made.TFSA_ACCRUAL_ROUNDING_FACTOR = mod(self.tfsa_unit)
        made.TFSA_ELIGIBILITY_AGE = self.tfsa_age
        made.RRSP_RRIF_CONVERSION_AGE = self.conversion_age
        return {'constants': made}


def statute(rng, share=0.3):
    """ Rules, mostly the statutory ones. """
    return OwnStatute(rng) if rng.random() < share else Statute()
