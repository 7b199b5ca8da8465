""" The same household, in another unit of money or another century.

A `View` multiplies amounts of money and moves years.  It is applied to the
description of a household (and to the law, where that names amounts and
years), and to the picture taken of a forecast.
"""

from copy import deepcopy
from vmon import gen
from forecaster.canada.constants import ConstantsCanada

RATES = ('rate_history', 'raise_rate_history')
FACTORS = [2, 4, 0.5, 0.25, 16, 1024, 2 ** 20]
SHIFTS = [1, -1, 3, 28, -30, 100, 400, -250, -500, 1000, 3000]


class View:
    """ Another unit of money, and another beginning of time. """

    def __init__(self, factor=1, shift=0):
        self.factor, self.shift = factor, shift

    def money(self, val):
        if val is None or isinstance(val, str):
            return val
        return val * self.factor

    def year(self, val):
        return val + self.shift

    def years(self, val):
        """ A table by year, or a single value. """
        if isinstance(val, dict):
            return {self.year(y): x for y, x in val.items()}
        return val

    def brackets(self, val):
        """ {year: {threshold: rate}}. """
        return {self.year(y): {self.money(k): r for k, r in x.items()}
                for y, x in val.items()}

    def amounts(self, val):
        """ {year: amount}. """
        return {self.year(y): self.money(x) for y, x in val.items()}

    # -- descriptions ------------------------------------------------------

    def _put(self, data, *names):
        for name in names:
            if data.get(name) is not None:
                data[name] = self.money(data[name])

    def spec(self, spec):
        """ The description of the same household, seen this way. """
        out = deepcopy(spec)
        out['year'] = self.year(spec['year'])
        out['scenario'] = {
            k: self.years(v) for k, v in spec['scenario'].items()}
        tax = out['tax']
        tax['tax_brackets'] = self.brackets(tax['tax_brackets'])
        tax['personal_deduction'] = self.amounts(tax['personal_deduction'])
        tax['credit_rate'] = self.years(tax['credit_rate'])
        for person in out['people']:
            year, _, rest = person['born'].partition('-')
            person['born'] = '%04d-%s' % (self.year(int(year)), rest)
            person['retire'] = self.year(person['retire'])
            person['raise'] = self.years(person['raise'])
            self._put(person, 'income')
        for acct in out['accounts']:
            acct['rate'] = self.years(acct['rate'])
            self._put(acct, 'balance', 'room')
        for debt in out['debts']:
            self._put(debt, 'balance', 'minimum', 'accel')
        for name in ('living', 'retired_living'):
            if name in out:
                self._put(out[name], 'base_amount')
        self._put(out, 'minimum_living')
        if spec['canada']:
            out['constants'] = self.law(
                gen.DECIMAL if spec['hp'] else gen.FLOAT)
        return out

    def law(self, mod):
        """ Canadian constants, seen this way. """
        law = ConstantsCanada(**mod.kw)
        other = View(mod(self.factor), self.shift)
        for name, way in (
                ('RRSP_ACCRUAL_MAX', other.amounts),
                ('RRSP_WITHHOLDING_TAX_RATE', other.brackets),
                ('TFSA_ANNUAL_ACCRUAL', other.amounts),
                ('TFSA_ACCRUAL_ROUNDING_FACTOR', other.money)):
            setattr(law, name, way(getattr(law, name)))
        for name, way in (
                ('TAX_BRACKETS', other.brackets),
                ('TAX_PERSONAL_DEDUCTION', other.amounts),
                ('TAX_CREDIT_RATE', other.years),
                ('TAX_PENSION_CREDIT', other.amounts),
                ('TAX_SPOUSAL_AMOUNT', other.amounts)):
            setattr(law, name, {
                place: way(table)
                for place, table in getattr(law, name).items()})
        return law

    # -- pictures ----------------------------------------------------------

    def _seen(self, val):
        if isinstance(val, tuple):
            return tuple((name, self._seen(x)) for name, x in val)
        if isinstance(val, (int, float)) and not isinstance(val, bool):
            return val * self.factor
        return val

    def picture(self, pic):
        """ What a picture should look like, seen this way. """
        return {
            (who, attr, self.year(year)):
            val if attr in RATES else self._seen(val)
            for (who, attr, year), val in pic.items()}
