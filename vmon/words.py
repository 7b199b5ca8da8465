""" The same inputs in other words: forms that mean the same. """

from datetime import date, datetime

from forecaster import Timing
from forecaster.tax import TaxMulti
from forecaster.utility import FREQUENCY_MAPPING

from vmon.world import Plain


class Lazily(dict):
    """ A mapping of years to values, worked out when asked for. """

    def __init__(self, start, func):
        super().__init__({start: func(start)})
        self.func = func

    def __missing__(self, key):
        return self.func(key)


class Lookup:
    """ A callable, but not a function. """

    def __init__(self, vals):
        self.vals = vals

    def __call__(self, year):
        return self.vals[year]


class Otherwise(Plain):
    """ Puts inputs in other words at random; counts what was done. """

    def __init__(self, rng, mod, mon, years, share=0.5, exact=False):
        self.rng, self.mod, self.mon = rng, mod, mon
        self.first, self.count = years
        self.share = share
        # Whether results have to be the same to the last bit.
        self.exact = exact
        self.said = 0

    def _pick(self, name, val, forms):
        """ One of several ways (thunks) of saying `val`. """
        if not forms or self.rng.random() >= self.share:
            return val
        index = self.rng.randrange(len(forms))
        self.mon.event('said:%s' % name)
        self.said += 1
        return forms[index]()

    def _span(self, before=60):
        return range(self.first - before, self.first + self.count + 60)

    def amount(self, val):
        if isinstance(val, bool) or val is None:
            return val
        if self.mod.hp is not None:
            return self._pick('amount', val, [
                lambda: val + self.mod.hp('0.00') if val else val])
        forms = [lambda: float(val)]
        if val == int(val):
            forms.append(lambda: int(val))
        return self._pick('amount', val, forms)

    def nper(self, val):
        # (None is annual, as the default.)
        num = FREQUENCY_MAPPING[val] if isinstance(val, str) else val
        forms = [lambda: code for code, n in FREQUENCY_MAPPING.items()
                 if n == num]
        codes = [code for code, n in FREQUENCY_MAPPING.items() if n == num]
        forms = [lambda: self.rng.choice(codes)] if codes else []
        if num is not None:
            forms += [lambda: int(num), lambda: float(num),
                      lambda: self.mod(num)]
        if num == 1:
            forms.append(lambda: None)
        return self._pick('nper', val, forms)

    def rate(self, val):
        if callable(val):
            return self._pick('rate', val, [
                lambda: (lambda year: val(year))])
        if isinstance(val, dict):
            return self._pick('rate', val, [
                lambda: val.__getitem__, lambda: Lookup(dict(val)),
                lambda: dict(reversed(list(val.items()))),
                lambda: (lambda year: val[year])])
        return self._pick('rate', val, [
            lambda: {y: val for y in self._span()},
            lambda: (lambda year: val), lambda: (lambda *_: val),
            lambda: Lookup({y: val for y in self._span()})])

    def scenario(self, val, name):
        first, last = self.first, self.first + self.count + 3
        if isinstance(val, dict):
            forms = [lambda: dict(reversed(list(val.items()))),
                     lambda: dict(val)]
            if name != 'inflation' and all(
                    y in val for y in range(first, last)):
                forms += [lambda: [val[y] for y in range(first, last)],
                          lambda: tuple(val[y] for y in range(first, last))]
            return self._pick('scenario', val, forms)
        forms = [lambda: {y: val for y in self._span(200)}]
        if name != 'inflation':
            forms += [lambda: [val] * (last - first),
                      lambda: (val,) * (last - first)]
        return self._pick('scenario', val, forms)

    def timing(self, val):
        """ Proportional weights, in any order and of either sign. """
        if val is None:
            return None
        if not isinstance(val, dict):
            words = {0: 'start', 1: 'end'}
            forms = [lambda: {val: self.mod(1)}, lambda: Timing(
                val, **self.mod.kw), lambda: {val: self.mod(-3)}]
            if val in words:
                forms.append(lambda: words[val])
            return self._pick('timing', val, forms)

        def scaled(factor):
            items = list(val.items())
            if not self.exact:
                self.rng.shuffle(items)
            return {k: v * self.mod(factor) for k, v in items}
        two, four = (10, 0.1) if self.mod.hp else (2, 0.25)
        forms = [lambda: scaled(two), lambda: scaled(four),
                 lambda: scaled(1), lambda: scaled(-1),
                 lambda: Timing(scaled(-two), **self.mod.kw),
                 lambda: Timing(scaled(two), **self.mod.kw)]
        if len(val) == 1:
            (when, _), = val.items()
            forms += [lambda: when] * 3 + [
                lambda: Timing(when, **self.mod.kw)]
            if when in (0, 1):
                word = 'start' if when == 0 else 'end'
                forms += [lambda: word] * 3
        return self._pick('timing', val, forms)

    def born(self, val):
        day = datetime.strptime(val, '%Y-%m-%d')
        return self._pick('born', val, [
            lambda: day, lambda: date(day.year, day.month, day.day),
            lambda: day.strftime('%d %B %Y'), lambda: day.strftime('%Y%m%d'),
            lambda: day.strftime('%B %d, %Y'),
            lambda: day.isoformat()])

    def retire(self, val, born):
        day = datetime.strptime(born, '%Y-%m-%d').replace(year=val)
        return self._pick('retire', val, [
            lambda: str(val), lambda: day, lambda: day.date(),
            lambda: day.strftime('%d %b %Y')])

    def year(self, val):
        return self._pick('year', val, [lambda: float(val)])

    def inflation(self, func):
        if func is None:
            return self._pick('inflation', None, [
                lambda: (lambda target=None, base=None: 1)])
        return self._pick('inflation', func, [
            lambda: (lambda target, base=None: func(target)
                     if base is None else func(target, base))])

    def table(self, func):
        """ For those who also take a mapping of years to price levels. """
        return self._pick('inflation-table', self.inflation(func), [
            ] if self.exact else [
            lambda: Lazily(self.first, (
                lambda _: self.mod(1)) if func is None else (
                lambda year: self.mod(1) * func(year, self.first)))])

    def brackets(self, val):
        def redundant():
            out = {}
            for year, table in val.items():
                items = list(table.items())
                keys = sorted(table)
                low = self.rng.choice(keys)
                high = min((k for k in keys if k > low), default=None)
                extra = low + self.mod(7777) if high is None else (
                    low + high) / self.mod(2)
                items.append((extra, table[low]))
                self.rng.shuffle(items)
                out[year] = dict(items)
            return out

        def shuffled():
            return {y: dict(reversed(list(t.items())))
                    for y, t in val.items()}
        return self._pick('brackets', val, [shuffled] if self.exact else [
            redundant, shuffled])

    def tax(self, val):
        if type(val).__name__ != 'Tax':
            return val
        return self._pick('tax', val, [
            lambda: TaxMulti([val]), lambda: TaxMulti((val,)),
            lambda: TaxMulti(iter([val]))])

    def strategy(self, val, cls):
        return self._pick('strategy', val, [
            lambda: cls.strategies[val]])

    def weights(self, val):
        items = list(val.items())
        self.rng.shuffle(items)
        scale = self.mod(self.rng.choice([0.5, 2, 16, 1]))
        return self._pick('weights', val, [
            lambda: {k: v * scale for k, v in items}])

    def couple(self, pair):
        return self._pick('couple', pair, [lambda: pair[::-1]])

    # Values given in advance, as inputs.

    def _in_advance(self, kwargs, year, now, always):
        out = dict(kwargs)
        inputs = {}
        for name in now:
            if name in out:
                val = out[name]
                got = self._pick('input-' + name, None, [lambda: {year: val}])
                if got:
                    inputs[name] = got
                    del out[name]
        for name, prop in always.items():
            val = out.get(name)
            if val is None or callable(val):
                continue
            got = self._pick('input-' + prop, None, [
                lambda: dict(val) if isinstance(val, dict)
                else {y: val for y in self._span(1)}])
            if got:
                inputs[prop] = got
                if self.rng.random() < 0.5 and name != 'rate':
                    del out[name]
                elif name == 'rate':
                    # (Never asked for.)
                    out[name] = lambda year: self.mod(0.77)
        if inputs or self.rng.random() < 0.3:
            out['inputs'] = inputs
        return out

    def person(self, kwargs, year):
        return self._in_advance(
            kwargs, year, ['gross_income'], {'raise_rate': 'raise_rate'})

    def account(self, kwargs, year):
        return self._in_advance(kwargs, year, ['balance'], {'rate': 'rate'})
