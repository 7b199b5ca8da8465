""" C03: what a ledger records, and that records never change. """

from collections.abc import Mapping
from vmon import gen, world
from vmon.core import Workload
from forecaster import (
    Account, Debt, Forecast, Ledger, Person, recorded_property,
    recorded_property_cached)
from forecaster.accounts import LinkedLimitAccount
from forecaster.canada import (
    PrincipleResidence, RegisteredAccount, RRSP, TaxableAccount, TFSA)

PROPERTY = 'C03'
SCALE = 8
RULE = (
    'Random operation sequences (read, set, delete, clear cache, history, '
    'next year, change of underlying state) on ledger classes with every '
    'kind of recorded property and random manual entries, compared with a '
    'model; and whole household forecasts in which every recorded history '
    'is photographed at the end of each year and compared with all later '
    'photographs; and accounts advanced ahead of their owners. '
    'Non-trivial: at least two years with writes between, or '
    'two photographs.')


class Books(Ledger):
    """ A ledger with one property of each kind. """

    def __init__(self, *args, **kwargs):
        self.state = 0
        self.stored = {'custom': None, 'custom_cached': None}
        self.deleted = 0
        super().__init__(*args, **kwargs)

    @recorded_property
    def plain(self):
        return ('plain', self.state)

    @recorded_property_cached
    def cached(self):
        return ('cached', self.state, self.this_year)

    @recorded_property
    def custom(self):
        return ('custom', self.stored['custom'])

    @custom.setter
    def custom(self, val):
        self.stored['custom'] = val

    @recorded_property_cached
    def custom_cached(self):
        return ('custom_cached', self.stored['custom_cached'], self.state)

    @custom_cached.setter
    def custom_cached(self, val):
        self.stored['custom_cached'] = val

    @recorded_property
    def removable(self):
        return ('removable', self.deleted)

    @removable.deleter
    def removable(self):
        self.deleted += 1

    @recorded_property
    def derived(self):
        return ('derived', self.plain, self.cached)


class MoreBooks(Books):
    """ Overrides one property and adds another. """

    @recorded_property
    def plain(self):
        return ('more plain', self.state)

    @recorded_property_cached
    def extra(self):
        return ('extra', self.state, self.plain)


class Leaf(MoreBooks):
    """ Adds nothing. """


class OtherBooks(Books):
    """ A sibling class with a property of its own. """

    @recorded_property_cached
    def plain(self):
        return ('other plain', self.state)


CACHED = {
    'Books': {'cached', 'custom_cached'},
    'MoreBooks': {'cached', 'custom_cached', 'extra'},
    'OtherBooks': {'cached', 'custom_cached', 'plain'}}
CACHED['Leaf'] = CACHED['MoreBooks']
NAMES = ['plain', 'cached', 'custom', 'custom_cached', 'removable',
         'derived']


class Model:
    """ What the ledger should hold. """

    def __init__(self, cls, year, inputs):
        self.cls = cls.__name__
        self.names = NAMES + (
            ['extra'] if cls in (MoreBooks, Leaf) else [])
        self.cached = CACHED[self.cls]
        self.year = year
        self.state = 0
        self.stored = {'custom': None, 'custom_cached': None}
        self.deleted = 0
        self.inputs = inputs
        self.hist = {n: dict(inputs.get(n, {})) for n in self.names}

    def compute(self, name):
        if name == 'plain':
            word = {'Books': 'plain', 'OtherBooks': 'other plain'}.get(
                self.cls, 'more plain')
            return (word, self.state)
        if name == 'cached':
            return ('cached', self.state, self.year)
        if name == 'custom':
            return ('custom', self.stored['custom'])
        if name == 'custom_cached':
            return ('custom_cached', self.stored['custom_cached'],
                    self.state)
        if name == 'removable':
            return ('removable', self.deleted)
        if name == 'extra':
            return ('extra', self.state, self.read('plain'))
        return ('derived', self.read('plain'), self.read('cached'))

    def read(self, name):
        hist = self.hist[name]
        if self.year in hist:
            return hist[self.year]
        val = self.compute(name)
        if name in self.cached:
            hist[self.year] = val
        return val

    def fixed(self, name):
        return self.year in self.inputs.get(name, {})

    def write(self, name, val):
        if self.fixed(name):
            return
        if name in self.stored:
            self.hist[name].pop(self.year, None)
            self.stored[name] = val
        else:
            self.hist[name][self.year] = val

    def delete(self, name):
        if self.fixed(name):
            return
        self.hist[name].pop(self.year, None)
        if name == 'removable':
            self.deleted += 1

    def history(self, name):
        out = dict(self.hist[name])
        out[self.year] = self.read(name)
        return out

    def clear_cache(self):
        for name in self.cached:
            self.delete(name)

    def next_year(self):
        for name in self.names:
            self.hist[name][self.year] = self.read(name)
        self.year += 1


def operations(rng, mon):
    pairs = []
    for _ in range(rng.choice([1, 1, 2])):
        cls = rng.choice([Books, MoreBooks, Leaf, OtherBooks])
        year = rng.choice([1990, 2000, 2020])
        inputs = {}
        names = NAMES + (['extra'] if cls in (MoreBooks, Leaf) else [])
        for name in rng.sample(names, rng.choice([0, 0, 1, 2, 3])):
            inputs[name] = {
                y: ('input', name, y)
                for y in rng.sample(range(year + 1, year + 6), 2)}
        given = {k: dict(v) for k, v in inputs.items()}
        obj = cls(year, inputs=given) if given or rng.random() < 0.5 \
            else cls(initial_year=year)
        pairs.append((obj, Model(cls, year, inputs), given))
    photos, years, writes = [], 0, 0
    log = []
    for step in range(rng.randint(5, 40)):
        obj, model, given = rng.choice(pairs)
        name = rng.choice(model.names)
        op = rng.random()
        info = dict(name=name, cls=model.cls, inputs=model.inputs, log=log)
        if op < 0.3:
            log.append(('read', model.year, name))
            got = getattr(obj, name)
            mon.check(got == model.read(name), 'read', got=got,
                      want=model.read(name), **info)
            mon.event('read')
        elif op < 0.45:
            log.append(('set', model.year, name, step))
            setattr(obj, name, ('set', step))
            model.write(name, ('set', step))
            if model.fixed(name):
                mon.event('write-over-input')
            writes += 1
        elif op < 0.55:
            log.append(('delete', model.year, name))
            delattr(obj, name)
            model.delete(name)
            mon.event('delete')
        elif op < 0.62:
            log.append(('clear_cache', model.year))
            obj.clear_cache()
            model.clear_cache()
            mon.event('clear-cache')
        elif op < 0.75:
            log.append(('history', model.year, name))
            got = dict(getattr(obj, name + '_history'))
            want = model.history(name)
            mon.check(got == want, 'history', got=got, want=want, **info)
            photos.append((obj, name, model.year, {
                k: v for k, v in got.items() if k < model.year}))
            mon.event('history')
        elif op < 0.85:
            log.append(('state', model.year, step))
            obj.state = model.state = step
        else:
            log.append(('next_year', model.year))
            obj.next_year()
            model.next_year()
            years += 1
            mon.event('year')
            mon.check(obj.this_year == model.year, 'this_year')
    for obj, model, given in pairs:
        for name in model.names:
            want = model.history(name)
            got = dict(getattr(obj, name + '_history'))
            mon.check(got == want, 'final-history', name=name, got=got,
                      want=want, log=log, inputs=model.inputs)
        mon.check(given == model.inputs, 'inputs-mutated', given=given)
    for obj, name, year, past in photos:
        now = dict(getattr(obj, name + '_history'))
        mon.check(all(now.get(y) == v for y, v in past.items()),
                  'record-changed', name=name, past=past, now=now, log=log)
    mon.obs(log)
    mon.note(log=log[:20])
    mon.interesting(years > 1 and writes > 0)


# -- whole forecasts ---------------------------------------------------

def plain(val):
    """ An immutable picture of a recorded value. """
    if isinstance(val, Mapping):
        return tuple(sorted(
            (key_name(k), plain(val[k])) for k in val.keys()))
    if val is None or isinstance(val, (int, str, bool)):
        return val
    return float(val)


def key_name(key):
    if key is None:
        return 'outside'
    if hasattr(key, 'verif_tag'):
        return '%s-%d' % (type(key).__name__, key.verif_tag)
    if isinstance(key, Mapping):
        return 'available'
    return '%015.9f' % float(key)


def photograph(named):
    """ `{(object, property, year): value}` up to the current year. """
    out = {}
    for name, obj in named:
        for attr in dir(type(obj)):
            if not attr.endswith('_history') or attr.startswith('_'):
                continue
            for year, val in dict(getattr(obj, attr)).items():
                if year <= obj.this_year:
                    out[name, attr, year] = plain(val)
    return out


def everyone(forecast, wld):
    named = [('forecast', forecast)]
    for key in ('income', 'living_expenses', 'saving', 'withdrawal', 'tax'):
        named.append((key, getattr(forecast, key + '_forecast')))
    for group, items in (('person', wld.people), ('account', wld.accounts),
                         ('debt', wld.debts)):
        for item in items:
            named.append(('%s-%d' % (group, item.verif_tag), item))
    return named


def forecasts(rng, mon):
    spec = world.make_spec(rng, years=rng.choice([1, 2, 3, 4]))
    wld = world.build(spec)
    shots = []

    class Watched(Forecast):
        """ Photographs everything just before each year ends. """

        def next_year(self):
            if rng_flag:
                shots.append((self.this_year, photograph(
                    everyone(self, wld))))
            super().next_year()

    rng_flag = rng.random() < 0.7
    forecast = world.run_direct(wld, Watched)
    for _ in range(rng.choice([1, 2])):
        shots.append((forecast.this_year, photograph(
            everyone(forecast, wld))))
        forecast.next_year()
        forecast.call_subforecasts()
        mon.event('forecast-year')
    final = photograph(everyone(forecast, wld))
    first = spec['year']
    for year, shot in shots:
        mon.event('photograph')
        mon.event('records', len(shot))
        for key, val in shot.items():
            mon.check(final.get(key, 'missing') == val,
                      'forecast-record-changed', key=key,
                      photographed=val, now=final.get(key, 'missing'),
                      taken_in=year, spec=spec)
    for name, obj in everyone(forecast, wld):
        mon.check(obj.this_year == forecast.this_year, 'lockstep',
                  name=name, year=obj.this_year)
        for attr in dir(type(obj)):
            if attr.endswith('_history') and not attr.startswith('_'):
                years = set(dict(getattr(obj, attr)))
                want = set(range(first, obj.this_year + 1))
                mon.check(want <= years, 'year-missing', name=name,
                          attr=attr, years=sorted(years), spec=spec)
    mon.obs(sorted(final.items(), key=repr)[:50])
    mon.note(spec=spec)
    mon.interesting(len(shots) > 1)


def owners(rng, mon):
    """ Accounts bring their owners with them. """
    mod = gen.mode(rng)
    start = rng.choice([1990, 2000, 2020])
    people = [
        Person(start, 'P%d' % i, start - 40, retirement_date=start + 25,
               gross_income=mod(1000 * (i + 1)), raise_rate=mod(0.1),
               **mod.kw) for i in range(rng.choice([1, 1, 2]))]
    held = [
        rng.choice([Account, Debt, TaxableAccount, LinkedLimitAccount,
                    PrincipleResidence])(
            rng.choice(people), balance=mod(-100 * i), rate=mod(0.5),
            initial_year=start + rng.choice([0, 0, 1, 2, 3, 5]),
            **mod.kw) for i in range(rng.choice([1, 2, 3]))]
    if rng.random() < 0.4:
        held.append(rng.choice([RRSP, TFSA])(
            rng.choice(people), balance=mod(1000), rate=mod(0.5),
            initial_year=start + rng.choice([0, 1, 2, 3]),
            contribution_room=mod(1000), **mod.kw))
    years = {item: item.this_year for item in people + held}
    log = []
    for _ in range(rng.randint(1, 12)):
        item = rng.choice(people + held if rng.random() < 0.3 else held)
        if item in held:
            owner = item.owner
            if years[owner] < years[item]:
                mon.event('owner-behind-%d' % min(
                    years[item] - years[owner], 2))
            years[owner] = max(years[owner], years[item])
        item.next_year()
        years[item] += 1
        if item in held and isinstance(item, RegisteredAccount):
            # (The contributor keeps up with the room.)
            years[owner] = max(years[owner], years[item])
        log.append((type(item).__name__, years[item]))
        for other, year in years.items():
            mon.check(other.this_year == year, 'owner-lockstep', log=log,
                      who=type(other).__name__, want=year,
                      got=other.this_year)
    for i, person in enumerate(people):
        want = {y: 1000 * (i + 1) * 1.1 ** (y - start)
                for y in range(start, person.this_year + 1)}
        got = dict(person.gross_income_history)
        mon.check(sorted(got) == sorted(want), 'owner-years', got=got)
        for year, value in want.items():
            mon.close(got[year], value, 'owner-income', year=year)
    for item in held:
        mon.check(sorted(item.balance_history) == list(range(
            item.initial_year, item.this_year + 1)), 'held-years', log=log)
    mon.obs(log)
    mon.interesting(len(log) > 2)


WORKLOADS = [
    Workload('owners', owners, 2000, 40000),
    Workload('operations', operations, 20000, 400000),
    Workload('forecasts', forecasts, 400, 12000),
]
REQUIRED = {'read': 2000, 'history': 1000, 'year': 1000, 'delete': 500,
            'clear-cache': 300, 'write-over-input': 50, 'photograph': 300,
            'records': 10000, 'forecast-year': 100,
            'owner-behind-1': 200, 'owner-behind-2': 200}
