""" C20: values and settings are written and read back losslessly. """

import json
import os
import tempfile
from collections import OrderedDict
from copy import deepcopy
from decimal import Decimal
import forecaster
from vmon import gen
from vmon.core import Workload
from forecaster import Settings, ValueReader, resolve_path
from forecaster.canada.constants import ConstantsCanada
from forecaster.canada.settings import SettingsCanada
from forecaster.value_reader import ValueReaderAttribute as Attr

PROPERTY = 'C20'
SCALE = 8
RULE = (
    'Random trees of values (nested mappings and lists, strings of any '
    'alphabet, str-encoded numbers, integers and decimals of any size, '
    'infinities, high-precision keys) are written and read back in either '
    'precision, and JSON texts written by hand are read; every value must '
    'come back with its type, exactly. Histories of settings objects and '
    'files (set, delete, read, write, construct) are compared with plain '
    'dicts. Non-trivial: numbers or keys had to be converted, or a file '
    'was read after values changed.')

WORDS = ['Account', 'n-age', 'Ünïcode', '日本', '"quoted"', 'back\\slash',
         'line\nbreak', '', ' ', 'true', 'null', '1-2', '5%', '0x1F', '$5',
         '\u2028', '1/2', 'e5', '--1', 'naïve 3']
NUMERALS = ['5', '007', '-3', '2.5', '1e3', '1E-7', '0.1', '+4', '1e400',
            '1_000', ' 12 ', '3.0', '-0', '-0.0', 'Infinity', '-inf',
            '12345678901234567890123', '1.00000000000000000000000001',
            '0.30000000000000000000000000004', '1e22', '1e23', '.5', '5.']


def number(text, hp):
    """ What a str-encoded number is read as; `None` if not a number. """
    try:
        exact = float(text)
    except ValueError:
        return None
    try:
        return int(text)
    except ValueError:
        pass
    value = exact if hp is None else hp(text)
    finite = value - value == 0 if hp is None else hp(value).is_finite()
    if finite and value == int(value) and (
            exact - exact == 0 and exact % 1 == 0):
        return int(value)
    return value


def expected(value, hp, convert):
    """ What `value` should be read back as. """
    if isinstance(value, dict):
        return {key(k, hp, convert): expected(v, hp, convert)
                for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return [expected(v, hp, convert) for v in value]
    if value is None or isinstance(value, (bool, int)):
        return value
    if isinstance(value, float):
        return value if hp is None else hp(repr(value))
    text = str(value)
    if convert:
        val = number(text, hp)
        if val is not None:
            return val
    return text


def key(value, hp, convert):
    text = value if isinstance(value, str) else str(value)
    if convert:
        val = number(text, hp)
        if val is not None:
            return val
    return text


def strict(one, two):
    """ Equality of values and types throughout. """
    if type(one) is not type(two):
        return False
    if isinstance(one, dict):
        return len(one) == len(two) and {
            (type(k), k) for k in one} == {(type(k), k) for k in two} and all(
                strict(one[k], two[k]) for k in one)
    if isinstance(one, list):
        return len(one) == len(two) and all(map(strict, one, two))
    return one == two


def figure(rng, mod):
    kind = rng.random()
    if kind < 0.35:
        return rng.choice([0, 1, -1, 5, 10 ** 30, -7, 2 ** 53 + 1,
                           rng.randint(-10 ** 6, 10 ** 6)])
    if kind < 0.45:
        inf = mod(float('inf')) if mod.hp is None else mod.hp('Infinity')
        return rng.choice([inf, -inf])
    if mod.hp is not None and kind < 0.8:
        return rng.choice([
            Decimal('0.1'), Decimal('5.00'), Decimal('1E+30'),
            Decimal('1e-30'), Decimal('-12345678901234567890.123456789'),
            Decimal(rng.randint(-10 ** 40, 10 ** 40)).scaleb(
                -rng.randint(0, 40)),
            Decimal(1) / Decimal(rng.randint(2, 99))])
    if mod.hp is not None and kind < 0.9:
        return Decimal(repr(round(rng.uniform(-100, 100), 4)))
    return rng.choice([
        0.5, -0.1, 1e22, 1e-9, 5e-324, 1.7976931348623157e308, 3.0,
        rng.uniform(-1e6, 1e6), round(rng.uniform(0, 1), 4)])


def label(rng, mod):
    kind = rng.random()
    if kind < 0.4:
        return rng.choice(WORDS)
    if kind < 0.6:
        return rng.choice(NUMERALS)
    return figure(rng, mod)


def scalar(rng, mod):
    kind = rng.random()
    if kind < 0.2:
        return rng.choice(WORDS)
    if kind < 0.35:
        return rng.choice(NUMERALS)
    if kind < 0.45:
        return rng.choice([True, False, None])
    return figure(rng, mod)


def tree(rng, mod, depth):
    kind = rng.random()
    if depth == 0 or kind < 0.45:
        return scalar(rng, mod)
    count = rng.choice([0, 1, 2, 3, 5])
    if kind < 0.65:
        items = [tree(rng, mod, depth - 1) for _ in range(count)]
        return items if rng.random() < 0.8 else tuple(items)
    # Brackets, weights, timings: one kind of key; or any mixture.
    form = rng.choice(['years', 'words', 'mixed', 'figures'])
    out, seen = {}, set()
    for _ in range(count):
        name = {
            'years': lambda: rng.randint(1990, 2040),
            'words': lambda: rng.choice(WORDS),
            'mixed': lambda: label(rng, mod),
            'figures': lambda: figure(rng, mod)}[form]()
        if isinstance(name, float) and name - name != 0:
            continue  # JSON has two words for these.
        # Keys that would read as the same number collide.
        marks = {str(key(name, mod.hp, True)), str(key(name, None, True)),
                 str(name)}
        if not marks & seen:
            seen |= marks
            out[name] = tree(rng, mod, depth - 1)
    return out if rng.random() < 0.8 else OrderedDict(out)


def top(rng, mod):
    out = {}
    for _ in range(rng.randint(0, 6)):
        name = rng.choice(WORDS + ['rates', 'year', 'weights', 'limit'])
        out[name] = tree(rng, mod, rng.randint(0, 3))
    return out


def odd(values, hp):
    """ Whether reading `values` back takes any conversion. """
    return not strict(expected(values, hp, True), json.loads(json.dumps(
        values, default=str, skipkeys=True))) if values else False


def roundtrip(rng, mon):
    mod = gen.mode(rng, 0.5)
    values = top(rng, mod)
    mon.note(mode=mod.name, values=repr(values))
    kept = deepcopy(values)
    with tempfile.TemporaryDirectory() as scratch:
        path = os.path.join(scratch, 'values.json')
        serialize, convert = {}, rng.random() < 0.8
        if mod.hp is not None and convert and rng.random() < 0.3:
            serialize['high_precision_serialize'] = Decimal.to_eng_string
            mon.event('serializer')
        writer = ValueReader(**mod.kw, **serialize)
        route = rng.choice(['argument', 'own', 'reader'])
        if route == 'own':
            writer.values = values
            writer.write(path)
        elif route == 'reader':
            other = rng.choice([ValueReader, Custom])(**mod.kw)
            other.values = values
            writer.values = {'not': 'these'}
            writer.write(path, other)
        else:
            writer.write(path, values)
        mon.event(route)
        mon.check(repr(values) == repr(kept), 'written-values-changed')
        with open(path, 'rb') as file:
            text = file.read()
        mon.check(max(text, default=0) < 128, 'not-ascii')
        if rng.random() < 0.5:
            reader = ValueReader(
                path, numeric_convert=convert, **mod.kw)
        else:
            reader = ValueReader(**mod.kw)
            reader.values['stale'] = 1
            reader.read(path, numeric_convert=convert)
        want = expected(kept, mod.hp, convert)
        mon.check(strict(reader.values, want), 'read-back',
                  got=repr(reader.values), want=repr(want),
                  convert=convert)
        mon.event('read-back')
        if mod.hp is not None:
            mon.event('high-precision')
        # From then on, nothing changes.
        before = deepcopy(reader.values)
        reader.write(path)
        mon.check(strict(reader.values, before), 'written-values-changed')
        again = ValueReader(path, numeric_convert=convert, **mod.kw)
        want = expected(before, mod.hp, convert)
        mon.check(strict(again.values, want), 'second-round',
                  got=repr(again.values), want=repr(want))
        # Reading without high precision gives the nearest floats.
        if mod.hp is not None and convert and rng.random() < 0.5:
            plain = ValueReader(path)
            mon.check(alike(plain.values, before), 'native',
                      got=repr(plain.values), want=repr(before))
            mon.event('native')
    mon.interesting(bool(odd(kept, mod.hp)))
    mon.obs(repr(before))


def alike(one, two):
    """ The same, up to floats. """
    if isinstance(two, dict):
        return isinstance(one, dict) and len(one) <= len(two) and all(
            _find(one, k, v) for k, v in two.items())
    if isinstance(two, list):
        return isinstance(one, list) and len(one) == len(two) and all(
            map(alike, one, two))
    if isinstance(two, Decimal):
        return not isinstance(one, Decimal) and one == float(two)
    if isinstance(two, int) and not isinstance(two, bool):
        return one == two or one == float(two)
    return type(one) is type(two) and one == two


def _find(one, name, value):
    if isinstance(name, Decimal):
        name = float(name)
    return name in one and (alike(one[name], value))


# -- texts written by hand ------------------------------------------------

def literal(rng, hp):
    """ JSON text of a value and what it reads as. """
    kind = rng.random()
    if kind < 0.3:
        text = rng.choice([
            '0', '-0', '17', '-3', '123456789012345678901234567890'])
        return text, int(text)
    if kind < 0.65:
        text = rng.choice([
            '0.1', '1.50', '1e3', '1E-7', '-0.0', '2.0', '1e400', '0.5e-3',
            '0.1000000000000000055511151231257827', '-12.25', '1.0e2',
            '%.3f' % rng.uniform(-1e4, 1e4), '%e' % rng.uniform(-9, 9)])
        return text, float(text) if hp is None else hp(text)
    if kind < 0.75:
        text = rng.choice(['Infinity', '-Infinity'])
        return text, float(text) if hp is None else hp(text)
    if kind < 0.85:
        text = rng.choice(['true', 'false', 'null'])
        return text, {'true': True, 'false': False, 'null': None}[text]
    word = rng.choice(WORDS)
    return json.dumps(word, ensure_ascii=rng.random() < 0.5), word


def document(rng, hp, depth=2):
    kind = rng.random()
    gap = rng.choice(['', ' ', '\n\t'])
    if depth and kind < 0.3 or depth == 3:
        parts, out, seen = [], {}, set()
        for _ in range(rng.choice([1, 2, 3, 4])):
            name = rng.choice(
                WORDS if depth == 3 or rng.random() < 0.4
                else NUMERALS + ['2017', '50000', '0'])
            read = key(name, hp, True)
            if str(read) in seen or str(key(name, None, True)) in seen:
                continue
            seen |= {str(read), str(key(name, None, True))}
            text, value = document(rng, hp, depth - 1)
            parts.append('%s%s:%s%s' % (gap, json.dumps(
                name, ensure_ascii=rng.random() < 0.5), gap, text))
            out[read] = value
        return '{%s%s}' % (','.join(parts), gap), out
    if depth and kind < 0.5:
        items = [document(rng, hp, depth - 1)
                 for _ in range(rng.randint(0, 3))]
        return '[%s]' % (gap + ',').join(t for t, _ in items), [
            v for _, v in items]
    return literal(rng, hp)


def texts(rng, mon):
    mod = gen.mode(rng, 0.5)
    text, want = document(rng, mod.hp, 3)
    mon.note(mode=mod.name, text=text)
    with tempfile.TemporaryDirectory() as scratch:
        path = os.path.join(scratch, 'text.json')

        def put(content):
            with open(path, 'w', encoding='utf-8') as file:
                file.write(content)
        put(text)
        reader = ValueReader(path, **mod.kw)
        mon.check(strict(reader.values, want), 'read',
                  got=repr(reader.values), want=repr(want))
        mon.event('text')
        mon.interesting(len(text) > 10)
        kind = rng.random()
        if kind < 0.15:
            put('{"a": NaN}')
            refused(mon, reader, path, ValueError)
        elif kind < 0.3:
            put(rng.choice(['[1, 2]', '5', '"text"', 'null']))
            refused(mon, reader, path, TypeError)
        elif kind < 0.4:
            refused(mon, reader, path + 'x', FileNotFoundError)
        mon.obs(repr(want))


def refused(mon, reader, path, error):
    try:
        reader.read(path)
    except error:
        mon.event('refused')
        return
    mon.check(False, 'accepted', path=path, error=error.__name__)


# -- histories of settings -------------------------------------------------

class Custom(ValueReader):
    """ A reader with attributes of its own. """
    plain = Attr()
    zero = Attr(0)
    off = Attr(False)
    rate = Attr(0.25)
    word = Attr('word')
    table = Attr({2000: 1})


DEFAULTS = {'zero': 0, 'off': False, 'rate': 0.25, 'word': 'word',
            'table': {2000: 1}}


def names(cls):
    if cls is Custom:
        return ['plain', 'zero', 'off', 'rate', 'word', 'table']
    return ['inflation', 'stock_return', 'num_years', 'initial_year',
            'living_expenses_strategy', 'living_expenses_rate',
            'saving_weights', 'withdrawal_weights', 'tax_brackets',
            'allocation_adjust_retirement', 'currency', 'tax_credit_rate']


def new_value(rng, mod):
    kind = rng.random()
    if kind < 0.5:
        return figure(rng, mod)
    if kind < 0.6:
        return rng.choice([True, False])
    if kind < 0.75:
        return rng.choice(['Ordered', 'Weighted', 'n-age'])
    return tree(rng, mod, 2)


def histories(rng, mon):
    cls = rng.choice([Custom, Custom, Settings, SettingsCanada])
    with tempfile.TemporaryDirectory() as scratch:
        bare = os.path.join(scratch, 'bare.json')
        with open(bare, 'w', encoding='utf-8') as file:
            file.write('{}')
        blank = cls(bare)
        defaults = DEFAULTS if cls is Custom else {
            n: deepcopy(getattr(blank, n)) for n in names(cls)}
        files = {bare: {}}
        objects = []
        log = mon.notes['log'] = []
        fresh(rng, cls, objects, files, log)
        changed = False
        for step in range(rng.randint(4, 20)):
            which = rng.randrange(len(objects))
            obj, mod, state, use = objects[which]
            action = rng.random()
            if action < 0.12:
                fresh(rng, cls, objects, files, log)
            elif action < 0.45:
                name = rng.choice(names(cls))
                value = new_value(rng, mod)
                log.append(repr(('set', which, name, value)))
                setattr(obj, name, value)
                state[name] = value
                changed = True
                mon.event('set')
            elif action < 0.57:
                name = rng.choice(sorted(set(names(cls)) & set(state))
                                  or [None])
                if name is not None:
                    log.append(repr(('delete', which, name)))
                    delattr(obj, name)
                    del state[name]
                    mon.event('delete')
            elif action < 0.75:
                path = os.path.join(scratch, '%d.json' % rng.randint(0, 3))
                other = rng.randrange(len(objects))
                log.append(repr(('write', which, other, path[-6:])))
                if objects[other][1] is not mod:
                    other = which
                if other == which:
                    obj.write(path)
                else:
                    obj.write(path, objects[other][0])
                files[path] = deepcopy(objects[other][2])
                mon.event('write')
            else:
                path = rng.choice(sorted(files))
                log.append(repr(('read', which, path[-6:])))
                obj.read(path)
                want = translate(files[path], mod)
                state.clear()
                state.update(want)
                mon.event('read')
                mon.interesting(changed)
            for number_, (obj, mod, state, use) in enumerate(objects):
                look(mon, obj, state, use, defaults, cls, number_)
        mon.obs([repr(s) for _, _, s, _ in objects])


def fresh(rng, cls, objects, files, log):
    mod = gen.mode(rng, 0.3)
    use = rng.random() < 0.7
    path = rng.choice(sorted(files))
    log.append(repr(('new', cls.__name__, mod.name, use, path[-6:])))
    objects.append((
        cls(path, use_defaults=use, **mod.kw), mod,
        translate(files[path], mod), use))


def translate(values, mod):
    """ `values`, as they were when written, as read in `mod`. """
    return expected(values, mod.hp, True)


def look(mon, obj, state, use, defaults, cls, which):
    mon.check(strict(obj.values, plain(state)) or obj.values == state,
              'values', which=which, got=repr(obj.values), want=repr(state))
    for name in names(cls):
        if name in state:
            got, want = getattr(obj, name), state[name]
            mon.check(got == want and type(got) is type(want), 'attribute',
                      which=which, name=name, got=repr(got),
                      want=repr(want))
        elif use and name in defaults:
            got = getattr(obj, name)
            mon.check(got == defaults[name], 'default', which=which,
                      name=name, got=repr(got), want=repr(defaults[name]))
            mon.event('default')
        else:
            try:
                got = getattr(obj, name)
            except KeyError:
                mon.event('missing')
                continue
            mon.check(False, 'missing', which=which, name=name,
                      got=repr(got))


def plain(state):
    return dict(state)


# -- what is shipped -------------------------------------------------------

def shipped(rng, mon):
    mod = gen.mode(rng, 0.6)
    cls, name = rng.choice([
        (Settings, 'settings.json'), (SettingsCanada, 'canada.settings.json'),
        (ConstantsCanada, 'canada.constants.json')])
    root = os.path.join(os.path.dirname(forecaster.__file__), 'data')
    path = os.path.join(root, name)
    mon.check(os.path.normpath(resolve_path(name))
              == os.path.normpath(path), 'relative')
    mon.check(resolve_path(path) == path, 'absolute')
    with open(path, encoding='utf-8') as file:
        raw = json.load(file, parse_float=mod.hp or float)
    want = expected_text(raw, mod.hp)
    route = rng.random()
    reader = cls(**mod.kw) if route < 0.4 else cls(
        name if route < 0.7 else path, **mod.kw)
    mon.check(strict(reader.values, want), 'shipped', file=name,
              mode=mod.name)
    for attr, value in want.items():
        mon.check(attr in dir(cls) and getattr(reader, attr) == value,
                  'shipped-attribute', file=name, attr=attr)
    mon.event('shipped')
    mon.interesting()
    mon.obs(name, mod.name, route < 0.4, route < 0.7)


def expected_text(raw, hp):
    """ Converts str-encoded numbers in a tree of JSON values. """
    if isinstance(raw, dict):
        return {key(k, hp, True): expected_text(v, hp)
                for k, v in raw.items()}
    if isinstance(raw, list):
        return [expected_text(v, hp) for v in raw]
    if isinstance(raw, str):
        val = number(raw, hp)
        return raw if val is None else val
    return raw


WORKLOADS = [Workload('roundtrip', roundtrip, 9000, 80000),
             Workload('texts', texts, 5000, 40000),
             Workload('histories', histories, 2500, 20000),
             Workload('shipped', shipped, 40, 200)]
REQUIRED = {'read-back': 3000, 'high-precision': 1000, 'own': 500,
            'reader': 500, 'argument': 500, 'native': 300, 'text': 1400,
            'refused': 300, 'set': 1000, 'delete': 200, 'write': 500,
            'read': 500, 'default': 1000, 'missing': 1000, 'shipped': 40, 'serializer': 300}
