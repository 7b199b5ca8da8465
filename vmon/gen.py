""" Generators of realistic and hostile inputs, shared by the checks. """

from decimal import Decimal


class Mode:
    """ Native floats, or a high-precision type. """

    def __init__(self, hp=None):
        self.hp = hp
        self.kw = {'high_precision': hp} if hp is not None else {}

    def __call__(self, value):
        """ `value` in the mode's number type. """
        if value is None or isinstance(value, str):
            return value
        if self.hp is None:
            return value
        if isinstance(value, float):
            return self.hp(repr(value))
        return self.hp(value)

    @property
    def name(self):
        return 'float' if self.hp is None else self.hp.__name__


FLOAT = Mode()
DECIMAL = Mode(Decimal)


def mode(rng, high=0.3):
    return DECIMAL if rng.random() < high else FLOAT


NPERS = ['C', 'C', 'D', 'W', 'BW', 'SM', 'M', 'BM', 'Q', 'SA', 'A',
         1, 1, 1, 2, 3, 4, 7, 12, 52, 365]


def nper(rng):
    return rng.choice(NPERS)


def money(rng, low=-1e5, high=1e5):
    """ An amount of money, of any scale; sometimes zero, or round. """
    kind = rng.random()
    if kind < 0.05 and low <= 0 <= high:
        return 0
    if kind < 0.35:
        value = rng.uniform(low, high)
    elif kind < 0.55:
        value = round(rng.uniform(low, high) / 1000) * 1000
    elif kind < 0.8:
        value = rng.uniform(low, high) / 10 ** rng.randint(1, 4)
    else:
        value = round(rng.uniform(low, high))
    value = round(value, rng.choice([0, 2, 6]))
    return min(max(value, low), high)


def pos(rng, high=1e5):
    return max(money(rng, 0.01, high), 0.01)


def rate(rng, low=-0.4, high=1.5):
    kind = rng.random()
    if kind < 0.12:
        return 0
    if kind < 0.7:
        return round(rng.uniform(max(low, -0.1), min(high, 0.15)), 4)
    if kind < 0.8 and high >= 1:
        return rng.choice([0.05, 0.5, 1.0, 1])
    return round(rng.uniform(low, high), 3)


WHENS = [0, 1, 0.5, 0.25, 0.75, 'start', 'end', 0.1, 0.9, 0.3]


def when(rng, words=True):
    if rng.random() < 0.6:
        val = rng.choice(WHENS)
        if isinstance(val, str) and not words:
            val = 0 if val == 'start' else 1
        return val
    return round(rng.random(), rng.choice([1, 2, 4, 9]))


def txns(rng, count=None, low=-2e4, high=5e4):
    """ A `{when: value}` dict with numeric timings. """
    if count is None:
        count = rng.choice([0, 1, 1, 2, 3, 4, 6])
    out = {}
    for _ in range(count):
        out[when(rng, words=False)] = money(rng, low, high)
    return out


def timing(rng, words=False):
    """ A `{when: weight}` dict of timings. """
    out = {}
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        out[when(rng, words=words)] = rng.choice(
            [1, 1, 2, 0.5, 0.25, round(rng.uniform(0.05, 3), 2)])
    return out


def shuffled(rng, dct):
    """ The same mapping, sometimes in another order. """
    if rng.random() < 0.5:
        return dct
    keys = list(dct)
    rng.shuffle(keys)
    return {k: dct[k] for k in keys}


def conv(mod, dct):
    """ A `{when: value}` dict in the mode's number type. """
    return {mod(k): mod(v) for k, v in dct.items()}


def year_near(rng, year):
    """ A year around this one, now and then a distant one. """
    if rng.random() < 0.08:
        return year + rng.randint(15, 110)
    return rng.randint(year - 12, year + 14)
