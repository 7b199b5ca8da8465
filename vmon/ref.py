""" Reference arithmetic, written from the documented semantics.

Everything here works on plain floats and never calls the code under test.
"""

import math

FREQ = {'C': None, 'D': 365, 'W': 52, 'BW': 26, 'SM': 24, 'M': 12,
        'BM': 6, 'Q': 4, 'SA': 2, 'A': 1}


def periods(nper):
    """ Number of compounding periods per year; None for continuous. """
    if isinstance(nper, str):
        return FREQ[nper]
    return None if nper is None else int(nper)


def accum(time, rate, nper):
    """ Growth factor over `time` years (negative: discount). """
    time, rate = float(time), float(rate)
    nper = periods(nper)
    if nper is None:
        return math.exp(rate * time)
    return (1 + rate / nper) ** (nper * time)


def when_num(when):
    if when == 'start':
        return 0.0
    if when == 'end':
        return 1.0
    return float(when)


def year_end(balance, rate, nper, txns):
    """ Balance at the end of the year, with `{when: value}` applied. """
    total = float(balance) * accum(1, rate, nper)
    for when, value in txns.items():
        total += float(value) * accum(1 - when_num(when), rate, nper)
    return total


def returns(balance, rate, nper, txns):
    total = float(balance) * (accum(1, rate, nper) - 1)
    for when, value in txns.items():
        total += float(value) * (accum(1 - when_num(when), rate, nper) - 1)
    return total


def balance_at(balance, rate, nper, txns, time):
    """ Balance just after everything up to and at `time`. """
    time = when_num(time)
    total = float(balance) * accum(time, rate, nper)
    for when, value in txns.items():
        when = when_num(when)
        if when <= time:
            total += float(value) * accum(time - when, rate, nper)
    return total


def add(*dicts):
    """ The sum of several `{when: value}` dicts. """
    out = {}
    for dct in dicts:
        for key, val in dct.items():
            key = when_num(key)
            out[key] = out.get(key, 0.0) + float(val)
    return out


def total(txns):
    return math.fsum(float(v) for v in txns.values())


def nearest(vals, year):
    """ Nearest past year in `vals`, else nearest following one. """
    past = [k for k in vals if k <= year]
    if past:
        return max(past)
    return min(vals)


def weights(timing):
    """ Normalised non-zero weights of a `{when: weight}` timing. """
    timing = {when_num(k): float(v) for k, v in timing.items()}
    whole = math.fsum(timing.values())
    if whole == 0:
        return {k: 1.0 / len(timing) for k in timing}
    return {k: v / whole for k, v in timing.items() if v != 0}


def to_balance(balance, rate, nper, txns, target, timing,
               low=-math.inf, high=math.inf):
    """ Transactions bringing the year-end balance towards `target`. """
    wts = weights(timing)
    change = float(target) - year_end(balance, rate, nper, txns)
    growth = sum(w * accum(1 - t, rate, nper) for t, w in wts.items())
    whole = max(min(change / growth, float(high)), float(low))
    return {t: whole * w for t, w in wts.items()}


def inflows(txns):
    return math.fsum(float(v) for v in txns.values() if v > 0)


def outflows(txns):
    return math.fsum(float(v) for v in txns.values() if v < 0)
