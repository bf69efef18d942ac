"""
The reference model of times, in exact arithmetic.
"""
import re
from fractions import Fraction

UNITS = {'h': 3600, 'm': 60, 's': 1}

PART = re.compile(r'\s*(-?)\s*([0-9]*\.?[0-9]*(?:[eE][-+]?[0-9]+)?)([hmsf])')


def frames_of_parts(parts, fps, negative=False):
    """parts: dict of unit to Fraction."""
    total = Fraction(0)
    for u, n in parts.items():
        if u == 'f':
            total += n
        else:
            total += n * UNITS[u] * fps
    return -total if negative else total


def parse(s, fps):
    """
    The frames a well-formed specification denotes, as a Fraction.
    Not a validator: we only call it for things which are valid.
    """
    s = s.strip()
    negative = s.startswith('-')
    if negative:
        s = s[1:]
    parts = {}
    pos = 0
    while pos < len(s):
        m = PART.match(s, pos)
        if not m or m.group(1):
            raise ValueError(s)
        parts[m.group(3)] = Fraction(m.group(2))
        pos = m.end()
        while pos < len(s) and s[pos].isspace():
            pos += 1
    if not parts:
        raise ValueError(s)
    return frames_of_parts(parts, fps, negative)


def as_float(fr):
    """
    The frames reading we expect: whole frames are exact, and anything
    else is compared with some tolerance. (Rounding to fewer places here
    would make a time very near a whole frame look like a whole one.)
    """
    return float(round(fr, 9)) if fr.denominator != 1 else float(fr)


def close(got, want, tol=2e-6):
    want = Fraction(want)
    if want.denominator == 1 and abs(want) < 10**8:
        return got == float(want)
    return abs(Fraction(got)-want) <= Fraction(tol)+abs(want)/10**12


def duration(begin, end):
    """begin, end in frames; the value negative numbers count back from."""
    return end-begin+1
