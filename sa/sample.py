"""Telling two closed arithmetic terms apart: a value of their variables, allowed by the facts, at which they differ."""
from fractions import Fraction
from .terms import *

SMALL = (0, 1, 2, 3, 5, 8, 15, 16, 30, 31)
LARGE = (0, 1, 2, 3, 0xFFFFFFFF, 0x80000000, 0x80000001, 0x7FFFFFFF, 0xA5A5A5A5, 0x0F0F0F0F, 0x12345678, 0xF0000000)


class Unclear(Exception):
    pass


def value(t, env):
    op = t.op
    if op == 'sym':
        return env[t]
    if t is TRUE or t is FALSE:
        return t is TRUE
    if op == 'poly':
        total = Fraction(0)
        for mono, c in t.args:
            v = Fraction(c)
            for a, e in mono:
                x = value(a, env)
                if x == 0 and e < 0:
                    raise Unclear()
                v *= Fraction(x) ** e
            total += v
        return total
    if op == 'const' and isinstance(t.args[0], (int, Fraction)):
        return t.args[0]
    if op == 'pow2':
        e = value(t.args[0], env)
        if e != int(e) or abs(e) > 200:
            raise Unclear()
        return Fraction(2) ** int(e)
    if op in ('floordiv', 'mod'):
        a, b = value(t.args[0], env), value(t.args[1], env)
        if b == 0:
            raise Unclear()
        return a // b if op == 'floordiv' else a % b
    if op == 'inv':
        x = value(t.args[0], env)
        if x == 0:
            raise Unclear()
        return 1 / Fraction(x)
    if op == 'absv':
        return abs(value(t.args[0], env))
    if op in ('max', 'min', 'tmax', 'tmin'):
        xs = [value(x, env) for x in t.args]
        return max(xs) if op.endswith('max') else min(xs)
    if op in ('and', 'or', 'xor'):
        xs = [whole(value(x, env)) for x in t.args]
        r = xs[0]
        for x in xs[1:]:
            r = r & x if op == 'and' else (r | x if op == 'or' else r ^ x)
        return r
    if op == 'bits':
        r = whole(value(t.args[1], env))
        for lo, hi, src, off in t.args[0]:
            l, h, o, s = [whole(value(x, env)) for x in (lo, hi, off, src)]
            if l < 0 or l + o < 0 or h > 200:
                raise Unclear()
            m = ((1 << h) - 1) & ~((1 << l) - 1) if h > l else 0
            r = (r & ~m) | (((s >> o) if o >= 0 else (s << -o)) & m)
        return r
    if op == 'zero':
        return 0
    if op == 'not':
        return not value(t.args[0], env)
    if op == 'eq0':
        return value(t.args[0], env) == 0
    if op == 'ge0':
        return value(t.args[0], env) >= 0
    if op == 'gt0':
        return value(t.args[0], env) > 0
    raise Unclear()


def whole(x):
    if x != int(x):
        raise Unclear()
    return int(x)


def told(terms):
    """the numbers the terms name, a few of them"""
    out = set()
    for t in terms:
        for x in walk(t):
            if x.op == 'poly':
                out |= {abs(int(c)) for m, c in x.args if not m and c == int(c)}
            elif x.op == 'const' and isinstance(x.args[0], int) and not isinstance(x.args[0], bool):
                out.add(abs(x.args[0]))
    return set(sorted(c for c in out if c < 1 << 32)[:8])


def apart(facts, a, b, words=()):
    """a value of the variables allowed by the facts where the terms differ, or None; the variables in `words` hold words"""
    syms = sorted({x for t in tuple(facts) + (a, b) for x in walk(t) if x.op == 'sym'}, key=show)
    seed = 12345
    large = LARGE + tuple(sorted(told(tuple(facts) + (a, b)) - set(LARGE)))
    for k in range(6000):
        env = {}
        for x in syms:
            seed = (seed * 1103515245 + 12345) & 0x7FFFFFFF
            pool = large if x in words else SMALL
            env[x] = pool[(seed >> 8) % len(pool)]
        try:
            if all(value(f, env) for f in facts) and value(a, env) != value(b, env):
                return env
        except Unclear:
            if k > 300:
                return None
    return None
