"""Shared readings of summaries: calls by method name, affine parts of a term, ordered traces."""
from .terms import *
from .engine import Ev, LoopItem, Alt


def method_call(ev, name):
    """(receiver, args) when the event calls method `name`"""
    if ev.kind == 'Call' and isinstance(ev.a[0], str) and ev.a[0].endswith('.' + name) and ev.a[1]:
        return ev.a[1][0], ev.a[1][1:]
    if ev.kind == 'CallUnknown' and isinstance(ev.a[0], T) and ev.a[0].op == 'attr' and ev.a[0].args[1] == name:
        return ev.a[0].args[0], ev.a[1]
    if ev.kind == 'MCall' and ev.a[1] == name:
        return ev.a[0], ev.a[2]
    return None


def linear(t, x):
    """(coefficient, rest) with t = coefficient*x + rest and x not in rest; None otherwise"""
    if not any(y is x for y in walk(t)):
        return const(0), t
    c, r = {}, {}
    for m, k in pd(t).items():
        e = [(a, n) for a, n in m if a is x]
        rest = tuple((a, n) for a, n in m if a is not x)
        if any(any(y is x for y in walk(a)) for a, n in rest):
            return None
        if not e:
            r[m] = k
        elif e[0][1] == 1:
            c[rest] = k
        else:
            return None
    return poly(c), poly(r)


def shift_form(t, x):
    """offset when t = x + offset, offset free of x"""
    l = linear(t, x)
    if l is None or num_val(l[0]) != 1:
        return None
    return l[1]


def ordered(items, ctx=(), pos=()):
    """(event, enclosing loops, position) in program order of the source text of the summary"""
    for n, it in enumerate(items):
        if isinstance(it, Ev):
            yield it, ctx, pos + (n,)
        elif isinstance(it, LoopItem):
            for i, b in enumerate(it.loop.bodies):
                for x in ordered(b.trace, ctx + ((it.loop, b),), pos + (n,)):
                    yield x
        elif isinstance(it, Alt):
            for fs, tr in it.paths:
                for x in ordered(tr, ctx, pos + (n,)):
                    yield x


def has(t, x):
    return any(y is x for y in walk(t))


def has_op(t, *ops):
    return any(y.op in ops for y in walk(t))


def vwalk(t):
    """sub-terms that carry the value: the versions of containers are left out"""
    if not isinstance(t, T):
        return
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        if x.op == 'poly':
            stack.extend(a for m, c in x.args for a, e in m)
            continue
        args = x.args
        if x.op in ('index', 'elem', 'in'):
            args = args[:2]
        elif x.op in ('len', 'truth'):
            args = args[:1]
        for a in args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                stack.extend(_flat(a))


def _flat(a):
    for x in a:
        if isinstance(x, tuple):
            for y in _flat(x):
                yield y
        else:
            yield x


def clear(t, allow=()):
    """every part of the value is known in terms of inputs, loop indices and container contents"""
    return isinstance(t, T) and not any(x.op in ('unk', 'out', 'rand', 'hav', 'after', 'call', 'mcall') and x not in allow for x in vwalk(t))
