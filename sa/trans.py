"""Transition view of a loop summary: a term at the start of an iteration, at the start of the first one,
and at the start of the next one."""
from .terms import *
from .report import understood


def hav_keys(L):
    out = {}
    for k, hv in L.hav.items():
        if hv is not None and hv.op == 'hav':
            out[hv] = k
    return out


def at_init(eng, L, t):
    m = {L.iota: const(0)}
    for hv, k in hav_keys(L).items():
        v = L.inits.get(k)
        if v is None:
            v = eng.get_key(L.pre, k) if L.pre is not None else None
        if v is not None:
            m[hv] = v
    return subst(t, m)


def at_next(eng, L, body, t):
    m = {L.iota: add(L.iota, const(1))}
    for hv, k in hav_keys(L).items():
        v = eng.get_key(body.state, k)
        if v is not None:
            m[hv] = v
    return subst(t, m)


def carried(L, t):
    """loop-carried symbols of this loop in a term"""
    return [x for x in walk(t) if x.op == 'hav' and x.args[0] == L.lid]
