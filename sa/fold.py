"""What a loop does to an accumulator, read off its summary."""
import math
from fractions import Fraction
from .terms import *
from .engine import Ev, LoopItem, Alt
from .report import events
from .shape import linear, shift_form, has


def loop_index(items, out=None):
    """{loop id: loop} of every loop of a trace"""
    out = {} if out is None else out
    for it in items:
        if isinstance(it, LoopItem):
            out[it.loop.lid] = it.loop
            for b in it.loop.bodies:
                loop_index(b.trace, out)
        elif isinstance(it, Alt):
            for fs, tr in it.paths:
                loop_index(tr, out)
    return out


class Step(object):
    """one way an iteration changes the accumulator: op in keep / sum / prod / set"""
    def __init__(self, chain, facts, op, amount, loc):
        self.chain, self.facts, self.op, self.amount, self.loc = chain, tuple(facts), op, amount, loc


def init_of(eng, L, key):
    v = L.inits.get(key)
    if v is None and L.pre is not None:
        v = eng.get_key(L.pre, key)
    return v


def steps(eng, t, index, chain=(), facts=()):
    """(initial value, [Step]) of the accumulated value t; None when it is not one"""
    if t.op != 'out':
        return None
    L = index.get(t.args[0])
    if L is None:
        return None
    key = next((k for k in L.hav if len(t.args) > 1 and out_key(t) == k), None)
    if key is None:
        return None
    hv, out = L.hav[key], []
    for b in L.bodies:
        if b.kind not in ('next', 'break'):
            continue
        v = eng.get_key(b.state, key)
        fs = tuple(facts) + tuple(b.facts)
        r = one(eng, v, hv, index, chain + ((L, b),), fs, L.loc)
        if r is None:
            return None
        out += r
    return init_of(eng, L, key), out


def out_key(t):
    k = t.args[1]
    if isinstance(k, tuple):
        if len(k) == 2 and isinstance(k[0], str):
            return (k[0], k[1])
        return ('heap', k)
    return ('env', k)


def one(eng, v, hv, index, chain, fs, loc):
    if v is None:
        return None
    if v is hv:
        return [Step(chain, fs, 'keep', None, loc)]
    inner = [x for x in walk(v) if x.op == 'out' and x.args[0] in index]
    for x in inner:
        r = steps(eng, x, index, chain, fs)
        if r is None:
            continue
        init, st = r
        if init is None or not has(init, hv):
            continue
        # v = f(x), init = g(hv)
        o1 = shift_form(v, x)
        o2 = shift_form(init, hv)
        if o1 is None or o2 is None or has(o1, hv) or has(o2, hv):
            return None
        if num_val(o1) != 0 or num_val(o2) != 0:
            st = st + [Step(chain, fs, 'sum', add(o1, o2), loc)]
        return st
    o = shift_form(v, hv)
    if o is not None:
        return [Step(chain, fs, 'sum', o, loc)]
    l = linear(v, hv)
    if l is not None and num_val(l[1]) == 0 and num_val(l[0]) != 0:
        return [Step(chain, fs, 'prod', l[0], loc)]
    return [Step(chain, fs, 'set', v, loc)]


WRITES = ('SetItem', 'DelItem', 'Pop', 'Clear', 'Update', 'Havoc', 'CountOf', 'Extend', 'Append', 'Remove')


def flat_paths(trace):
    """event lists of the straight paths of a trace, loops kept as items"""
    outs = [[]]
    for it in trace:
        if isinstance(it, Alt):
            outs = [o + p for o in outs for fs, tr in it.paths for p in flat_paths(tr)]
            if len(outs) > 64:
                return None
        else:
            for o in outs:
                o.append(it)
    return outs


def bumps(path, D, facts=()):
    """{key: amount} added to the counter D on a straight path (loops aside); None when D is written otherwise"""
    out, last = {}, {}
    for it in path:
        if not isinstance(it, Ev):
            continue
        if it.kind == 'Inc' and it.a[0] is D:
            out[it.a[1]] = add(out.get(it.a[1], const(0)), it.a[2])
            last[it.a[1]] = None
        elif it.kind == 'SetItem' and it.a[0] is D:
            k, v = it.a[1], it.a[2]
            r = [x for x in walk(v) if x.op == 'index' and x.args[0] is D and x.args[1] is k]
            fs = tuple(facts) + tuple(it.facts)
            if k in last and not r:
                if last[k] is None:
                    return None
                # known contents: the value written before on this path
                d = sub(v, last[k])
                out[k] = add(out[k], d)
                last[k] = v
            elif r:
                o = shift_form(v, r[0])
                if o is None or num_val(o) is None:
                    return None
                out[k] = add(out.get(k, const(0)), o)
            elif num_val(v) is not None and any(f.op == 'not' and f.args[0].op == 'in' and f.args[0].args[0] is k and f.args[0].args[1] is D for f in fs):
                out[k] = v
                last[k] = v
            else:
                out[k] = mk('reset', v)
                last[k] = None
        elif it.kind in WRITES and it.a and it.a[0] is D:
            return None
    return {k: v for k, v in out.items() if num_val(v) != 0}


def counting(trace, D, loops=(), facts=()):
    """[(loops, facts, {key: amount}, loc)] one entry per straight path of every loop body reaching D; None when unclear.
    The entry for the top level comes with loops == ()."""
    out = []
    ps = flat_paths(trace)
    if ps is None:
        return None
    for p in ps:
        fs = tuple(facts)
        for it in p:
            if isinstance(it, Ev):
                fs += tuple(f for f in it.facts if f not in fs)
        b = bumps(p, D, fs)
        if b is None:
            return None
        out.append((loops, fs, b, p))
    seen = set()
    for p in ps:
        for it in p:
            if isinstance(it, LoopItem) and it.loop.lid not in seen:
                seen.add(it.loop.lid)
                for b in it.loop.bodies:
                    r = counting(b.trace, D, loops + ((it.loop, b),), tuple(facts) + tuple(b.facts))
                    if r is None:
                        return None
                    out += r
    return out


def filtered(index, seq, ver=None):
    """the loop that filled the list seq with a selection of its own elements, and the facts under which it kept / dropped one:
    (loop, [facts of kept], [facts of dropped]); None when seq is not such a list"""
    if seq is None or seq is False or seq.op != 'obj':
        return None
    found = None
    for L in index.values():
        keep, drop = [], []
        for b in L.bodies:
            evs = [e for e in b.trace if isinstance(e, Ev) and e.a and e.a[0] is seq]
            if not evs:
                drop.append(tuple(b.facts))
            elif len(evs) == 1 and evs[0].kind == 'Append' and evs[0].a[1] is L.elem:
                keep.append(tuple(b.facts))
            else:
                return None
        if keep:
            if found is not None:
                return None
            found = (L, keep, drop)
    if ver is not None and found is not None and not (ver.op == 'out' and ver.args[0] == found[0].lid):
        return None
    return found


def grown(eng, s, t, index, chain=(), facts=(), depth=0):
    """what a list holds: [(chain of loops, facts, 'one' / 'all', term)], in order of growth; None when unclear"""
    if t is None or depth > 12:
        return None
    rec = lambda x: grown(eng, s, x, index, chain, facts, depth + 1)
    if t.op in ('perm', 'lit', 'copy'):
        return rec(t.args[0])
    if t.op in ('cat', 'seq', 'list', 'tuple'):
        out = []
        for a in t.args:
            if t.op == 'cat':
                p = rec(a)
                if p is None:
                    return None
                out += p
            else:
                out.append((chain, facts, 'one', a))
        return out
    if t.op == 'mapseq':
        L = next((l for l in index.values() if l.iota is t.args[0]), None)
        if L is None:
            return None
        return [(chain + ((L, b),), facts + tuple(b.facts), 'one' if n else 'none', t.args[1] if n else None)
                for b in L.bodies if b.kind in ('next', 'break') for n in [adds_to(b, t)]]
    if t.op == 'out':
        L = index.get(t.args[0])
        k = out_key(t)
        if L is None or k[0] != 'heap' or k[1][1] != '#':
            return None
        o = k[1][0]
        init = init_of(eng, L, k)
        out = []
        if init is not None:
            out = rec(init)
            if out is None:
                return None
        for b in L.bodies:
            r = written(eng, b.trace, o, index, chain + ((L, b),), facts + tuple(b.facts))
            if r is None:
                return None
            out += r
        return out
    if t.op == 'obj' and t.args[1] in ('list', 'gen'):
        c = s.heap.get((t, '#'))
        return rec(c) if c is not None else None
    return [(chain, facts, 'all', t)]


def adds_to(b, t):
    """the iteration adds the mapped element to a list"""
    return any(isinstance(e, Ev) and e.kind == 'Append' and e.a[1] is t.args[1] for e in b.trace)


def written(eng, trace, o, index, chain, facts):
    ps = flat_paths(trace)
    if ps is None:
        return None
    out = []
    for p in ps:
        n = 0
        for it in p:
            if isinstance(it, Ev):
                if not it.a or it.a[0] is not o:
                    continue
                if it.kind in ('Append', 'Extend'):
                    n += 1
                    out.append((chain, facts + tuple(it.facts), 'one' if it.kind == 'Append' else 'all', it.a[1]))
                elif it.kind in ('Insert', 'Remove', 'Pop', 'Clear', 'Del', 'DelItem', 'SetItem', 'Havoc', 'Sort', 'Reverse'):
                    return None
            elif isinstance(it, LoopItem):
                for b in it.loop.bodies:
                    r = written(eng, b.trace, o, index, chain + ((it.loop, b),), facts + tuple(b.facts))
                    if r is None:
                        return None
                    n += len(r)
                    out += r
        if not n:
            out.append((chain, facts, 'none', None))
    return out


def order_of(s, o, before=None):
    """('by', key results, reverse) of the last sorting of the list; 'unsorted'; None when it is written after it"""
    found = 'unsorted'
    for it in s.items():
        if before is not None and isinstance(it, LoopItem) and it.loop is before:
            break
        if isinstance(it, Ev):
            if it.kind in ('Sort', 'Sorted') and it.a[0] is o:
                a = it.a[1:] if it.kind == 'Sort' else it.a[2:]
                if len(a) < 3:
                    found = 'unsorted'
                elif len(a) > 3 and a[3] == 'reversed':
                    if found != 'unsorted':
                        rev = {FALSE: TRUE, TRUE: FALSE}.get(found[2])
                        if rev is None:
                            return None
                        found = ('by', found[1], rev, found[3])
                else:
                    found = ('by', a[2], a[1], a[0])
            elif it.kind in WRITES + ('Insert',) and it.a and it.a[0] is o and found != 'unsorted':
                return None
        elif found != 'unsorted':
            for e, ls in events([it]):
                if e.kind in WRITES + ('Insert', 'Sort', 'Reverse') and e.a and e.a[0] is o:
                    return None
    return found


def value_at(t, env):
    """the value of an arithmetic term for given values of its variables; None when it is not arithmetic"""
    if t in env:
        return env[t]
    if t.op == 'poly':
        total = Fraction(0)
        for mono, c in t.args:
            v = c
            for a, e in mono:
                x = value_at(a, env)
                if x is None or x == 0 and e < 0:
                    return None
                v *= (Fraction(x) if isinstance(x, int) else x) ** e
            total += v
        return total
    if t.op == 'const':
        return t.args[0] if isinstance(t.args[0], (int, Fraction)) else None
    if t.op in ('floordiv', 'mod', 'log'):
        a, b = value_at(t.args[0], env), value_at(t.args[1], env)
        if a is None or b is None or b == 0 and t.op != 'log':
            return None
        if t.op == 'log':
            if a <= 0 or b not in (0, 2, 10):
                return None
            return math.log2(a) if b == 2 else (math.log(a) if b == 0 else math.log10(a))
        return a // b if t.op == 'floordiv' else a % b
    if t.op == 'mcall' and t.args[1] == 'bit_length' and len(t.args) == 2:
        a = value_at(t.args[0], env)
        return None if a is None or a != int(a) else int(a).bit_length()
    if t.op in ('tmin', 'tmax', 'min', 'max'):
        xs = [value_at(x, env) for x in t.args]
        return None if None in xs else (min if t.op in ('tmin', 'min') else max)(xs)
    return None
