"""What a function does, flattened: every effect with the loops around it, what is known there, and where it stands."""
from .terms import *
from .engine import Ev, LoopItem, Alt, V0
from .prove import prove, inconsistent

VERSIONED = {'elem': 2, 'index': 2, 'len': 1, 'in': 2, 'truth': 1, 'exists': 2, 'has': 2}
WRAPS = ('items', 'keys', 'list', 'copy', 'reversed', 'sorted', 'enumerate', 'at')


def flat(t, ranges=None, memo=None, rewrite=None):
    """the term without versions; x[i] with i running over range(len(x)) is an element of x"""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(flat(x, ranges, memo, rewrite) for x in t)
    if not isinstance(t, T):
        return t
    if t in memo:
        return memo[t]
    if t.op == 'poly':
        r = const(0)
        for mono, c in t.args:
            p = const(c)
            for a, e in mono:
                b = flat(a, ranges, memo, rewrite)
                p = mul(p, ipow(b, e)) if e > 0 else div(p, ipow(b, -e))
            r = add(r, p)
    elif t.op == 'at':
        r = flat(t.args[0], ranges, memo, rewrite)
    else:
        a = [flat(x, ranges, memo, rewrite) for x in t.args]
        k = VERSIONED.get(t.op)
        if k is not None and len(a) > k:
            a[k:] = [V0]
        if t.op in ('ge0', 'eq0', 'gt0') and len(a) == 1 and isinstance(a[0], T):
            r = {'ge0': cmp_ge, 'gt0': cmp_gt}[t.op](a[0]) if t.op != 'eq0' else cmp_eq(a[0], const(0))
        elif t.op == 'not' and isinstance(a[0], T):
            r = neg_lit(a[0])
        else:
            r = mk(t.op, *a)
        if r.op == 'index' and ranges and r.args[1] in ranges and ranges[r.args[1]] is r.args[0]:
            r = mk('elem', r.args[0], r.args[1], V0)
    if rewrite is not None:
        r = rewrite(r)
    memo[t] = r
    return r


class Spot(object):
    """one event where it stands"""
    __slots__ = ('ev', 'kind', 'a', 'nest', 'facts', 'pos')

    def __init__(self, ev, a, nest, facts, pos):
        self.ev, self.kind, self.a, self.nest, self.facts, self.pos = ev, ev.kind, a, nest, facts, pos


class Loop1(object):
    """a loop where it stands"""
    __slots__ = ('loop', 'item', 'nest', 'facts', 'pos', 'over', 'elem')


class Walk(object):
    def __init__(self, eng, s, rewrite=None):
        self.eng, self.s, self.rewrite = eng, s, rewrite
        self.ranges, self.memo = {}, {}
        self.spots, self.loops, self.bodies = [], [], {}
        self.find_ranges(s.items())
        self.base = self.fs(s.facts)
        self.go(s.items(), (), self.base, ())

    def find_ranges(self, items):
        for it in items:
            if isinstance(it, LoopItem):
                L = it.loop
                q = L.seq
                if q is not None and q.op == 'range' and len(q.args) >= 2:
                    lo, hi = (const(0), q.args[0]) if len(q.args) == 1 else q.args[:2]
                    if num_val(lo) == 0 and hi.op == 'len':
                        self.ranges[L.iota] = flat(hi.args[0], None, None, self.rewrite)
                for b in L.bodies:
                    self.find_ranges(b.trace)
            elif isinstance(it, Alt):
                for fs, tr in it.paths:
                    self.find_ranges(tr)

    def t(self, x):
        return flat(x, self.ranges, self.memo, self.rewrite)

    def fs(self, facts):
        return tuple(dict.fromkeys(self.t(f) for f in facts))

    def go(self, items, nest, facts, pos):
        for i, it in enumerate(items):
            here = pos + (i,)
            if isinstance(it, Ev):
                self.spots.append(Spot(it, tuple(self.t(a) for a in it.a), nest, facts, here))
            elif isinstance(it, LoopItem):
                L = it.loop
                l = Loop1()
                l.loop, l.item, l.nest, l.facts, l.pos = L, it, nest, facts, here
                l.over = self.over(L)
                l.elem = self.t(L.elem) if L.elem is not None else None
                if l.elem is not None and l.elem.op == 'tuple' and L.seq is not None and L.seq.op == 'items':
                    l.elem = l.elem.args[0]
                self.loops.append(l)
                known = {id(b) for b in L.bodies}
                for j, b in enumerate(list(L.bodies) + ([it.body] if it.body is not None and id(it.body) not in known else [])):
                    self.go(b.trace, nest + ((l, b),), facts + self.fs(b.facts), here + (j,))
            elif isinstance(it, Alt):
                for j, (fs, tr) in enumerate(it.paths):
                    self.go(tr, nest, facts + self.fs(fs), here + (j,))

    def over(self, L):
        q = L.seq
        if q is None:
            return None
        if L.iota in self.ranges:
            return self.ranges[L.iota]
        while q.op in WRAPS and q.args:
            q = q.args[0]
        return self.t(q)

    def find(self, kind, *pats):
        """events whose arguments meet the patterns (None: anything; callable: a test; term: that term)"""
        out = []
        for p in self.spots:
            if p.kind == kind and len(p.a) >= len(pats) and all(meets(x, y) for x, y in zip(p.a, pats)):
                out.append(p)
        return out

    def called(self, name, recv=None):
        """(spot, arguments) of the calls of a method or function"""
        out = []
        for p in self.spots:
            if p.kind == 'Call' and isinstance(p.a[0], str) and p.a[0].split('.')[-1] == name:
                out.append((p, tuple(p.a[1])))
            elif p.kind == 'CallUnknown' and p.a and isinstance(p.a[0], T) and p.a[0].op == 'attr' and p.a[0].args[1] == name:
                out.append((p, tuple(p.a[1])))
            elif p.kind == 'MCall' and len(p.a) > 1 and p.a[1] == name:
                out.append((p, tuple(p.a[2]) if len(p.a) > 2 else ()))
        return out

    def over_of(self, elem):
        """the loop whose element the term is"""
        for l in self.loops:
            if l.elem is elem:
                return l
        return None

    def skips(self, p):
        """(loop, inner loop, what is known, kind) of the ways through the loops around an event that never enter the loop it is in"""
        for (l, b0), (inner, b1) in zip(p.nest, p.nest[1:]):
            for b in l.loop.bodies:
                if b.kind in ('raise', 'return'):
                    continue
                for fs, tr in straight(b.trace):
                    if not any(isinstance(e, LoopItem) and e.loop.loc == inner.loop.loc for e in tr):
                        got = tuple(dict.fromkeys(self.fs(b.facts) + self.fs(fs)))
                        if not inconsistent(l.facts + got):
                            yield l, inner, got, b.kind

    def paths(self, l):
        """(facts, body, straight effect list, spots) of every way through a loop's body"""
        for b in l.loop.bodies:
            for fs, tr in straight(b.trace):
                yield l.facts + self.fs(b.facts) + self.fs(fs), b, tr


def straight(items, facts=()):
    outs = [(tuple(facts), [])]
    for it in items:
        if isinstance(it, Alt):
            new = []
            for f, tr in outs:
                for fs, t in it.paths:
                    for f2, t2 in straight(t):
                        new.append((f + tuple(fs) + f2, tr + t2))
            outs = new
            if len(outs) > 200:
                raise RuntimeError('too many paths')
        else:
            for _, tr in outs:
                tr.append(it)
    return outs


def meets(x, p):
    if p is None:
        return True
    if isinstance(p, T) or isinstance(p, str):
        return x is p or x == p
    return bool(p(x))


def before(p, q):
    """p comes before q on every path with both (None: on different ways)"""
    for i, (a, b) in enumerate(zip(p.pos, q.pos)):
        if a != b:
            return a < b if i % 2 == 0 else None
    return len(p.pos) < len(q.pos)


def inside(p, l):
    """the event is within the loop"""
    return p.pos[:len(l.pos)] == l.pos and len(p.pos) > len(l.pos)


def attr(name, base=None):
    return lambda t: isinstance(t, T) and t.op == 'attr' and t.args[1] == name and (base is None or t.args[0] is base)


def says(facts, lit):
    """True: the facts prove it; False: they refute it; None"""
    if prove(facts, lit):
        return True
    if prove(facts, neg_lit(lit)):
        return False
    return None
