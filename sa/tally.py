"""What a counter over a list counts: a linear combination of the numbers of elements having given features."""
from .terms import *
from .fold import loop_index, steps
from .shape import clear, has, vwalk
from .engine import Ev
from .prove import inconsistent


class Reader(object):
    """features: {name: recogniser(literal, element) -> 1, -1 when it says the opposite, 0}; source(seq) -> label of the list (a str) or None"""
    def __init__(self, eng, items, features, source):
        self.eng, self.index, self.features, self.source = eng, loop_index(items), features, source
        self.names = sorted(features)
        self.why = []                       # (construct text, loc) of readings that are certainly something else

    def combos(self, facts, x):
        """the feature sets an element may have under the facts on it; None when a fact is of another kind"""
        have, clean = {}, True
        for q in facts:
            pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
            if not has(h, x):
                continue
            if h.op == 'in' and h.args[0] is x or h.op == 'ge0' and not any(y.op == 'attr' and y.args[0] is x for y in walk(h)):
                continue
            n, sign = next(((n, r) for n in self.names for r in (self.features[n](h, x),) if r), (None, 0))
            if n is None:
                clean = False
                self.other = q
                continue
            pos = pos == (sign > 0)
            if n in have and have[n] != pos:
                return []
            have[n] = pos
        out = [()]
        for n in self.names:
            out = [c + (b,) for c in out for b in ((have[n],) if n in have else (False, True))]
        return out if clean else None

    def count(self, t):
        """(label, {feature set: coefficient}) of a counting term"""
        if t.op == 'len':
            s = t.args[0]
            lab = self.source(s)
            if lab is not None:
                return lab, {frozenset(): 1}
            if s.op == 'mapseq':
                return self.mapped(s, lambda e: 1)
            if s.op == 'obj':
                return self.kept(s)
            return None
        if t.op == 'agg' and t.args[0] == 'sum' and t.args[1].op == 'mapseq':
            return self.mapped(t.args[1], num_val)
        if t.op == 'out':
            return self.looped(t)
        return None

    def mapped(self, s, weight):
        i, expr, cond, src = s.args[0], s.args[1], s.args[3], s.args[5] if len(s.args) > 5 else None
        lab = self.source(src) if isinstance(src, T) else None
        if lab is None:
            return None
        w = weight(expr)
        if w is None:
            return None
        if cond is TRUE:
            return lab, {frozenset(): w}
        x = next((y for y in walk(cond) if y.op == 'elem' and y.args[0] is src), None)
        if x is None:
            return None
        if cond.op == 'or':
            return None
        cs = self.combos(cond.args if cond.op == 'and' else (cond,), x)
        return None if cs is None else (lab, self.moebius({c: w for c in cs}))

    def kept(self, o):
        """a list collecting elements of the source in one loop: its length"""
        fl = self.filter_of(o)
        if fl is None:
            return None
        lab, table = fl
        return lab, self.moebius({c: 1 for c in table})

    def filter_of(self, o):
        """(label, feature combinations kept) of a list made by appending in one loop"""
        hits = []
        for L in self.index.values():
            if any(isinstance(e, Ev) and e.a and e.a[0] is o for b in L.bodies for e in b.trace):
                hits.append(L)
        if len(hits) != 1 or hits[0].seq is None or hits[0].elem is None:
            return None
        L = hits[0]
        base = None
        lab = self.source(L.seq)
        if lab is None and L.seq.op == 'obj' and L.seq is not o:
            r = self.filter_of(L.seq)
            if r is None:
                return None
            lab, base = r
        if lab is None:
            return None
        keep = set()
        for b in L.bodies:
            if b.kind != 'next' or any(not isinstance(e, Ev) for e in b.trace):
                return None
            mine = [e for e in b.trace if e.a and e.a[0] is o and e.kind not in ('Attr', 'Index', 'Len')]
            cs = self.combos(b.facts, L.elem)
            if cs is None:
                return None
            if not mine:
                continue
            if len(mine) != 1 or mine[0].kind != 'Append' or mine[0].a[1] is not L.elem:
                return None
            keep |= set(cs)
        return lab, keep if base is None else keep & set(base)

    def looped(self, t):
        r = steps(self.eng, t, self.index)
        if r is None or r[0] is None or num_val(r[0]) is None:
            return None
        init, st = r
        table, lab, L = {}, None, self.index.get(t.args[0])
        for q in st:
            if len(q.chain) != 1 or q.op not in ('keep', 'sum'):
                return None
            b = q.chain[0][1]
            if b.kind == 'break':
                if clear_all(q.facts):
                    self.why.append(('stops early', L.loc))
                return None
            w = 0 if q.op == 'keep' else num_val(q.amount)
            if w is None or L.seq is None:
                return None
            s, extra = L.seq, ()
            x = L.elem
            if s.op == 'mapseq' and s.args[5] is not True and isinstance(s.args[5], T):
                c = s.args[3]
                y = s.args[1]
                if y.op != 'elem' or y.args[0] is not s.args[5]:
                    return None
                lab = self.source(s.args[5])
                cs0 = self.combos(c.args if c.op == 'and' else (c,), y)
                if cs0 is None or c.op == 'or':
                    return None
            elif s.op == 'obj':
                fl = self.filter_of(s)
                if fl is None:
                    return None
                lab, cs0 = fl
            else:
                lab = self.source(s)
                cs0 = None
                if lab is None and s.op == 'slice' and self.source(s.args[0]) is not None and self.partly(s):
                    self.why.append(('looks at a part of the candidates: %s' % show(s)[:120], L.loc))
                    return None
            if lab is None or x is None:
                return None
            cs = self.combos(q.facts, x)
            if cs is None:
                if clear_all(q.facts) and w:
                    self.why.append(('counts those with %s' % show(self.other)[:120], q.loc))
                return None
            for c in cs:
                if cs0 is not None and c not in cs0:
                    continue
                if table.setdefault(c, w) != w:
                    return None
        m = self.moebius(table)
        v = num_val(init)
        if v:
            self.why.append(('starts at %s' % v, L.loc))
            return None
        return lab, m

    def partly(self, s):
        """does the slice leave something out? its bounds are numbers and the length"""
        src, lo, hi = s.args[0], s.args[1], s.args[2]
        if hi is not NONE and hi.op == 'len' and hi.args[0] is src:
            hi = NONE
        if num_val(lo) == 0 and hi is NONE:
            return False
        return all(y is NONE or all(z.op in ('poly', 'len', 'min', 'max') for z in (x for m in pd(y) for x, e in m)) for y in (lo, hi))

    def flag(self, t):
        """(start, value set, how many elements set it) of a value a loop sets to one constant for some elements"""
        r = steps(self.eng, t, self.index)
        if r is None or r[0] is None or constant(r[0]) is None:
            return None
        lab, table, val, L = None, {}, None, self.index.get(t.args[0])
        for q in r[1]:
            if len(q.chain) != 1 or q.op not in ('keep', 'set') or q.chain[0][1].kind == 'break' or L.seq is None or L.elem is None:
                return None
            lab = self.source(L.seq)
            cs = self.combos(q.facts, L.elem) if lab is not None else None
            if cs is None:
                return None
            if q.op == 'set':
                v = constant(q.amount)
                if v is None or val not in (None, v):
                    return None
                val = v
            for c in cs:
                if table.setdefault(c, int(q.op == 'set')) != int(q.op == 'set'):
                    return None
        if val is None or val == constant(r[0]):
            return None
        return constant(r[0]), val, add(const(0), *[scale(atom(lab, fs), c) for fs, c in self.moebius(table).items()])

    def flags(self, t, m):
        """comparisons of flags as comparisons of the counts behind them, the flags elsewhere as values of their own"""
        seen = {}
        for y in walk(t):
            if y.op == 'out' and y not in m and y not in seen:
                r = self.flag(y)
                if r is not None:
                    seen[y] = r
        for y in walk(t) if seen else ():
            if y.op in ('eq0', 'ge0', 'gt0', 'truth'):
                fl = [z for z in walk(y) if z in seen]
                if len(fl) != 1:
                    continue
                a, b, n = seen[fl[0]]
                ans = []
                for v in (a, b):
                    if y.op == 'truth':
                        ans.append(bool(v) if y.args[0] is fl[0] else None)
                        continue
                    k = num_val(subst(y.args[0], {fl[0]: const(v)}))
                    ans.append(None if k is None else k == 0 if y.op == 'eq0' else k >= 0 if y.op == 'ge0' else k > 0)
                if None in ans:
                    continue
                some = cmp_ge(sub(n, const(1)))
                m[y] = (TRUE if ans[0] else FALSE) if ans[0] == ans[1] else some if ans[1] else neg_lit(some)
        for y, (a, b, n) in seen.items():
            m[y] = mk('sym', 'whether there are %s' % show(n), 'iter')

    def moebius(self, table):
        """coefficients of the numbers of elements having all of a set of features"""
        n = len(self.names)
        out = {}
        for mask in range(1 << n):
            c = 0
            sub_ = mask
            while True:
                v = table.get(tuple(bool(sub_ >> i & 1) for i in range(n)), 0)
                c += v * (-1) ** bin(mask ^ sub_).count('1')
                if sub_ == 0:
                    break
                sub_ = (sub_ - 1) & mask
            if c:
                out[frozenset(self.names[i] for i in range(n) if mask >> i & 1)] = c
        return out

    def canonical(self, t, extra=lambda t: None):
        """t with its counters written over atom(label, features); None when a counter is not understood"""
        m = {}
        for y in walk(t):
            if y.op == 'truth' and y.args[0].op == 'obj':
                r = self.count(mk('len', y.args[0], y.args[1]))
                if r is not None:
                    m[y] = cmp_ge(sub(add(*[scale(atom(r[0], fs), c) for fs, c in r[1].items()]), const(1)))
                continue
            if y in m or y.op not in ('out', 'agg', 'len'):
                continue
            r = self.count(y)
            if r is not None:
                m[y] = add(*[scale(atom(r[0], fs), c) for fs, c in r[1].items()]) if r[1] else const(0)
            else:
                z = extra(y)
                if z is not None:
                    m[y] = z
        self.flags(t, m)
        return subst(t, m) if m else t


def constant(v):
    if v.op == 'const' and isinstance(v.args[0], bool):
        return int(v.args[0])
    k = num_val(v)
    return None if k is None or k != int(k) else int(k)


def atom(label, features=()):
    return mk('sym', 'number of %s%s' % (label, ''.join(' ' + f for f in sorted(features))), 'iter')


def relations(label, names, base=()):
    """what holds of the numbers of elements having sets of features, those of base always included"""
    out = []
    sets = [frozenset(base) | frozenset(n for i, n in enumerate(names) if k >> i & 1) for k in range(1 << len(names))]
    for s in sets:
        out.append(cmp_ge(atom(label, s)))
        for n in names:
            if n not in s:
                out.append(cmp_ge(sub(atom(label, s), atom(label, s | {n}))))
                for m in names:
                    if m > n and m not in s:
                        out.append(cmp_ge(add(atom(label, s), atom(label, s | {n, m}), neg(atom(label, s | {n})), neg(atom(label, s | {m})))))
    return out


METHODS = ('modifies_flags', 'is_a', 'registers_written', 'registers_read', 'registers_used', 'storages_written', 'storages_read', 'storages_used',
           'candidate_count')


def plain(t):
    """clear, the questions put to an instruction being values of their own"""
    return clear(t, {y for y in walk(t) if y.op == 'mcall' and y.args[1] in METHODS}) and not any(
        y.op == 'len' and y.args[0].op == 'obj' or y.op in ('agg', 'mapseq') for y in vwalk(t))


def clear_all(fs):
    return all(plain(q) for q in fs)
