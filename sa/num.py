"""Affine-inequality entailment over polynomial normal forms.

A fact set is closed under Fourier-Motzkin elimination with monomials treated as
independent variables (sound; incomplete for non-linear facts).  Bounds implied by
the shape of an atom (lengths, floor divisions, min/max, powers of two, loop
counters) are added on demand.  There is no external solver.
"""
from fractions import Fraction
from .terms import *
from . import terms as tm

MAXC = 350


def atom_facts(t, seen, out):
    """inequalities p >= 0 implied by the atoms of t"""
    for a in list(walk(t)):
        if a in seen:
            continue
        seen.add(a)
        if a.op == 'len':
            out.append(a)
        elif a.op == 'iters' or (a.op == 'sym' and len(a.args) > 1 and a.args[1] == 'iter'):
            out.append(a)
        elif a.op == 'pow2':
            e = a.args[0]
            if all(c >= 0 for c in pd(e).values()):
                out.append(sub(a, const(1)))
        elif a.op == 'floordiv':
            v = num_val(a.args[1])
            if v is not None and v > 0:
                r = sub(a.args[0], scale(a, v))
                out.append(r)
                out.append(sub(const(v - 1), r))
                atom_facts(a.args[0], seen, out)
        elif a.op == 'min':
            for x in a.args:
                out.append(sub(x, a))
                atom_facts(x, seen, out)
        elif a.op == 'max':
            for x in a.args:
                out.append(sub(a, x))
                atom_facts(x, seen, out)
        elif a.op == 'absv':
            out.append(a)
            out.append(sub(a, a.args[0]))
            out.append(add(a, a.args[0]))


def lit_ineqs(lit, pol=True):
    """literal -> list of (poly, strict) constraints, [] if not numeric"""
    if lit.op == 'not':
        return lit_ineqs(lit.args[0], not pol)
    if lit.op == 'ge0':
        return [(lit.args[0], False)] if pol else lit_ineqs(neg_lit(lit))
    if lit.op == 'gt0':
        return [(lit.args[0], True)] if pol else [(neg(lit.args[0]), False)]
    if lit.op == 'eq0' and pol:
        return [(lit.args[0], False), (neg(lit.args[0]), False)]
    if lit.op == 'truth' and pol:
        return [(sub(mk('len', lit.args[0], lit.args[1]), const(1)), False)]
    if lit.op == 'truth' and not pol:
        return [(neg(mk('len', lit.args[0], lit.args[1])), False)]
    return []


def _vars(c):
    return [m for m in c[0] if m != ()]


def _tight(d, strict):
    """integer tightening of sum(c_i m_i) + k >= 0"""
    if all(tm.int_like_mono(m) for m in d if m != ()):
        cs = [c for m, c in d.items() if m != ()]
        if cs:
            l = 1
            for c in cs:
                l = l * c.denominator // tm._gcd(l, c.denominator)
            k = d.get((), Fraction(0)) * l
            cs2 = [int(c * l) for c in cs]
            g = 0
            for c in cs2:
                g = tm._gcd(g, abs(c))
            if strict:
                if k.denominator == 1:
                    k = k - 1
                else:
                    k = Fraction(k.numerator // k.denominator)
                strict = False
            k = Fraction((k / g).numerator // (k / g).denominator)
            d2 = {m: c * l / g for m, c in d.items() if m != ()}
            d2[()] = k
            return d2, strict
    return d, strict


def _norm(d, strict):
    d, strict = _tight(d, strict)
    lead = None
    for m in sorted((m for m in d if m != ()), key=lambda m: tuple((a.key, e) for a, e in m)):
        if d[m] != 0:
            lead = abs(d[m])
            break
    if lead:
        d = {m: c / lead for m, c in d.items() if c != 0 or m == ()}
    else:
        d = {m: c for m, c in d.items() if m == ()}
    return d, strict


def infeasible(cons):
    """cons: list of (poly term, strict).  True only when no rational (integer-
    tightened) point satisfies them."""
    work = []
    seen = set()

    def push(lst, d, s):
        d, s = _norm(d, s)
        vs = [m for m in d if m != ()]
        k = d.get((), Fraction(0))
        if not vs:
            if k < 0 or (s and k <= 0):
                return True
            return False
        key = (tuple(sorted(((tuple((a.key, e) for a, e in m), c) for m, c in d.items() if m != ()))))
        lst.append((d, s, key))
        return False

    for p, s in cons:
        if push(work, pd(p), s):
            return True
    while True:
        # keep the strongest constraint per direction
        best = {}
        for d, s, key in work:
            k = d.get((), Fraction(0))
            o = best.get(key)
            if o is None or (k, not s) < (o[0].get((), Fraction(0)), not o[1]):
                best[key] = (d, s)
        work = [(d, s, key) for key, (d, s) in best.items()]
        vs = {}
        for d, s, _ in work:
            for m, c in d.items():
                if m != ():
                    p, n = vs.get(m, (0, 0))
                    vs[m] = (p + (c > 0), n + (c < 0))
        if not vs:
            return False
        m = min(vs, key=lambda v: (vs[v][0] * vs[v][1] - vs[v][0] - vs[v][1],
                                   tuple((a.key, e) for a, e in v)))
        pos = [(d, s) for d, s, _ in work if d.get(m, 0) > 0]
        ngs = [(d, s) for d, s, _ in work if d.get(m, 0) < 0]
        rest = [w for w in work if w[0].get(m, 0) == 0]
        if len(pos) * len(ngs) + len(rest) > MAXC:
            return False
        for d1, s1 in pos:
            for d2, s2 in ngs:
                a, b = d1[m], -d2[m]
                nd = {}
                for k, c in d1.items():
                    nd[k] = nd.get(k, 0) + c * b
                for k, c in d2.items():
                    nd[k] = nd.get(k, 0) + c * a
                nd.pop(m, None)
                nd = {k: c for k, c in nd.items() if c != 0 or k == ()}
                if push(rest, nd, s1 or s2):
                    return True
        work = rest


def relevant(cons, query):
    """transitive closure of constraints sharing a monomial with the query"""
    want = set(m for m in pd(query) if m != ())
    left = list(cons)
    out = []
    changed = True
    while changed:
        changed = False
        rem = []
        for c in left:
            ms = set(m for m in pd(c[0]) if m != ())
            if ms & want:
                out.append(c)
                if not ms <= want:
                    want |= ms
                changed = True
            else:
                rem.append(c)
        left = rem
    return out


def fact_cons(facts, query):
    cons = []
    for f in facts:
        cons.extend(lit_ineqs(f))
    seen = set()
    extra = []
    atom_facts(query, seen, extra)
    for p, _ in list(cons):
        atom_facts(p, seen, extra)
    # a second round for atoms introduced by the first
    for p in list(extra):
        atom_facts(p, seen, extra)
    cons.extend((p, False) for p in extra)
    return cons


def entails_ge(facts, p, strict=False):
    """facts |= p >= 0 (or > 0)"""
    v = num_val(p)
    if v is not None:
        return v > 0 if strict else v >= 0
    if p.op == 'min':
        return all(entails_ge(facts, a, strict) for a in p.args)
    if p.op == 'max' and any(entails_ge(facts, a, strict) for a in p.args):
        return True
    cons = fact_cons(facts, p)
    # negation of the goal
    goal = (neg(p), not strict)
    rel = relevant(cons, p)
    return infeasible(rel + [goal])


def entails(facts, lit, pol=True):
    if lit is TRUE:
        return pol
    if lit is FALSE:
        return not pol
    l = lit if pol else neg_lit(lit)
    if l in facts:
        return True
    if l.op == 'ge0':
        return entails_ge(facts, l.args[0])
    if l.op == 'gt0':
        return entails_ge(facts, l.args[0], True)
    if l.op == 'eq0':
        return entails_ge(facts, l.args[0]) and entails_ge(facts, neg(l.args[0]))
    if l.op == 'not' and l.args[0].op == 'eq0':
        p = l.args[0].args[0]
        return entails_ge(facts, p, True) or entails_ge(facts, neg(p), True)
    if l.op == 'truth':
        return entails_ge(facts, sub(mk('len', l.args[0], l.args[1]), const(1)))
    if l.op == 'not' and l.args[0].op == 'truth':
        return entails_ge(facts, neg(mk('len', *l.args[0].args)))
    return False


def refuted(facts, lit):
    """facts contradict lit"""
    return entails(facts, lit, False)
