"""Three-valued decisions on affine literals, with case splits on min/max atoms."""
from .terms import *
from . import num

SIMPLE = {'sym', 'attr', 'len', 'index', 'elem', 'min', 'max', 'call', 'mcall', 'param'}


def _mm_atoms(facts, lit):
    out = []
    for t in [lit] + list(facts):
        for x in walk(t):
            if x.op in ('min', 'max') and len(x.args) == 2 and x not in out:
                out.append(x)
    return out


def _splits(facts, lit):
    """case distinctions: (kind, cases) with cases = [(substitution, extra fact)]"""
    for f in facts:
        if f.op == 'not' and f.args[0].op == 'eq0' and int_like(f.args[0].args[0]):
            p = f.args[0].args[0]
            yield [({}, cmp_ge(sub(p, const(1))), f), ({}, cmp_ge(sub(neg(p), const(1))), f)]
    for m in _mm_atoms([f for f in facts if f.op in ('ge0', 'gt0', 'eq0', 'not')], lit):
        a, b = m.args
        if m.op == 'min':
            yield [({m: a}, cmp_ge(sub(b, a)), None), ({m: b}, cmp_ge(sub(a, b)), None)]
        else:
            yield [({m: a}, cmp_ge(sub(a, b)), None), ({m: b}, cmp_ge(sub(b, a)), None)]


def prove(facts, lit, depth=3):
    facts = tuple(facts)
    if lit is TRUE or num.entails(facts, lit):
        return True
    if lit is FALSE and _infeasible(facts):
        return True
    if depth <= 0:
        return False
    for cases in _splits(facts, lit):
        good = True
        for m, f, drop in cases:
            fs = tuple(subst(x, m) if m else x for x in facts if x is not drop) + (f,)
            l2 = subst(lit, m) if m else lit
            if _infeasible(fs):
                continue
            if not prove(fs, l2, depth - 1):
                good = False
                break
        if good:
            return True
        if len(facts) > 40:
            break
    return False


def _infeasible(facts):
    if FALSE in facts:
        return True
    for f in facts:
        if neg_lit(f) in facts:
            return True
    return num.infeasible(num.fact_cons(facts, ZERO_))


def inconsistent(facts, depth=2):
    facts = tuple(facts)
    if _infeasible(facts):
        return True
    if depth <= 0:
        return False
    for cases in _splits(facts, TRUE):
        if all(inconsistent(tuple(subst(x, m) if m else x for x in facts if x is not drop) + (f,), depth - 1)
               for m, f, drop in cases):
            return True
    return False


ZERO_ = const(0)


def atoms(t):
    """numeric atoms of a literal / polynomial"""
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if x.op in ('ge0', 'gt0', 'eq0', 'not', 'min', 'max'):
            st.extend(x.args)
        elif x.op == 'poly':
            for m, _ in x.args:
                for a, e in m:
                    st.append(a)
                    if len(m) > 1 or e != 1:
                        out.add(mk('nonlinear', a))
        elif x.op == 'const':
            pass
        else:
            out.add(x)
    return out


def simple(t, allow=()):
    return all(a.op in SIMPLE or a in allow for a in atoms(t))


def decide(facts, lit, allow=()):
    """True (holds), False (does not follow, everything understood), None (not understood)"""
    if prove(facts, lit):
        return True
    if num.refuted(facts, lit):
        return False
    return False if simple(lit, allow) else None


def eqlit(a, b):
    return cmp_eq(a, b)
