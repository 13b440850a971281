"""Normal form of expressions that select or place bits, on top of the segment terms of terms.py."""
from .terms import *
from . import terms as tm

ONE = const(1)


def norm(t):
    if not isinstance(t, T):
        return t
    if t.op == 'not':
        return neg_lit(norm(t.args[0]))
    if t.op == 'truth':
        x = norm(t.args[0])
        return neg_lit(norm(cmp_eq(x, const(0)))) if is_int(x) else t
    if t.op == 'eq0':
        return norm_eq0(norm(t.args[0]))
    if t.op == 'ge0':
        p = norm(t.args[0])
        b = add(p, ONE)
        if b.op == 'bits' and b.args[1] is ZERO:          # bits - 1 >= 0, bits never negative
            return neg_lit(norm_eq0(b))
        return cmp_ge(p)
    if t.op == 'gt0':
        p = norm(t.args[0])
        if p.op == 'bits' and p.args[1] is ZERO:
            return neg_lit(norm_eq0(p))
        return cmp_gt(p)
    if t.op == 'floordiv':
        a, b = norm(t.args[0]), norm(t.args[1])
        e = tm.log2_of(b)
        while e is not None and a.op == 'floordiv' and tm.log2_of(a.args[1]) is not None:
            e = add(e, tm.log2_of(a.args[1]))
            a = a.args[0]
        if e is not None:
            if a.op == 'bits' and a.args[1] is ZERO and all(num_val(sub(s[0], e)) is None or num_val(sub(s[0], e)) >= 0
                                                           for s in a.args[0]):
                pass
            return mk('floordiv', a, pow2(e)) if num_val(pow2(e)) != 1 else a
        return floordiv(a, b)
    if t.op in ('or', 'and', 'xor'):
        xs = [norm(x) for x in t.args]
        f = {'or': bit_or, 'and': bit_and, 'xor': bit_xor}[t.op]
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        if r.op == 'xor':
            # xor with a value that is zero outside a region which is zero in the other operand
            q = bit_or_disjoint(r.args)
            if q is not None:
                return q
        return r
    if t.op == 'bits':
        bg = norm(t.args[1]) if t.args[1] is not ZERO else ZERO
        segs = []
        for lo, hi, src, off in t.args[0]:
            if src is not ZERO:
                s, o = tm.seg_source(norm(src))
                segs.append((lo, hi, s, add(off, o)))
            else:
                segs.append((lo, hi, src, off))
        return tm.mk_bits(tuple(segs), bg)
    if t.op == 'poly':
        d = {}
        for m, c in t.args:
            r = const(c)
            for a, e in m:
                x = norm(a)
                for _ in range(e if e > 0 else 0):
                    r = mul(r, x)
                if e < 0:
                    r = mul(r, poly({((a, e),): Fraction(1)}))
            d[m] = r
        p = const(0)
        for r in d.values():
            p = add(p, r)
        return norm_mod(p)
    return t


def is_int(x):
    return x.op in ('bits', 'poly', 'floordiv', 'or', 'and', 'xor', 'sym', 'pow2')


def norm_mod(p):
    """v//2^e - 2^k * (v // 2^(e+k))  ->  the k bits of v at e"""
    d = tm.pd(p)
    for m, c in list(d.items()):
        if c >= 0:
            continue
        fl = [a for a, e in m if a.op == 'floordiv' and e == 1]
        if len(fl) != 1:
            continue
        fl = fl[0]
        top = tm.log2_of(fl.args[1])
        rest = poly({tuple(x for x in m if x[0] is not fl): -c})
        k = tm.log2_of(rest)
        if top is None or k is None:
            continue
        e = sub(top, k)
        low = fl.args[0] if e is const(0) or num_val(e) == 0 else mk('floordiv', fl.args[0], pow2(e))
        q = add(p, mul(rest, fl))
        q2 = sub(q, low)
        if len(tm.pd(q2)) < len(d) - 1:
            return add(q2, tm.mk_bits(((const(0), k, fl.args[0], e),), ZERO))
    return p


def bit_or_disjoint(args):
    if len(args) != 2:
        return None
    for x, y in (args, args[::-1]):
        bx, by = tm.as_bits(x), tm.as_bits(y)
        if bx and by and by[1] is ZERO:
            zs = [(s[0], s[1]) for s in bx[0] if s[2] is ZERO]
            if all((s[0], s[1]) in zs for s in by[0]):
                return bit_or(x, y)
    return None


def norm_eq0(p):
    d = tm.pd(p)
    for sgn in (1, -1):
        b = add(scale(p, sgn), ONE)        # p == bits - 1
        if b.op == 'bits' and b.args[1] is ZERO and len(b.args[0]) == 1:
            lo, hi, src, off = b.args[0][0]
            if num_val(sub(hi, lo)) == 1 and num_val(lo) == 0:
                return neg_lit(norm_eq0(b))
    if p.op == 'bits' and p.args[1] is ZERO and len(p.args[0]) == 1:
        lo, hi, src, off = p.args[0][0]
        if src is not ZERO:
            return cmp_eq(tm.mk_bits(((add(lo, off), add(hi, off), src, const(0)),), ZERO), const(0))
    if p.op == 'bits' and p.args[1] is not ZERO:
        return mk('eq0', p)
    return cmp_eq(p, const(0))


CANON_LEAF = {'sym'}


def canon_int(t):
    """normal forms that are equal only when the functions are equal"""
    if t.op == 'sym':
        return True
    if t is ZERO:
        return True
    if t.op == 'const':
        return True
    if t.op == 'bits':
        return all((s[2] is ZERO or s[2].op == 'sym') and canon_exp(s[0]) and canon_exp(s[1]) for s in t.args[0]) \
            and (t.args[1] is ZERO or t.args[1].op == 'sym') and len(t.args[0]) == 1
    if t.op == 'floordiv':
        return t.args[0].op == 'sym' and tm.log2_of(t.args[1]) is not None
    if t.op == 'pow2':
        return canon_exp(t.args[0])
    if t.op == 'poly':
        return all(a.op == 'sym' or (a.op == 'pow2' and canon_exp(a.args[0]) and e > 0) for m, c in t.args for a, e in m)
    if t.op == 'or':
        return len(t.args) == 2 and all(canon_int(x) for x in t.args)
    return False


def canon_exp(t):
    return all(x.op in ('sym', 'poly') for x in walk(t))


def canon_bool(t):
    if t.op == 'const':
        return True
    if t.op == 'not':
        return canon_bool(t.args[0])
    if t.op in ('eq0', 'ge0', 'gt0'):
        return canon_int(t.args[0])
    return False
