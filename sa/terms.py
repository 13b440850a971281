"""Hash-consed terms with a polynomial normal form.

Every value the analysis manipulates is an interned term, so two values that
normalise to the same term are the same Python object.  Numeric values are kept
as polynomials with rational coefficients over atoms; powers of two are a
dedicated atom whose exponents add, `a % b` is rewritten to `a - b*(a // b)`,
shifts are multiplications/floor divisions by powers of two, and bit masking is
kept as a set of bit segments (`bits`).  This is the value-numbering domain of the
abstract interpreter in engine.py.
"""
from fractions import Fraction

_TAB = {}


class T(object):
    __slots__ = ('op', 'args', 'key', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.key < other.key


def _k(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(_k(x) for x in a) + ')'
    return repr(a)


_N = [0]


def mk(op, *args):
    k = (op,) + tuple((type(a).__name__, a) if isinstance(a, (bool, int, str, Fraction, float)) else a
                      for a in args)
    t = _TAB.get(k)
    if t is None:
        t = T.__new__(T)
        t.op, t.args = op, args
        t.key = op + '(' + ','.join(_k(a) for a in args) + ')'
        if len(t.key) > 300:
            import hashlib
            t.key = op + '#' + hashlib.sha1(t.key.encode()).hexdigest()
        _TAB[k] = t
    return t


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)):
        return mk('const', v if not isinstance(v, bytes) else v.decode('latin1'), type(v).__name__)
    if isinstance(v, int):
        return poly({(): Fraction(v)})
    if isinstance(v, float):
        return poly({(): Fraction(repr(v))})
    if isinstance(v, Fraction):
        return poly({(): v})
    return mk('const', repr(v), type(v).__name__)


TRUE = None
FALSE = None
NONE = None


def sym(name, *extra):
    return mk('sym', name, *extra)


# ------------------------------------------------------------------ polynomials
# dict: monomial -> Fraction ; monomial: tuple of (atom, exp) sorted by atom key

def poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0])))
    k = ('poly', items)
    t = _TAB.get(k)
    if t is None:
        t = T.__new__(T)
        t.op, t.args = 'poly', items
        t.key = 'poly(' + ','.join('*'.join('%s^%s' % (a.key, e) for a, e in m) + ':' + str(c)
                                   for m, c in items) + ')'
        if len(t.key) > 300:
            import hashlib
            t.key = 'poly#' + hashlib.sha1(t.key.encode()).hexdigest()
        _TAB[k] = t
    return t


def pd(t):
    """term -> polynomial dict"""
    if t.op == 'poly':
        return dict(t.args)
    if t.op == 'const' and t.args[1] == 'bool':
        return {(): Fraction(1)} if t.args[0] else {}
    return {((t, 1),): Fraction(1)}


def is_num(t):
    return t.op == 'poly' and all(m == () for m, _ in t.args)


def num_val(t):
    """Fraction value of a numeric constant, else None"""
    if t.op == 'poly':
        if not t.args:
            return Fraction(0)
        if len(t.args) == 1 and t.args[0][0] == ():
            return t.args[0][1]
        return None
    if t.op == 'const' and t.args[1] == 'bool':
        return Fraction(1 if t.args[0] else 0)
    return None


def int_val(t):
    v = num_val(t)
    if v is not None and v.denominator == 1:
        return int(v)
    return None


def add(*ts):
    d = {}
    for t in ts:
        for m, c in pd(t).items():
            d[m] = d.get(m, 0) + c
    return poly(d)


def scale(t, c):
    return poly({m: v * c for m, v in pd(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    """returns (coef, monomial)"""
    d = {}
    coef = Fraction(1)
    p2 = None
    for a, e in m1 + m2:
        if a.op == 'pow2':
            x = scale(a.args[0], e)
            p2 = x if p2 is None else add(p2, x)
        else:
            d[a] = d.get(a, 0) + e
    if p2 is not None:
        c, rest = pow2_parts(p2)
        coef *= c
        if rest is not None:
            d[rest] = d.get(rest, 0) + 1
    return coef, tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: (ae[0].key, ae[1])))


def pow2_parts(e):
    """2**e as (Fraction coefficient, pow2 atom or None)"""
    d = pd(e)
    c = d.pop((), Fraction(0))
    ci = c.numerator // c.denominator
    fr = c - ci
    if fr:
        d[()] = fr
    coef = Fraction(2) ** ci
    if not d:
        return coef, None
    return coef, mk('pow2', poly(d))


def pow2(e):
    c, a = pow2_parts(e)
    if a is None:
        return const(c)
    return scale(a, c)


def mul(a, b):
    d = {}
    for m1, c1 in pd(a).items():
        for m2, c2 in pd(b).items():
            c, m = _mono_mul(m1, m2)
            d[m] = d.get(m, 0) + c * c1 * c2
    return poly(d)


def ipow(a, n):
    r = const(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def power(a, b):
    va, vb = num_val(a), int_val(b)
    if va == 2:
        return pow2(b)
    if va is not None and vb is not None and abs(vb) < 200 and (va != 0 or vb >= 0):
        return const(va ** vb)
    if vb is not None and 0 <= vb <= 6:
        return ipow(a, vb)
    if va == 4:
        return pow2(scale(b, 2))
    if va is not None and va.denominator == 1 and va > 2:
        n = int(va)
        if n & (n - 1) == 0:
            return pow2(scale(b, n.bit_length() - 1))
    return mk('pow', a, b)


def div(a, b):
    vb = num_val(b)
    if vb is not None:
        if vb == 0:
            return mk('div0', a)
        return scale(a, 1 / vb)
    d = pd(b)
    if len(d) == 1:
        (m, c), = d.items()
        invm = []
        coef = Fraction(1) / c
        for at, e in m:
            if at.op == 'pow2':
                cc, r = pow2_parts(scale(at.args[0], -e))
                coef *= cc
                if r is not None:
                    invm.append((r, 1))
            else:
                invm.append((at, -e))
        invm = tuple(sorted(invm, key=lambda ae: (ae[0].key, ae[1])))
        return mul(a, poly({invm: coef}))
    # primitive denominator
    items = sorted(d.items(), key=lambda mc: tuple((x.key, e) for x, e in mc[0]))
    lead = items[-1][1]
    return scale(mul(a, mk('inv', scale(b, 1 / lead))), 1 / lead)


def floor_t(p):
    """floor of a rational expression (kept as floordiv numerator/denominator)"""
    d = pd(p)
    if not d:
        return p
    dens = {}
    lcm = 1
    for m, c in d.items():
        lcm = lcm * c.denominator // _gcd(lcm, c.denominator)
        for a, e in m:
            if e < 0:
                dens[a] = max(dens.get(a, 0), -e)
            if a.op == 'inv':
                dens[a] = max(dens.get(a, 0), e)
            if a.op == 'pow2':
                # negative symbolic exponent: syntactic test on the leading sign
                x = pd(a.args[0])
                if all(c2 < 0 for c2 in x.values()):
                    dens[a] = 1
    den = const(lcm)
    numr = scale(p, lcm)
    for a, e in dens.items():
        for _ in range(e):
            if a.op == 'inv':
                den = mul(den, a.args[0])
                numr = _mul_inv(numr, a)
            elif a.op == 'pow2':
                q = pow2(neg(a.args[0]))
                den = mul(den, q)
                numr = mul(numr, q)
            else:
                den = mul(den, a)
                numr = mul(numr, a)
    return floordiv(numr, den)


def _mul_inv(p, inv):
    out = const(0)
    for m, c in pd(p).items():
        m2 = []
        hit = False
        for a, e in m:
            if a is inv and not hit:
                hit = True
                if e > 1:
                    m2.append((a, e - 1))
            else:
                m2.append((a, e))
        t = poly({tuple(m2): c})
        out = add(out, t if hit else mul(t, inv.args[0]))
    return out


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def floordiv(a, b):
    va, vb = num_val(a), num_val(b)
    if va is not None and vb:
        return const(Fraction(va // vb))
    if vb is not None and vb != 0:
        if vb == 1 and int_like(a):
            return a
        if vb < 0:
            return floordiv(neg(a), const(-vb))
        if vb.denominator != 1:
            return floordiv(scale(a, vb.denominator), const(vb.numerator))
        out, rest = {}, {}
        for m, c in pd(a).items():
            if int_like_mono(m) and c.denominator == 1:
                q, r = divmod(c, vb)
                if q and (m != () or True):
                    out[m] = q
                if r:
                    rest[m] = r
            else:
                rest[m] = c
        r = poly(rest)
        rv = num_val(r)
        if rv is not None:
            return add(poly(out), const(Fraction(rv // vb)))
        # (x // c) // d == x // (c*d)
        if not out and r.op == 'floordiv' and num_val(r.args[1]) is not None:
            return floordiv(r.args[0], const(num_val(r.args[1]) * vb))
        return add(poly(out), mk('floordiv', r, const(vb)))
    if va == 0:
        return const(0)
    # exact multiple of a monomial divisor
    q = div(a, b)
    if int_like(q) and b.op != 'pow2' and not _has_pow2(b):
        return q
    return mk('floordiv', a, b)


def _has_pow2(t):
    return any(x.op == 'pow2' for m, _ in pd(t).items() for x, _e in m)


def mod(a, b):
    va, vb = num_val(a), num_val(b)
    if va is not None and vb:
        return const(va % vb)
    return sub(a, mul(b, floordiv(a, b)))


_FLOAT_OPS = {'inv', 'div0', 'float', 'log', 'sqrt'}
_FLOAT_ATTR = {'low_probability', 'high_probability'}


FLOAT_TERMS = set()          # accumulators of fractions, found by the engine


def atom_float(a):
    if a.op in _FLOAT_OPS or a in FLOAT_TERMS:
        return True
    if a.op == 'index' and a.args[0].op == 'call':
        return atom_float(a.args[0])
    if a.op == 'call' and isinstance(a.args[0], T) and a.args[0].op == 'fn':
        n = str(a.args[0].args[0]).split('.')[-1].lower()
        return 'prob' in n or 'score' in n
    if a.op == 'mcall' and a.args[1] in ('score',):
        return True
    if a.op == 'attr' and (a.args[1] in _FLOAT_ATTR or 'prob' in a.args[1]):
        return True
    if a.op in ('min', 'max'):
        return not all(int_like(x) for x in a.args if isinstance(x, T))
    return False


def int_like_mono(m):
    return all(e > 0 and not atom_float(a) for a, e in m)


def int_like(t):
    return all(c.denominator == 1 and int_like_mono(m) for m, c in pd(t).items())


def whole(t):
    """certainly an integer (a power of two with a negative exponent is not)"""
    if not int_like(t):
        return False
    for m, c in pd(t).items():
        for a, e in m:
            if a.op == 'pow2' and any(c2 < 0 for m2, c2 in pd(a.args[0]).items() if m2 != ()):
                return False
    return True


def tmin(*ts):
    return _mm('min', ts)


def tmax(*ts):
    return _mm('max', ts)


def _mm(op, ts):
    flat = []
    for t in ts:
        if t.op == op:
            flat.extend(t.args)
        else:
            flat.append(t)
    uniq = []
    for t in flat:
        if t not in uniq:
            uniq.append(t)
    # constants, and terms differing by a constant, collapse
    out = []
    for t in uniq:
        merged = False
        for i, o in enumerate(out):
            v = num_val(sub(t, o))
            if v is not None:
                out[i] = (t if (v < 0) == (op == 'min') else o)
                merged = True
                break
        if not merged:
            out.append(t)
    if len(out) == 1:
        return out[0]
    return mk(op, *sorted(out, key=lambda t: t.key))


# ------------------------------------------------------------------ bit segments

def mask_parts(t):
    """t == 2**hi - 2**lo  ->  (lo, hi) exclusive hi, else None"""
    v = int_val(t)
    if v is not None:
        if v <= 0:
            return None
        lo = (v & -v).bit_length() - 1
        w = v >> lo
        if w & (w + 1):
            return None
        return const(lo), const(lo + w.bit_length())
    d = pd(t)
    if len(d) == 1:
        # single power of two: one bit mask
        e = log2_of(t)
        if e is not None:
            return e, add(e, const(1))
        return None
    if len(d) != 2:
        return None
    pos = [(m, c) for m, c in d.items() if c > 0]
    ngs = [(m, c) for m, c in d.items() if c < 0]
    if len(pos) != 1 or len(ngs) != 1:
        return None
    hi = log2_of(poly({pos[0][0]: pos[0][1]}))
    lo = log2_of(poly({ngs[0][0]: -ngs[0][1]}))
    if hi is None or lo is None:
        # 2**x * k - 2**x  with the same symbolic power: c*2^x, c = 2^n - 1
        return None
    return lo, hi


def mask_of(t):
    r = mask_parts(t)
    if r is None:
        d = pd(t)
        if len(d) == 1:
            (m, c), = d.items()
            if c.denominator == 1 and c > 0:
                n = int(c)
                base = log2_of(poly({m: Fraction(1)})) if m else const(0)
                lo = (n & -n).bit_length() - 1
                w = n >> lo
                if base is not None and (w & (w + 1)) == 0:
                    return add(base, const(lo)), add(base, const(lo + w.bit_length()))
    return r


def log2_of(t):
    """exponent e with t == 2**e or None"""
    d = pd(t)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    if c <= 0:
        return None
    n, de = c.numerator, c.denominator
    if n & (n - 1) or de & (de - 1):
        return None
    e = const(n.bit_length() - de.bit_length())
    for a, x in m:
        if a.op != 'pow2':
            return None
        e = add(e, scale(a.args[0], x))
    return e


ZERO = None


def seg_source(x):
    """x as (source, offset): bit p of x is bit p+offset of source"""
    if x.op == 'floordiv':
        e = log2_of(x.args[1])
        if e is not None:
            s, o = seg_source(x.args[0])
            return s, add(o, e)
    if x.op == 'poly' and len(x.args) == 1:
        m, c = x.args[0]
        e = const(0)
        rest = []
        for a, k in m:
            if a.op == 'pow2':
                e = add(e, scale(a.args[0], k))
            else:
                rest.append((a, k))
        ce = log2_of(const(c)) if c > 0 else None
        if ce is not None and len(rest) == 1 and rest[0][1] == 1:
            s, o = seg_source(rest[0][0])
            return s, sub(sub(o, e), ce)
    return x, const(0)


def as_bits(x):
    """decode x into (segments tuple, background) or None.
    segments: ((lo, hi, src|ZERO, off), ...); bit p in [lo,hi) = src bit p+off"""
    if x.op == 'bits':
        return x.args[0], x.args[1]
    s, o = seg_source(x)
    if s.op == 'bits' and s.args[1] is ZERO:
        segs = tuple((sub(lo, o), sub(hi, o), src, add(off, o)) for lo, hi, src, off in s.args[0])
        return segs, ZERO
    return None


def mk_bits(segs, bg):
    segs = tuple(sorted(segs, key=lambda s: tuple(z.key for z in s)))
    return mk('bits', segs, bg)


def _flat(op, ts):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.args)
        else:
            out.append(t)
    return out


def bit_and(a, b):
    va, vb = int_val(a), int_val(b)
    if va is not None and vb is not None:
        return const(va & vb)
    if va == 0 or vb == 0:
        return const(0)
    for x, m in ((a, b), (b, a)):
        # x & (2^k - 1) with constant k on a cursor-like value
        mp = mask_of(m)
        if mp is not None:
            lo, hi = mp
            bx = as_bits(x)
            if bx is not None and bx[1] is ZERO and len(bx[0]) == 1 and bx[0][0][:2] == (lo, hi):
                return x
            if num_val(lo) == 0 and num_val(hi) is not None and as_bits(x) is None:
                return mod(x, pow2(hi))
            s, o = seg_source(x)
            return mk_bits(((lo, hi, s, o),), ZERO)
        im = sub(neg(m), const(1))
        mp = mask_of(im)
        if mp is not None:
            lo, hi = mp
            return mk_bits(((lo, hi, ZERO, const(0)),), x)
    return mk('and', *sorted(_flat('and', (a, b)), key=lambda t: t.key))


def bit_or(a, b):
    va, vb = int_val(a), int_val(b)
    if va is not None and vb is not None:
        return const(va | vb)
    if va == 0:
        return b
    if vb == 0:
        return a
    for x, y in ((a, b), (b, a)):
        bx, by = as_bits(x), as_bits(y)
        if bx and by and by[1] is ZERO:
            # every segment of y must fall exactly on a zero segment of x
            segs = list(bx[0])
            ok = True
            for s in by[0]:
                for i, z in enumerate(segs):
                    if z[2] is ZERO and z[0] is s[0] and z[1] is s[1]:
                        segs[i] = s
                        break
                else:
                    if bx[1] is ZERO:
                        segs.append(s)
                    else:
                        ok = False
            if ok:
                return mk_bits(tuple(segs), bx[1])
    return mk('or', *sorted(set(_flat('or', (a, b))), key=lambda t: t.key))


def bit_xor(a, b):
    va, vb = int_val(a), int_val(b)
    if va is not None and vb is not None:
        return const(va ^ vb)
    args = _flat('xor', (a, b))
    cnt = {}
    for t in args:
        cnt[t] = cnt.get(t, 0) + 1
    args = [t for t, c in cnt.items() if c % 2]
    args = [t for t in args if int_val(t) != 0]
    if not args:
        return const(0)
    if len(args) == 1:
        return args[0]
    return mk('xor', *sorted(args, key=lambda t: t.key))


def bit_not(a):
    return sub(neg(a), const(1))


# ------------------------------------------------------------------ comparisons
# literals: ge0(p), gt0(p), eq0(p), eq(a,b), isnone(a), truth(a), exists(seq,pred), ...

def _norm_sign(p):
    items = sorted(pd(p).items(), key=lambda mc: tuple((x.key, e) for x, e in mc[0]))
    for m, c in reversed(items):
        if m != ():
            return neg(p) if c < 0 else p
    return p


def _prim(p):
    """divide by the positive content so that scaled inequalities coincide"""
    d = pd(p)
    cs = [c for m, c in d.items() if m != ()]
    if not cs:
        return p
    g = cs[0]
    num, den = 0, 1
    for c in cs:
        num = _gcd(num, abs(c.numerator))
        den = den * c.denominator // _gcd(den, c.denominator)
    g = Fraction(num, den)
    return scale(p, 1 / g) if g not in (0, 1) else p


def cmp_ge(p):
    """p >= 0"""
    v = num_val(p)
    if v is not None:
        return TRUE if v >= 0 else FALSE
    q = _prim(p)
    c0 = pd(p).get((), Fraction(0))
    if c0.denominator != 1 and all(c.denominator == 1 for m, c in pd(p).items() if m != ()):
        return mk('ge0', q)             # compared with a fraction: not a whole number
    if all(int_like_mono(m) for m in pd(q)):
        d = pd(q)
        c = d.get((), Fraction(0))
        d[()] = Fraction(c.numerator // c.denominator)
        q = poly(d)
    return mk('ge0', q)


def cmp_gt(p):
    v = num_val(p)
    if v is not None:
        return TRUE if v > 0 else FALSE
    if int_like(p):
        return cmp_ge(sub(p, const(1)))
    return mk('gt0', _prim(p))


def numericish(t):
    if t.op == 'const':
        return t.args[1] == 'bool'
    return t.op not in ('obj', 'tuple', 'fn', 'cls', 'lambda', 'truth', 'str')


def cmp_eq(a, b):
    if a is b:
        return TRUE
    if a is NONE or b is NONE:
        o = b if a is NONE else a
        if o.op in ('poly', 'obj', 'tuple', 'fn', 'cls', 'const', 'bits', 'pow2', 'len') or \
                o.op == 'sym' and len(o.args) > 1 and o.args[1] == 'iter':
            return FALSE
        return mk('isnone', o)
    if numericish(a) and numericish(b):
        p = _prim(_norm_sign(sub(a, b)))
        v = num_val(p)
        if v is not None:
            return TRUE if v == 0 else FALSE
        return mk('eq0', p)
    if a.op == 'const' and b.op == 'const':
        return FALSE
    if {a.op, b.op} == {'const', 'poly'}:
        return FALSE
    x, y = sorted((a, b), key=lambda t: t.key)
    return mk('eq', x, y)


def neg_lit(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'ge0':
        return cmp_gt(neg(t.args[0]))
    if t.op == 'gt0':
        return cmp_ge(neg(t.args[0]))
    if t.op == 'not':
        return t.args[0]
    return mk('not', t)


# ------------------------------------------------------------------ misc

def subst(t, m, memo=None):
    """replace atoms by terms (m: dict T->T)"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    op = t.op
    if op == 'poly':
        r = const(0)
        for mono, c in t.args:
            p = const(c)
            for a, e in mono:
                b = subst(a, m, memo)
                if e > 0:
                    p = mul(p, ipow(b, e))
                else:
                    p = div(p, ipow(b, -e))
            r = add(r, p)
    elif op in ('sym', 'const'):
        r = t
    else:
        args = tuple(subst(x, m, memo) for x in t.args)
        if args == t.args:
            r = t
        elif op == 'pow2':
            r = pow2(args[0])
        elif op == 'floordiv':
            r = floordiv(*args)
        elif op == 'min':
            r = tmin(*args)
        elif op == 'max':
            r = tmax(*args)
        elif op == 'ge0':
            r = cmp_ge(args[0])
        elif op == 'gt0':
            r = cmp_gt(args[0])
        elif op == 'eq0':
            r = cmp_eq(args[0], const(0))
        elif op == 'eq':
            r = cmp_eq(*args)
        elif op == 'inv':
            r = div(const(1), args[0])
        elif op == 'not':
            r = neg_lit(args[0])
        else:
            r = mk(op, *args)
    memo[t] = r
    return r


def walk(t, seen=None):
    """all sub-terms"""
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        for x in t:
            for y in walk(x, seen):
                yield y
        return
    if not isinstance(t, T) or t in seen:
        return
    seen.add(t)
    yield t
    if t.op == 'poly':
        for m, _ in t.args:
            for a, _e in m:
                for y in walk(a, seen):
                    yield y
    else:
        for a in t.args:
            for y in walk(a, seen):
                yield y


def mentions(t, *targets):
    for x in walk(t):
        if x in targets:
            return True
    return False


def show(t):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x) for x in t) + ')'
        return str(t)
    op, a = t.op, t.args
    if op == 'poly':
        if not a:
            return '0'
        out = []
        for m, c in a:
            f = []
            for x, e in m:
                s = show(x)
                f.append(s if e == 1 else '%s^%s' % (s, e))
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append('*'.join(f))
            else:
                out.append('%s*%s' % (c, '*'.join(f)))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if op == 'const':
        return repr(a[0])
    if op == 'sym':
        return str(a[0])
    if op == 'attr':
        return '%s.%s' % (show(a[0]), a[1])
    if op == 'index':
        return '%s[%s]%s' % (show(a[0]), show(a[1]), '' if len(a) < 3 or a[2] == 0 else '@%s' % (show(a[2]),))
    if op == 'mcall':
        return '%s.%s(%s)' % (show(a[0]), a[1], ', '.join(show(x) for x in a[2:]))
    if op == 'ge0':
        return '%s >= 0' % show(a[0])
    if op == 'gt0':
        return '%s > 0' % show(a[0])
    if op == 'eq0':
        return '%s == 0' % show(a[0])
    if op == 'not':
        return 'not(%s)' % show(a[0])
    return '%s(%s)' % (op, ', '.join(show(x) for x in a))


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
ZERO = mk('zero')
BOUND = mk('sym', '<elem>')
