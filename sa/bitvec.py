"""Terms over whole words as vectors of bits: each bit is 0, 1, (word, place) or None when it is not known.

A word of the instruction has 32 bits and nothing above; any other word is taken to have as many as it likes.
"""
from .terms import *

N = 72


def power(c):
    c = int(c) if c == int(c) else 0
    return c.bit_length() - 1 if c > 0 and c & (c - 1) == 0 else None


def vec(t, env, n=N):
    """bits of a term, env: word -> list of bits"""
    un = [None] * n
    if t in env:
        return env[t]
    if t.op == 'zero':
        return [0] * n
    c = num_val(t)
    if c is not None:
        return [(int(c) >> i) & 1 for i in range(n)] if c == int(c) else un
    if t.op == 'bits':
        out = list(vec(t.args[1], env, n))
        for lo, hi, src, off in t.args[0]:
            a, b, o = num_val(lo), num_val(hi), num_val(off)
            if a is None or b is None or o is None:
                return un
            s = vec(src, env, n)
            for i in range(int(a), min(int(b), n)):
                j = i + int(o)
                out[i] = s[j] if 0 <= j < n else 0
        return out
    if t.op in ('and', 'or', 'xor') and len(t.args) >= 2:
        out = vec(t.args[0], env, n)
        for x in t.args[1:]:
            out = [bit(t.op, a, b) for a, b in zip(out, vec(x, env, n))]
        return out
    if t.op == 'inv' or t.op == 'floordiv':
        k = num_val(t.args[1]) if t.op == 'floordiv' else None
        k = power(k) if k is not None else None
        if k is None:
            return un
        s = vec(t.args[0], env, n)
        return s[k:] + [s[-1] if s[-1] in (0, 1) else None] * k
    if t.op == 'mod':
        k = num_val(t.args[1])
        k = power(k) if k is not None else None
        if k is None:
            return un
        return vec(t.args[0], env, n)[:k] + [0] * (n - k)
    if t.op == 'poly':
        ts = list(t.args)
        parts = []
        # x - K * (x // K) is x mod K
        for m, c in list(ts):
            if c < 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'floordiv':
                f = m[0][0]
                k = num_val(f.args[1])
                x = f.args[0]
                if k is None or power(k) is None:
                    return un
                # the multiple of x that goes with it
                scale = -c / k
                rest = [q for q in ts if q != (m, c)]
                mine = scaled(x, scale)
                if mine is None or not all(any(q == z for q in rest) for z in mine):
                    return un
                for z in mine:
                    rest.remove(z)
                ts = rest
                e = power(scale)
                if e is None:
                    return un
                low = vec(x, env, n)[:power(k)] + [0] * (n - power(k))
                parts.append(([0] * e + low)[:n])
        for m, c in ts:
            if c < 0:
                return un
            if not m:
                parts.append(vec(const(c), env, n))
                continue
            e = power(c)
            if e is None or len(m) != 1 or m[0][1] != 1:
                return un
            parts.append(([0] * e + list(vec(m[0][0], env, n)))[:n])
        out = [0] * n
        for p in parts:
            if any(a != 0 and b != 0 for a, b in zip(out, p)):
                return un
            out = [b if a == 0 else a for a, b in zip(out, p)]
        return out
    return un


def scaled(x, c):
    if x.op == 'poly':
        return [(m, k * c) for m, k in x.args]
    return [(((x, 1),), c)]


def bit(op, a, b):
    if op == 'and':
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        return a if a == b and a is not None else None
    if op == 'or':
        if a == 1 or b == 1:
            return 1
        if a == 0:
            return b
        if b == 0:
            return a
        return a if a == b and a is not None else None
    if a == 0:
        return b
    if b == 0:
        return a
    if a in (0, 1) and b in (0, 1):
        return a ^ b
    return 0 if a == b and a is not None else None


def holds(f, env):
    """True, False or None for a literal over words"""
    if f is TRUE or f is FALSE:
        return f is TRUE
    if f.op == 'not':
        r = holds(f.args[0], env)
        return None if r is None else not r
    if f.op in ('eq0', 'ge0', 'gt0'):
        p = f.args[0]
        if p.op != 'poly' and num_val(p) is None:
            pos, negs = [p], []
        elif p.op == 'poly':
            pos, negs = [], []
            for m, c in p.args:
                t = const(abs(c))
                for a, e in m:
                    if e != 1:
                        return None
                    t = mul(t, a)
                (pos if c > 0 else negs).append(t)
        else:
            v = num_val(p)
            return v == 0 if f.op == 'eq0' else v >= 0 if f.op == 'ge0' else v > 0
        a = vec(total(pos), env)
        b = vec(total(negs), env)
        if f.op == 'eq0':
            if any(x in (0, 1) and y in (0, 1) and x != y for x, y in zip(a, b)):
                return False
            return True if all(x == y and x is not None for x, y in zip(a, b)) else None
        if all(x in (0, 1) for x in a + b):
            x = sum(v << i for i, v in enumerate(a))
            y = sum(v << i for i, v in enumerate(b))
            return x >= y if f.op == 'ge0' else x > y
    return None


def total(ts):
    return add(*ts) if ts else const(0)
