"""Abstract strings: sequences of literal characters and non-empty fields of known alphabets.

Terms over a line are evaluated on such shapes, so that a statement about one shape holds for every content of its fields.
A result of None means that the value depends on the content of the fields (or is not understood)."""
import string
from .terms import *

WS = ' \t\n\r\x0b\x0c'
HEX = '0123456789abcdefABCDEF'
ALPHA = string.ascii_letters
PRINT = ''.join(chr(c) for c in range(32, 127)) + '\t'


class F:
    """a non-empty field"""
    def __init__(self, name, chars, samples=()):
        self.name, self.chars, self.samples = name, frozenset(chars), tuple(samples)

    def __repr__(self):
        return '<%s>' % self.name


class Str:
    def __init__(self, items):
        out = []
        for i in items:
            out += list(i) if isinstance(i, str) else [i]
        self.items = tuple(out)

    def __eq__(self, o):
        return isinstance(o, Str) and self.items == o.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return ''.join(i if isinstance(i, str) else repr(i) for i in self.items)

    def without(self, chars):
        return Str([i for i in self.items if not (isinstance(i, str) and i in chars)])

    def fields(self):
        return [i.name for i in self.items if isinstance(i, F)]

    def text(self):
        return ''.join(self.items) if all(isinstance(i, str) for i in self.items) else None


class Lst:
    def __init__(self, items, more=False):
        self.items, self.more = tuple(items), more

    def __repr__(self):
        return 'Lst(%s%s)' % (', '.join(map(repr, self.items)), ', ...' if self.more else '')


class Num:
    """the number a string reads in a base"""
    def __init__(self, s, base):
        self.s, self.base = s, base

    def __repr__(self):
        return 'int(%r, %s)' % (self.s, self.base)


def strip(s, chars, left=True, right=True):
    chars = set(chars)
    its = list(s.items)
    for side, on in ((0, left), (-1, right)):
        while on and its:
            i = its[side]
            if isinstance(i, str):
                if i not in chars:
                    break
            elif not (i.chars & chars):
                break
            elif not i.chars <= chars:
                return None
            its.pop(side)
    return Str(its)


def at(items, i, sep):
    """does sep stand at position i? True / False / None"""
    for j, c in enumerate(sep):
        if i + j >= len(items):
            return False
        x = items[i + j]
        if isinstance(x, str):
            if x != c:
                return False
        elif c in x.chars:
            return None
        else:
            return False
    return True


def find(s, sep, start=0):
    """position of the first sep; -1 when absent; None when that depends"""
    for i in range(start, len(s.items)):
        x = s.items[i]
        if isinstance(x, F) and len(sep) > 1 and sep[0] in x.chars:
            return None
        r = at(s.items, i, sep)
        if r is None:
            return None
        if r:
            return i
    return -1


def split(s, sep=None, n=-1):
    if sep is None:
        out, cur = [], []
        its = list(s.items)
        while its and isinstance(its[0], str) and its[0] in WS:
            its.pop(0)
        for k, i in enumerate(its):
            if isinstance(i, str) and i in WS:
                if cur:
                    if n >= 0 and len(out) == n:
                        return Lst(out + [Str(its[k - len(cur):])])
                    out.append(Str(cur))
                cur = []
            elif isinstance(i, F) and i.chars & set(WS):
                return Lst(out, True)
            else:
                cur.append(i)
        if cur:
            out.append(Str(cur))
        return Lst(out)
    out = []
    pos = 0
    while n < 0 or len(out) < n:
        i = find(s, sep, pos)
        if i is None:
            return Lst(out, True)
        if i < 0:
            break
        out.append(Str(s.items[pos:i]))
        pos = i + len(sep)
    out.append(Str(s.items[pos:]))
    return Lst(out)


def rsplit(s, sep, n=-1):
    r = split(Str(reversed(s.items)), sep[::-1], n)
    if r.more:
        return Lst([], True)
    return Lst([Str(reversed(x.items)) for x in reversed(r.items)])


def size(s):
    """(least length, is it exact)"""
    return len(s.items), not any(isinstance(i, F) for i in s.items)


def const_str(t):
    return t.args[0] if t.op == 'const' and isinstance(t.args[0], str) else None


class Eval:
    def __init__(self, env):
        self.env = dict(env)          # term -> abstract value
        self.given = set(env)

    def val(self, t):
        if t in self.env:
            return self.env[t]
        r = self.env[t] = self._val(t)
        return r

    def _val(self, t):
        c = const_str(t)
        if c is not None:
            return Str(c)
        if t.op == 'const':
            return t.args[0] if isinstance(t.args[0], (bool, int)) else None
        n = num_val(t)
        if n is not None:
            return int(n) if n == int(n) else None
        if t.op == 'index':
            b, i = self.val(t.args[0]), self.val(t.args[1])
            if isinstance(b, Lst) and isinstance(i, int):
                if 0 <= i < len(b.items):
                    return b.items[i]
                if i < 0 and not b.more and -i <= len(b.items):
                    return b.items[i]
                return None
            if isinstance(b, Str) and isinstance(i, int):
                pre = b.items[:i + 1] if i >= 0 else b.items[i:]
                if len(pre) == (i + 1 if i >= 0 else -i) and all(isinstance(x, str) for x in pre):
                    return Str([b.items[i]])
                if i == 0 and b.items or i == -1 and b.items:
                    return ('char', b.items[i])
            return None
        if t.op == 'slice':
            b = self.val(t.args[0])
            lo, hi = (None if a is None or a.op == 'const' and a.args[0] is None else self.val(a) for a in t.args[1:3])
            none = lambda a: a is None or a.op == 'const' and a.args[0] is None
            if isinstance(b, Str) and (none(t.args[1]) or isinstance(lo, int)) and (none(t.args[2]) or isinstance(hi, int)) and (len(t.args) < 4 or none(t.args[3])):
                for e in (lo, hi):
                    if e is None:
                        continue
                    part = b.items[:e] if e >= 0 else b.items[e:]
                    if not all(isinstance(x, str) for x in part):
                        # positions found by searching count items, which is exact up to and behind whole fields
                        if e not in self.positions:
                            return None
                return Str(b.items[lo:hi])
            if isinstance(b, Lst) and not b.more:
                return Lst(b.items[lo:hi])
            return None
        if t.op == 'mcall':
            return self.method(t)
        if t.op == 'call':
            return self.call(t)
        if t.op == 'poly':
            tot = 0
            for m, c in pd(t).items():
                v = c
                for a, e in m:
                    x = self.val(a)
                    if not isinstance(x, int) or e < 0:
                        return None
                    v *= x ** e
                tot += v
            r = int(tot) if tot == int(tot) else None
            if r is not None:
                self.positions.add(r)
            return r
        if t.op == 'len':
            b = self.val(t.args[0])
            if isinstance(b, Lst) and not b.more:
                return len(b.items)
            if isinstance(b, Str) and size(b)[1]:
                return size(b)[0]
            return None
        if t.op in ('tuple', 'seq', 'list'):
            return Lst([self.val(a) for a in t.args])
        if t.op in ('in', 'eq', 'not', 'truth'):
            return self.lit(t)
        if t.op == 'cat':
            parts = [self.val(a) for a in t.args]
            if all(isinstance(p, Str) for p in parts):
                return Str([i for p in parts for i in p.items])
        return None

    positions = frozenset()

    def method(self, t):
        r, name = self.val(t.args[0]), t.args[1]
        args = [a for a in t.args[2:] if isinstance(a, T) and a.op not in ('ver', 'n') and not show(a).startswith('v0(')]
        cs = [const_str(a) for a in args]
        if not isinstance(self.positions, set):
            self.positions = set()
        if name == 'join' and isinstance(r, Str) and len(args) == 1:
            l = self.val(args[0])
            if isinstance(l, Str):
                return l if not r.items else None
            if isinstance(l, Lst) and not l.more and all(isinstance(x, Str) for x in l.items):
                out = []
                for k, x in enumerate(l.items):
                    out += (list(r.items) if k else []) + list(x.items)
                return Str(out)
            return None
        if not isinstance(r, Str):
            return None
        if name in ('strip', 'lstrip', 'rstrip'):
            chars = WS if not args or args[0].op == 'const' and args[0].args[0] is None else cs[0]
            return None if chars is None else strip(r, chars, name != 'rstrip', name != 'lstrip')
        if name in ('split', 'rsplit'):
            sep = cs[0] if args else None
            if args and cs[0] is None and not (args[0].op == 'const' and args[0].args[0] is None):
                return None
            n = -1
            if len(args) > 1:
                n = self.val(args[1])
                if not isinstance(n, int):
                    return None
            if name == 'rsplit':
                return rsplit(r, sep, n) if sep else (split(r) if n < 0 else None)
            return split(r, sep, n)
        if name in ('partition', 'rpartition') and cs and cs[0]:
            i = find(r, cs[0])
            if name == 'rpartition':
                x = rsplit(r, cs[0], 1)
                return None if x.more else Lst([x.items[0], Str(cs[0]), x.items[1]]) if len(x.items) == 2 else Lst([Str(''), Str(''), r])
            return None if i is None else Lst([Str(r.items[:i]), Str(cs[0]), Str(r.items[i + len(cs[0]):])]) if i >= 0 else Lst([r, Str(''), Str('')])
        if name in ('find', 'index') and cs and cs[0] and len(args) == 1:
            i = find(r, cs[0])
            if i is not None and i >= 0:
                self.positions.add(i)
            return i
        if name == 'replace' and len(args) == 2 and None not in cs and len(cs[0]) == 1:
            if any(isinstance(i, F) and cs[0] in i.chars for i in r.items):
                return None
            return Str([cs[1] if i == cs[0] else i for i in r.items])
        if name in ('startswith', 'endswith') and len(args) == 1:
            alts = [cs[0]] if cs[0] is not None else [const_str(a) for a in args[0].args] if args[0].op in ('tuple', 'seq') else [None]
            got = []
            for a in alts:
                if a is None:
                    got.append(None)
                elif name == 'startswith':
                    got.append(at(r.items, 0, a) if len(a) else True)
                    if len(a) > 1 and got[-1] is False and any(isinstance(x, F) for x in r.items[:len(a)]):
                        got[-1] = self.fuzzy(r.items, a)
                else:
                    got.append(at(tuple(reversed(r.items)), 0, a[::-1]))
            return True if True in got else None if None in got else False
        if name in ('lower', 'upper', 'title', 'swapcase', 'casefold'):
            if all(isinstance(i, str) for i in r.items):
                return Str([getattr(i, name)() for i in r.items])
            return None
        if name == 'isspace':
            if not r.items:
                return False
            if all(isinstance(i, str) and i in WS for i in r.items):
                return True
            return False if any(isinstance(i, str) and i not in WS or isinstance(i, F) and not i.chars & set(WS) for i in r.items) else None
        if name == 'count' and cs and cs[0] and len(cs[0]) == 1:
            if any(isinstance(i, F) and cs[0] in i.chars for i in r.items):
                return None
            return sum(i == cs[0] for i in r.items)
        return None

    def fuzzy(self, items, a):
        k = 0
        for x in items:
            if isinstance(x, F):
                return None if a[k] in x.chars else False
            if k < len(a) and x != a[k]:
                return False
            k += 1
            if k == len(a):
                return True
        return False

    def call(self, t):
        f = show(t.args[0])
        args = list(t.args[1:])
        if f == 'builtin(int)':
            s = self.val(args[0])
            base = 10
            if len(args) > 1:
                base = self.val(args[1])
            if isinstance(s, Str) and isinstance(base, int):
                s = strip(s, WS)
                if s is None:
                    return None
                its = s.items
                pre = ''.join(i if isinstance(i, str) else '\0' for i in its[:2]).lower()
                if base in (0, 16) and pre == '0x':
                    return Num(Str(its[2:]), 16)
                if base == 0:
                    return None
                if pre == '0x' and base < 34:
                    return Num(s, base)           # not a number in this base
                if s.text() is not None:
                    try:
                        return int(s.text(), base)
                    except ValueError:
                        return None
                return Num(s, base)
            return None
        if f == 'builtin(len)':
            return self._val(mk('len', args[0], None))
        if f == 'builtin(str)' and len(args) == 1:
            v = self.val(args[0])
            return v if isinstance(v, Str) else None
        return None

    # ------------------------------------------------------------ literals
    def lit(self, q):
        """True / False / None"""
        if q.op == 'not':
            r = self.lit(q.args[0])
            return None if r is None else not r
        if q in self.env:
            v = self.env[q]
            return v if isinstance(v, bool) else None
        if q.op == 'truth':
            if q.args[0].op == 'mcall' and q.args[0].args[1] in ('match', 'search', 'fullmatch'):
                return self.regex(q.args[0])
            v = self.val(q.args[0])
            if isinstance(v, (bool, int)):
                return bool(v)
            if isinstance(v, Str):
                return bool(v.items)
            if isinstance(v, Lst) and not v.more:
                return bool(v.items)
            return None
        if q.op == 'eq':
            a, b = self.val(q.args[0]), self.val(q.args[1])
            return self.same(a, b)
        if q.op == 'in':
            a, b = self.val(q.args[0]), self.val(q.args[1])
            if isinstance(b, Lst) and isinstance(a, int) and all(isinstance(x, Str) for x in b.items):
                # a position of the list
                return True if -len(b.items) <= a < len(b.items) else None if b.more else False
            if isinstance(b, Lst) and not b.more:
                r = [self.same(a, x) for x in b.items]
                return True if True in r else None if None in r else False
            if isinstance(a, Str) and isinstance(b, Str) and a.text() is not None and a.items:
                i = find(b, a.text())
                return None if i is None else i >= 0
            if isinstance(a, tuple) and a[0] == 'char' and isinstance(b, Str) and b.text() is not None:
                s = set(b.text())
                x = a[1].chars if isinstance(a[1], F) else {a[1]}
                return True if x <= s else False if not x & s else None
            return None
        if q.op in ('ge0', 'gt0', 'eq0'):
            lo = hi = 0
            for m, c in pd(q.args[0]).items():
                if not m:
                    lo, hi = lo + c, hi + c
                    continue
                if len(m) != 1 or m[0][1] != 1:
                    return None
                a = m[0][0]
                v = self.val(a)
                if isinstance(v, int):
                    l = h = v
                elif a.op == 'len' and isinstance(self.val(a.args[0]), (Str, Lst)):
                    b = self.val(a.args[0])
                    l = len(b.items)
                    h = l if (size(b)[1] if isinstance(b, Str) else not b.more) else None
                else:
                    return None
                x, y = (l, h) if c > 0 else (h, l)
                lo = None if lo is None or x is None else lo + c * x
                hi = None if hi is None or y is None else hi + c * y
            if q.op == 'eq0':
                if lo is not None and lo == hi:
                    return lo == 0
                return False if lo is not None and lo > 0 or hi is not None and hi < 0 else None
            ok = (lambda z: z >= 0) if q.op == 'ge0' else (lambda z: z > 0)
            if lo is not None and ok(lo):
                return True
            if hi is not None and not ok(hi):
                return False
            return None
        return None

    def same(self, a, b):
        if isinstance(b, tuple):
            a, b = b, a
        if isinstance(a, tuple) and a[0] == 'char':
            if isinstance(b, Str) and len(b.items) == 1 and isinstance(b.items[0], str):
                return None if isinstance(a[1], F) and b.items[0] in a[1].chars else False if isinstance(a[1], F) else a[1] == b.items[0]
            if isinstance(b, Str) and b.text() is not None:
                return False
            return None
        if isinstance(a, Str) and isinstance(b, Str):
            if a == b:
                return True
            ta, tb = a.text(), b.text()
            if ta is not None and tb is not None:
                return False
            x, y = (a, tb) if tb is not None else (b, ta)
            if y is None:
                return None
            if len(x.items) > len(y) or self.fuzzy(x.items, y + '\0') is False and not any(isinstance(i, F) for i in x.items[:1]):
                return False
            if x.items and isinstance(x.items[0], F) and y and y[0] not in x.items[0].chars:
                return False
            return None
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return a == b
        return None

    def regex(self, t):
        """a constant pattern against the shape with sample contents: decided when all samples agree"""
        import re
        pat = None
        if t.args[0].op == 'call' and 're.compile' in show(t.args[0].args[0]):
            pat, s = const_str(t.args[0].args[1]), self.val(t.args[2])
        elif 're' in show(t.args[0]) and len(t.args) > 3:
            pat, s = const_str(t.args[2]), self.val(t.args[3])
        if pat is None or not isinstance(s, Str):
            return None
        try:
            p = re.compile(pat)
        except re.error:
            return None
        res = set()
        combos = [[]]
        for i in s.items:
            opts = [i] if isinstance(i, str) else list(i.samples)
            if not opts:
                return None
            combos = [c + [o] for c in combos for o in opts][:4000]
        for c in combos:
            res.add(bool(getattr(p, t.args[1])(''.join(c))))
        return res.pop() if len(res) == 1 else None
