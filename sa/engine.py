"""Abstract interpreter over the Python AST.

Domain: interned terms (terms.py) per variable/field, container *versions* and list
contents as builder terms, path facts as literals, and a structured effect trace.
Branches partition the trace; loops are summarised once (loop-carried state is
havocked to a symbol, induction variables are replaced by closed forms in the
iteration symbol, nothing is unrolled); calls to repository functions are inlined
and merged at the call boundary; unknown constructs evaluate to `unk` terms so
rules can tell "contradicted" from "not understood".  No code of the repository is
executed and no solver is used.
"""
import ast
import re
from .terms import *
from . import terms as tm
from . import num
from .model import FuncInfo, ClassInfo

V0 = mk('v0')
MAXPATHS = 96
MAXDEPTH = 9


class Ev(object):
    """one effect: kind, operand terms, location, path facts"""
    __slots__ = ('kind', 'a', 'loc', 'facts', 'node', 'caught', 'kw')

    def __init__(self, kind, a, loc, facts, node=None):
        self.kind, self.a, self.loc, self.facts, self.node = kind, a, loc, facts, node
        self.caught = False
        self.kw = {}

    def sig(self):
        return (self.kind,) + tuple(self.a) + tuple(sorted(self.kw.items(), key=str))

    def __repr__(self):
        return '%s(%s) @%s' % (self.kind, ', '.join(show(x) if isinstance(x, (T, tuple)) else str(x)
                                                   for x in self.a), self.loc)


class Body(object):
    """one path through a loop body"""
    def __init__(self, st, base_facts):
        self.state = st
        self.facts = [f for f in st.facts if f not in base_facts]
        self.exit = st.exit
        self.trace = st.items()

    @property
    def kind(self):
        return 'next' if self.exit is None or self.exit[0] == 'continue' else self.exit[0]


class Loop(object):
    def __init__(self, lid, node, loc):
        self.lid, self.node, self.loc = lid, node, loc
        self.kind = None
        self.seq = None          # iterated sequence term (for) or None
        self.rng = None          # (start, stop, step) when it is an index range
        self.iota = None
        self.elem = None
        self.conds = []          # literals of the loop condition (while)
        self.bodies = []
        self.inits = {}          # havocked key -> initial value
        self.hav = {}            # havocked key -> symbol
        self.closed = {}         # induction key -> closed form
        self.copied = False      # the positions are those of a copy
        self.head_facts = ()

    def __repr__(self):
        return 'Loop(%s %s)' % (self.lid, show(self.seq) if self.seq is not None else self.rng or self.kind)


class LoopItem(object):
    def __init__(self, loop, body=None):
        self.loop, self.body = loop, body      # body: the path that left the loop early

    def sig(self):
        return ('loop', self.loop.lid, id(self.body) if self.body else 0)


class Alt(object):
    """merged paths of an inlined call"""
    def __init__(self, paths, name):
        self.paths, self.name = paths, name    # [(facts, items)]

    def sig(self):
        return ('alt', id(self))


class State(object):
    __slots__ = ('env', 'heap', 'ver', 'facts', 'trace', 'exit', 'n')

    def __init__(self):
        self.env, self.heap, self.ver = {}, {}, {}
        self.facts = ()
        self.trace = None
        self.exit = None
        self.n = 0

    def fork(self):
        s = State()
        s.env, s.heap, s.ver = dict(self.env), dict(self.heap), dict(self.ver)
        s.facts, s.trace, s.exit = self.facts, self.trace, self.exit
        return s

    def push(self, item):
        self.trace = (self.trace, item)

    def items(self, upto=None):
        out = []
        t = self.trace
        while t is not None and t is not upto:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


def tested_first(n):
    """while True: if c: break; rest  is  while not c: rest"""
    done = getattr(n, '_tested', None)
    if done is not None:
        return done
    r = n
    if isinstance(n.test, ast.Constant) and n.test.value and not n.orelse and len(n.body) > 1 and isinstance(n.body[0], ast.If):
        f = n.body[0]
        if len(f.body) == 1 and isinstance(f.body[0], ast.Break) and not f.orelse:
            t = f.test.operand if isinstance(f.test, ast.UnaryOp) and isinstance(f.test.op, ast.Not) else ast.UnaryOp(ast.Not(), f.test)
            r = ast.copy_location(ast.While(ast.copy_location(t, f.test), n.body[1:], []), n)
    n._tested = r
    return r


class Frame(object):
    def __init__(self, func, mod, cls, selfterm, depth, parent=None):
        self.func, self.mod, self.cls, self.selfterm, self.depth, self.parent = \
            func, mod, cls, selfterm, depth, parent
        self.assigned = None
        self.tail = None            # the call whose outcome is that of the function
        self.last = parent is None


def struct_codes(fmt):
    """the value codes of a struct format, repeat counts expanded"""
    out, n = [], ''
    for c in fmt.lstrip('@=<>!'):
        if c.isdigit():
            n += c
        elif c.isspace():
            continue
        elif c == 's' or c == 'p':
            out.append(n + c)
            n = ''
        else:
            out.extend([c] * (int(n) if n else 1))
            n = ''
    return out


def within(x, lid):
    """x is left by a loop met after the loop lid was entered: it may differ from one iteration to the next"""
    if x.op == 'out':
        q = x.args[0]
    elif x.op == 'sym' and len(x.args) > 1 and x.args[1] == 'iter':
        q = x.args[0]
    else:
        return False
    q, own = str(q).rpartition('.')[2], lid.rpartition('.')[2]
    return q.isdigit() and own.isdigit() and int(q) > int(own)


class Engine(object):
    def __init__(self, prog, opaque_funcs=(), opaque_classes=('TextProgressBar',),
                 observer_bases=('Instruction',), types=None, inline_ctor=True, field_types=None,
                 keep_raises=True, opaque_methods=()):
        self.callees = set()           # expressions in call position
        self.prog = prog
        self.opaque_funcs = set(opaque_funcs)
        self.opaque_methods = set(opaque_methods)
        self.opaque_classes = set(opaque_classes)
        self.observer_bases = set(observer_bases)
        self.types = dict(types or {})
        self.field_types = dict(field_types or {})
        self.inline_ctor = inline_ctor
        self.loops = []
        self.tab = {}
        self.uid = 0
        self.catch = []
        self.stack = []
        self.notes = []
        self.iota_bound = {}
        self.walked_seq = {}
        self.iotas = []
        self.visited = set()
        self.nsteps = 0
        self.const_cache = {}

    # ------------------------------------------------------------ utilities
    def fresh(self, hint='u'):
        self.uid += 1
        return mk('unk', '%s%d' % (hint, self.uid))

    def note(self, fr, node, what):
        self.notes.append('%s: %s' % (self.loc(fr, node), what))

    def loc(self, fr, node):
        rel = fr.mod.rel if fr and fr.mod else '?'
        q = fr.func.qual if fr and fr.func else '<module>'
        return '%s:%s (%s)' % (rel, getattr(node, 'lineno', '?'), q)

    def event(self, st, fr, node, kind, *a):
        e = Ev(kind, a, self.loc(fr, node), st.facts, node)
        if self.catch and kind in ('Div', 'Index', 'Log'):
            e.caught = self.catches(*{'Div': ('ZeroDivisionError', 'ArithmeticError'), 'Index': ('KeyError', 'IndexError'), 'Log': ('ValueError',)}[kind])
        st.push(e)
        return e

    def obj(self, st, kind, content=None, cls=None):
        self.uid += 1
        o = mk('obj', self.uid, kind)
        if content is not None:
            st.heap[(o, '#')] = content
        if cls is not None:
            self.types[o] = cls
        return o

    def version(self, st, c):
        return st.ver.get(c, V0)

    def bump(self, st, c, *why):
        st.ver[c] = mk('mut', self.version(st, c), *why)

    def content(self, st, o):
        c = st.heap.get((o, '#'))
        n = 0
        while c is not None and c.op == 'alias' and n < 5:
            c = st.heap.get((c.args[0], '#'))
            n += 1
        return c

    # ------------------------------------------------------------ facts
    def assume(self, st, lit, pol=True):
        """add a literal; returns False when the path is infeasible"""
        if lit.op == 'not':
            return self.assume(st, lit.args[0], not pol)
        if lit is TRUE:
            return pol
        if lit is FALSE:
            return not pol
        l = lit if pol else neg_lit(lit)
        n = neg_lit(l)
        if l in st.facts:
            return True
        if n in st.facts:
            return False
        if l.op in ('ge0', 'gt0', 'eq0') or (l.op == 'not' and l.args[0].op == 'eq0') or \
                l.op == 'truth' or (l.op == 'not' and l.args[0].op == 'truth'):
            if num.refuted(st.facts, l):
                return False
            if l.op != 'not' and l.op != 'eq0' and num.entails(st.facts, l):
                pass
        st.facts = st.facts + (l,)
        if l.op == 'eq0':
            # propagate x == const into later comparisons is left to the prover
            pass
        return True

    def branch(self, st, lit):
        """[(bool, state)] for a literal"""
        if lit is TRUE:
            return [(True, st)]
        if lit is FALSE:
            return [(False, st)]
        a, b = st.fork(), st.fork()
        out = []
        if self.assume(a, lit, True):
            out.append((True, a))
        if self.assume(b, lit, False):
            out.append((False, b))
        return out

    def truth_lit(self, st, v):
        """literal for the truth value of term v"""
        if v.op == 'const':
            if v.args[1] == 'NoneType':
                return FALSE
            if v.args[1] == 'bool':
                return v
            return TRUE if v.args[0] else FALSE
        if v.op in ('ge0', 'gt0', 'eq0', 'eq', 'isnone', 'truth', 'in', 'exists', 'not', 'isinst'):
            return v
        if v.op == 'poly' or v.op in ('len', 'floordiv', 'pow2', 'bits', 'mod') or v.op in ('min', 'max') and any(x.op == 'poly' or num_val(x) is not None for x in v.args):
            n = num_val(v)
            if n is not None:
                return TRUE if n != 0 else FALSE
            if v.op == 'len':
                return cmp_ge(sub(v, const(1)))
            return neg_lit(cmp_eq(v, const(0)))
        if v.op in ('obj',):
            c = self.content(st, v)
            if c is not None:
                n = num_val(self.length(st, v))
                if n is not None:
                    return TRUE if n else FALSE
            if v.args[1] not in ('list', 'dict', 'set', 'gen'):
                return TRUE
        if v.op == 'tuple':
            return TRUE if v.args else FALSE
        if v.op in ('fn', 'cls', 'lambda', 'bound', 'ext', 'builtin', 'module'):
            return TRUE
        return mk('truth', v, self.version(st, v))

    def truth(self, st, v):
        if st.exit:
            return [(None, st)]
        return self.branch(st, self.truth_lit(st, v))

    # ------------------------------------------------------------ containers
    def strip(self, st, s):
        """canonical iterable: (base, kind) with keys()/list()/sorted() views removed"""
        n = 0
        while n < 12:
            n += 1
            if s.op in ('keys', 'copy', 'perm'):
                s = s.args[0]
                continue
            if s.op == 'obj':
                c = self.content(st, s)
                if c is not None and c.op in ('perm', 'copy'):
                    s = c.args[0]
                    continue
                if c is not None and c.op == 'mapseq' and c.args[1].op == 'elem' and \
                        c.args[1].args[1] is c.args[0] and c.args[3] is TRUE:
                    s = c.args[1].args[0]
                    continue
            break
        return s

    def seqview(self, st, s):
        """sequence term used for element naming: copies vanish, permutations stay"""
        n = 0
        while n < 12:
            n += 1
            if s.op in ('keys', 'copy'):
                s = s.args[0]
                continue
            if s.op == 'perm':
                return mk('perm', self.strip(st, s.args[0]))
            if s.op == 'obj':
                c = self.content(st, s)
                if c is not None and c.op in ('perm', 'copy'):
                    s = c
                    continue
                if c is not None and c.op == 'mapseq' and c.args[1].op == 'elem' and \
                        c.args[1].args[1] is c.args[0] and c.args[3] is TRUE:
                    s = c.args[1].args[0]
                    continue
            break
        return s

    def length(self, st, v):
        if v.op == 'tuple':
            return const(len(v.args))
        if v.op == 'const' and v.args[1] == 'str':
            return const(len(v.args[0]))
        if v.op in ('keys', 'perm', 'copy', 'values', 'items'):
            return self.length(st, v.args[0])
        if v.op == 'range':
            a, b, s = v.args
            if num_val(s) == 1:
                d = sub(b, a)
                if num.entails_ge(st.facts, d):
                    return d
                return tmax(d, const(0))
            return mk('len', v, V0)
        if v.op == 'enumerate' and v.args:
            return self.length(st, v.args[0])
        if v.op == 'zip' and v.args:
            return tmin(*[self.length(st, x) for x in v.args])
        if v.op == 'obj':
            c = self.content(st, v)
            if c is not None:
                n = self.clen(st, c)
                if n is not None:
                    return n
        if v.op == 'slice' and v.args[3] is NONE and num_val(v.args[1]) is not None and num_val(v.args[1]) >= 0:
            n = self.length(st, v.args[0])
            if n.op != 'len' or n.args[0].op != 'slice':
                lo, hi = v.args[1], v.args[2]
                if hi is NONE:
                    if num_val(lo) == 0 or num.entails_ge(st.facts, sub(n, lo)):
                        return sub(n, lo)
                elif num.entails_ge(st.facts, sub(n, hi)) and num.entails_ge(st.facts, sub(hi, lo)):
                    return sub(hi, lo)
        return mk('len', v, self.version(st, v))

    def clen(self, st, c):
        if c.op == 'seq':
            return const(len(c.args))
        if c.op == 'cat':
            r = const(0)
            for x in c.args:
                n = self.clen(st, x)
                if n is None:
                    return None
                r = add(r, n)
            return r
        if c.op in ('perm', 'copy'):
            return self.length(st, c.args[0])
        if c.op == 'mapseq' and c.args[3] is TRUE:
            return c.args[2]
        if c.op == 'rep':
            return mul(c.args[1], const(1)) if self.clen(st, c.args[0]) is const(1) else None
        return None

    def elem(self, st, s, i):
        """i-th element while iterating s"""
        if s.op == 'range':
            return add(s.args[0], mul(s.args[2], i))
        if s.op == 'values':
            b = s.args[0]
            return self.index(st, b, self.elem(st, b, i))
        if s.op == 'items':
            b = s.args[0]
            k = self.elem(st, b, i)
            return mk('tuple', k, self.index(st, b, k))
        if s.op == 'enumerate':
            return mk('tuple', add(i, s.args[1]), self.elem(st, s.args[0], i))
        if s.op == 'zip':
            return mk('tuple', *[self.elem(st, x, i) for x in s.args])
        if s.op == 'slice':
            lo = s.args[1]
            if s.args[3] is NONE or num_val(s.args[3]) == 1:
                if lo is NONE or num_val(lo) == 0:
                    return self.elem(st, s.args[0], i)
                if (num_val(lo) or -1) > 0:
                    return self.elem(st, s.args[0], add(i, lo))
        v = self.seqview(st, s)
        if v is not s and v.op in ('range', 'values', 'items', 'enumerate', 'zip'):
            return self.elem(st, v, i)
        if v.op == 'perm':
            return mk('elem', v, i, self.version(st, v.args[0]))
        if v.op == 'obj':
            c = self.content(st, v)
            r = self.celem(st, c, i) if c is not None else None
            if r is not None:
                return r
        if v.op == 'tuple':
            n = int_val(i)
            if n is not None and -len(v.args) <= n < len(v.args):
                return v.args[n]
        return mk('elem', v, i, self.version(st, v))

    def celem(self, st, c, i):
        n = int_val(i)
        if c.op == 'seq' and n is not None and -len(c.args) <= n < len(c.args):
            return c.args[n]
        if c.op == 'mapseq' and c.args[3] is TRUE and c.args[4] is TRUE:
            if n is not None and n < 0 and c.args[2] is not None:
                i = add(c.args[2], i)
            return subst(c.args[1], {c.args[0]: i})
        if c.op == 'cat':
            if n is not None and n >= 0:
                k = n
                for x in c.args:
                    if x.op == 'seq':
                        if k < len(x.args):
                            return x.args[k]
                        k -= len(x.args)
                    else:
                        return None
            if n is not None and n < 0 and c.args[-1].op == 'seq' and -n <= len(c.args[-1].args):
                return c.args[-1].args[n]
        if c.op == 'rep':
            r = self.celem(st, c.args[0], const(0)) if self.clen(st, c.args[0]) is const(1) else None
            return r
        return None

    def index(self, st, c, k):
        """c[k]"""
        v = st.heap.get((c, 'item', k))
        if v is not None:
            return v
        if c.op in ('poly', 'const') and c.op == 'const' and c.args[1] != 'str':
            return mk('index', c, k, V0)
        if c.op == 'tuple':
            n = int_val(k)
            if n is not None and -len(c.args) <= n < len(c.args):
                return c.args[n]
        if k.op == 'sym' and len(k.args) > 1 and k.args[1] == 'iter':
            b = self.iota_bound.get(k)
            if b is not None and b is self.length(st, c):
                self.walked_seq.setdefault(k, c)
                return self.elem(st, c, k)
        if c.op == 'obj':
            ct = self.content(st, c)
            if ct is not None:
                n = int_val(k)
                if ct.op in ('seq', 'cat', 'mapseq', 'rep') and not any(
                        h[0] is c and h[1] == 'item' for h in st.heap if len(h) == 3):
                    r = self.celem(st, ct, k)
                    if r is not None:
                        return r
                if ct.op in ('perm', 'copy'):
                    w = self.seqview(st, c)
                    return mk('index', w, k, self.version(st, self.strip(st, c)))
                if ct.op == 'dictlit':
                    for kk, vv in ct.args:
                        if kk is k:
                            return vv
        if c.op in ('values', 'keys', 'copy', 'perm', 'items', 'range', 'enumerate', 'zip') and int_val(k) is None:
            return self.elem(st, c, k) if c.op == 'range' else mk('index', self.seqview(st, c), k, V0)
        return mk('index', c, k, self.version(st, c))

    def contains(self, st, x, c):
        c0 = c
        if c.op in ('keys',):
            c = c.args[0]
        if c.op == 'values':
            return mk('exists', c.args[0], cmp_eq(mk('index', c.args[0], BOUND, V0), x), self.version(st, c.args[0]))
        if c.op == 'range':
            return None
        lits = None
        if c.op == 'tuple':
            lits = c.args
        elif c.op == 'obj':
            ct = self.content(st, c)
            if ct is not None and ct.op == 'seq':
                lits = ct.args
            elif ct is not None and ct.op == 'dictlit' and all(True for _ in ct.args):
                if not any(h[0] is c and h[1] == 'item' for h in st.heap if len(h) == 3):
                    lits = tuple(k for k, _ in ct.args)
                    if len(lits) > 6:
                        return mk('in', x, c, self.version(st, c))
            elif ct is not None and ct.op == 'mapseq' and ct.args[3] is TRUE and ct.args[5] is not None:
                src = ct.args[5]
                if ct.args[1].op == 'elem' and ct.args[1].args[1] is ct.args[0]:
                    return mk('in', x, self.strip(st, src), self.version(st, self.strip(st, src)))
                e = self.elem(st, src, ct.args[0])
                pred = subst(cmp_eq(ct.args[1], x), {e: BOUND})
                b = self.strip(st, src)
                return mk('exists', b, pred, self.version(st, b))
            elif ct is not None and ct.op in ('perm', 'copy'):
                b = self.strip(st, c)
                return mk('in', x, b, self.version(st, b))
        elif c.op in ('perm', 'copy'):
            c = self.strip(st, c)
        if lits is not None:
            if not lits:
                return FALSE
            es = [cmp_eq(x, l) for l in lits]
            if any(e is TRUE for e in es):
                return TRUE
            es = sorted(set(e for e in es if e is not FALSE), key=lambda t: t.key)
            if not es:
                return FALSE
            if len(es) == 1:
                return es[0]
            return mk('in', x, mk('tuple', *sorted(set(lits), key=lambda t: t.key)), V0)
        return mk('in', x, c, self.version(st, c))

    # mutation helpers -----------------------------------------------------
    def list_append(self, st, fr, node, c, v, kind='Append'):
        self.event(st, fr, node, kind, c, v)
        ct = self.content(st, c)
        if ct is not None:
            if ct.op == 'seq':
                st.heap[(c, '#')] = mk('seq', *(ct.args + (v,)))
            elif ct.op == 'cat' and ct.args[-1].op == 'seq':
                st.heap[(c, '#')] = mk('cat', *(ct.args[:-1] + (mk('seq', *(ct.args[-1].args + (v,))),)))
            elif ct.op == 'cat':
                st.heap[(c, '#')] = mk('cat', *(ct.args + (mk('seq', v),)))
            else:
                st.heap[(c, '#')] = mk('cat', ct, mk('seq', v))
        self.bump(st, c, 'append', v)

    def set_item(self, st, fr, node, c, k, v):
        self.event(st, fr, node, 'SetItem', c, k, v)
        for h in [h for h in st.heap if len(h) == 3 and h[0] is c and h[1] == 'item']:
            if h[2] is k or not (num_val(h[2]) is not None or h[2].op == 'const') or \
                    not (num_val(k) is not None or k.op == 'const'):
                del st.heap[h]
        # an earlier membership fact survives a store
        old = self.version(st, c)
        self.bump(st, c, 'set', k)
        new = self.version(st, c)
        st.heap[(c, 'item', k)] = v
        ct = self.content(st, c)
        if ct is not None:
            n = int_val(k)
            if ct.op == 'seq' and n is not None and -len(ct.args) <= n < len(ct.args):
                a = list(ct.args)
                a[n] = v
                st.heap[(c, '#')] = mk('seq', *a)
            elif ct.op == 'dictlit':
                if any(kk is k for kk, _ in ct.args):
                    st.heap[(c, '#')] = mk('dictlit', *[(kk, v if kk is k else vv) for kk, vv in ct.args])
                else:
                    st.heap[(c, '#')] = mk('dictlit', *(ct.args + ((k, v),)))
            else:
                st.heap[(c, '#')] = mk('upd', ct, k, v)
        add_f = [mk('in', k, c, new)]
        for f in st.facts:
            if f.op == 'in' and f.args[1] is c and f.args[2] is old:
                add_f.append(mk('in', f.args[0], c, new))
        for f in add_f:
            if f not in st.facts:
                st.facts = st.facts + (f,)

    def set_attr(self, st, fr, node, o, name, v):
        c = self.cls_of(o)
        if c is not None:
            s = c.find_setter(name)
            if s is not None and not self.is_observer(c):
                return [x for _, x in self.call_func(st, fr, node, s, [o, v], {})]
        self.event(st, fr, node, 'SetAttr', o, name, v)
        st.heap[(o, name)] = v
        return [st]

    # ------------------------------------------------------------ classes / types
    def cls_of(self, t):
        c = self.types.get(t)
        if c is not None:
            return c
        if t.op == 'attr' and (self.cls_of(t.args[0]) is not None):
            key = None
            for k in self.cls_of(t.args[0]).mro():
                key = self.field_types.get((k.name, t.args[1]))
                if key is not None:
                    break
            if key is not None:
                return key if isinstance(key, ClassInfo) else None
        return None

    def is_observer(self, c):
        return any(c.isa(b) for b in self.observer_bases)

    def field_init_kind(self, cls, name):
        """syntactic kind of the initial value of a field: 'dict', 'list', 'counter', 'ddict'"""
        key = ('fk', cls, name)
        if key in self.const_cache:
            return self.const_cache[key]
        r = None
        for c in cls.mro():
            f = c.methods.get('__init__')
            if f is None:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and \
                                t.attr == name and t.value.id == f.node.args.args[0].arg:
                            r = self._ctor_kind(c.mod, n.value)
                            break
        self.const_cache[key] = r
        return r

    def _ctor_kind(self, mod, v):
        if isinstance(v, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(v, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(v, ast.Call):
            r = self.prog.resolve_expr(mod, v.func)
            nm = r[1] if isinstance(r, tuple) and r[0] == 'ext' else (v.func.id if isinstance(v.func, ast.Name) else '')
            nm = nm.split('.')[-1]
            if nm == 'Counter':
                return 'counter'
            if nm == 'defaultdict':
                if v.args and isinstance(v.args[0], ast.Name) and v.args[0].id == 'int':
                    return 'counter'
                if v.args and isinstance(v.args[0], ast.Name) and v.args[0].id == 'list':
                    return 'ddict-list'
                return 'ddict'
            if nm in ('dict', 'OrderedDict'):
                return 'dict'
            if nm in ('list', 'deque'):
                return 'list'
        return None

    def dict_kind(self, st, c):
        """'counter' when missing keys read as 0"""
        if c.op == 'obj':
            ct = self.content(st, c)
            if ct is not None and ct.op == 'ctor' and ct.args[0] in ('counter', 'ddict', 'ddict-list'):
                return ct.args[0]
            return self.const_cache.get(('okind', c))
        if c.op == 'attr':
            k = self.cls_of(c.args[0])
            if k is not None:
                return self.field_init_kind(k, c.args[1])
            # an attribute reached through an untyped receiver: unique field name in the program
        return None

    # ------------------------------------------------------------ constants
    def class_const(self, c, expr, name):
        key = ('cc', c.name, c.mod.name, name)
        if key in self.const_cache:
            return self.const_cache[key]
        self.const_cache[key] = mk('attr', mk('cls', c.mod.name + ':' + c.name), name)
        fr = Frame(None, c.mod, c, None, 0)
        st = State()
        # class-body names are visible while evaluating class constants
        for n, e in c.consts.items():
            if n != name and isinstance(e, ast.Constant):
                st.env[n] = const(e.value)
        for n, e in c.consts.items():
            if n != name and isinstance(e, ast.Name) and e.id in st.env:
                st.env[n] = st.env[e.id]
        try:
            r = self.ev(expr, st, fr)
        except RecursionError:
            r = []
        ok = [v for v, s in r if not s.exit]
        if len(ok) == 1:
            v = ok[0]
            if v.op == 'obj' and ok and self.content(r[0][1], v) is not None:
                ct = self.content(r[0][1], v)
                gl = mk('attr', mk('cls', c.mod.name + ':' + c.name), name)
                self.const_cache[('content', gl)] = ct
                v = gl
        else:
            v = mk('attr', mk('cls', c.mod.name + ':' + c.name), name)
        self.const_cache[key] = v
        return v

    def mod_const(self, mod, expr, name):
        key = ('mc', mod.name, name)
        if key in self.const_cache:
            return self.const_cache[key]
        g = mk('sym', 'global:%s.%s' % (mod.name, name))
        self.const_cache[key] = g
        if isinstance(expr, (ast.Constant, ast.UnaryOp, ast.BinOp, ast.Tuple, ast.Name, ast.Attribute)):
            st = State()
            r = self.ev(expr, st, Frame(None, mod, None, None, 0))
            ok = [v for v, s in r if not s.exit]
            if len(ok) == 1:
                self.const_cache[key] = ok[0]
        elif isinstance(expr, (ast.List, ast.Set)):
            st = State()
            r = self.ev(ast.Tuple(elts=expr.elts, ctx=ast.Load()), st, Frame(None, mod, None, None, 0))
            ok = [v for v, s in r if not s.exit]
            if len(ok) == 1:
                self.const_cache[key] = ok[0]
        elif isinstance(expr, ast.Lambda):
            st = State()
            r = self.ev(expr, st, Frame(None, mod, None, None, 0))
            self.const_cache[key] = r[0][0]
        return self.const_cache[key]

    def name_value(self, r, mod, name):
        if isinstance(r, FuncInfo):
            k = mk('fn', r.mod.name + ':' + r.qual)
            self.tab[k] = r
            return k
        if isinstance(r, ClassInfo):
            k = mk('cls', r.mod.name + ':' + r.name)
            self.tab[k] = r
            return k
        if isinstance(r, tuple):
            if r[0] == 'const':
                return self.mod_const(r[1], r[2], name)
            if r[0] == 'ext':
                return mk('ext', r[1])
            if r[0] == 'module':
                return mk('module', r[1].name)
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, node, st, fr):
        """[(value, state)]"""
        if st.exit:
            return [(None, st)]
        self.nsteps += 1
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            self.note(fr, node, 'unsupported expression ' + type(node).__name__)
            return [(self.fresh('expr'), st)]
        return m(node, st, fr)

    def ev_list(self, nodes, st, fr):
        """[([values], state)]"""
        acc = [([], st)]
        for n in nodes:
            nxt = []
            for vs, s in acc:
                if s.exit:
                    nxt.append((vs, s))
                    continue
                for v, s2 in self.ev(n, s, fr):
                    nxt.append((vs + [v], s2))
            acc = nxt
        return acc

    def e_Constant(self, n, st, fr):
        return [(const(n.value) if n.value is not Ellipsis else NONE, st)]

    def e_Name(self, n, st, fr):
        if n.id in st.env:
            return [(st.env[n.id], st)]
        return [(self.global_name(n, st, fr), st)]

    def global_name(self, n, st, fr):
        name = n.id
        if fr.func is not None and name in self.assigned_names(fr.func.node):
            self.event(st, fr, n, 'Unbound', name)
            return mk('unbound', name)
        r = self.prog.lookup(fr.mod, name) if fr.mod else None
        v = self.name_value(r, fr.mod, name) if r is not None else None
        if v is not None:
            return v
        if name in BUILTINS:
            return mk('builtin', name)
        if name == '__name__':
            return mk('sym', '__name__')
        if name == '__file__':
            return mk('sym', '__file__')
        self.event(st, fr, n, 'Unresolved', name)
        return mk('unbound', name)

    def assigned_names(self, fn):
        k = ('an', fn)
        if k not in self.const_cache:
            self.const_cache[k] = assigned(fn.body) if not isinstance(fn, ast.Lambda) else set()
        return self.const_cache[k]

    def e_Attribute(self, n, st, fr):
        out = []
        for b, s in self.ev(n.value, st, fr):
            if s.exit:
                out.append((None, s))
                continue
            out.extend(self.getattr(s, fr, n, b, n.attr))
        return out

    def getattr(self, st, fr, node, b, name):
        op = b.op
        if op == 'cls':
            c = self.tab.get(b)
            r = c.find_const(name) if c else None
            if r is not None:
                return [(self.class_const(r[0], r[1], name), st)]
            f = c.find(name) if c else None
            if f is not None:
                if f.is_static or not f.is_classmethod:
                    k = mk('fn', f.mod.name + ':' + f.qual)
                    self.tab[k] = f
                    return [(k, st)]
                k = mk('bound', b, f.mod.name + ':' + f.qual)
                self.tab[k] = f
                return [(k, st)]
            if c is not None and not c.external_bases and name not in ('__name__', '__class__', '__doc__', '__dict__'):
                self.event(st, fr, node, 'NoAttr', b, name)
            v = st.heap.get((b, name))
            return [(v if v is not None else mk('attr', b, name), st)]
        if op == 'module':
            r = self.prog.lookup(self.prog.mods[b.args[0]], name)
            v = self.name_value(r, self.prog.mods[b.args[0]], name) if r is not None else None
            if v is None:
                sub_m = b.args[0] + '.' + name
                v = mk('module', sub_m) if sub_m in self.prog.mods else mk('unbound', name)
            return [(v, st)]
        if op == 'ext':
            return [(self.ext_const(b.args[0] + '.' + name), st)]
        if op == 'super':
            c = self.tab[b]
            mro = self.types[b.args[1]].mro() if b.args[1] in self.types else c.mro()
            if c in mro:
                rest = mro[mro.index(c) + 1:]
            else:
                rest = c.mro()[1:]
            for k in rest:
                if name in k.methods:
                    f = k.methods[name]
                    if f.is_property:
                        return self.call_func(st, fr, node, f, [b.args[1]], {})
                    t = mk('bound', b.args[1], f.mod.name + ':' + f.qual)
                    self.tab[t] = f
                    return [(t, st)]
            return [(mk('bmeth', b.args[1], name), st)]
        v = st.heap.get((b, name))
        if v is not None:
            return [(v, st)]
        c = self.cls_of(b)
        if c is not None:
            f = c.find(name)
            if f is not None:
                if self.is_observer(c) and b is not fr.selfterm and not self.inside_observer(fr):
                    if f.is_property:
                        return self.observe(st, fr, node, b, name)
                    return [(mk('bmeth', b, name), st)]
                if f.is_property:
                    return self.call_func(st, fr, node, f, [b], {})
                if f.is_static:
                    k = mk('fn', f.mod.name + ':' + f.qual)
                    self.tab[k] = f
                    return [(k, st)]
                t = mk('bound', b, f.mod.name + ':' + f.qual)
                self.tab[t] = f
                return [(t, st)]
            r = c.find_const(name)
            if r is not None:
                return [(self.class_const(r[0], r[1], name), st)]
            self.event(st, fr, node, 'Attr', b, name)
            return [(mk('attr', b, name), st)]
        if op in ('obj', 'tuple', 'const', 'perm', 'copy', 'keys', 'values', 'items', 'range', 'slice') or \
                (name in CONTAINER_METHODS and not self.is_field_name(name) and (name not in ('index', 'count') or node in self.callees)):
            return [(mk('bmeth', b, name), st)]
        return self.observe(st, fr, node, b, name)

    def inside_observer(self, fr):
        return fr is not None and fr.cls is not None and self.is_observer(fr.cls)

    def is_field_name(self, name):
        return False

    def observe(self, st, fr, node, b, name):
        if b.op == 'new' and name in ('encoding', 'address', '_encoding', '_address'):
            i = 1 if name.endswith('encoding') else 2
            self.event(st, fr, node, 'Attr', b, name)
            return [(b.args[i], st)]
        self.event(st, fr, node, 'Attr', b, name)
        f = self.observer_member(name)
        if f is not None and not f.is_property:
            return [(mk('bmeth', b, name), st)]
        return [(mk('attr', b, name), st)]

    def observer_member(self, name):
        k = ('om', name)
        if k not in self.const_cache:
            r = None
            for m in self.prog.mods.values():
                for c in m.classes.values():
                    if c.name == 'CAPSInstruction' and c.find(name):
                        r = c.find(name)
            self.const_cache[k] = r
        return self.const_cache[k]

    def ext_const(self, dotted):
        v = EXT_CONST.get(dotted)
        if v is not None:
            return const(v)
        return mk('ext', dotted)

    def e_Subscript(self, n, st, fr):
        out = []
        if isinstance(n.slice, ast.Slice):
            for b, s in self.ev(n.value, st, fr):
                if s.exit:
                    out.append((None, s))
                    continue
                parts = [n.slice.lower, n.slice.upper, n.slice.step]
                acc = [([], s)]
                for p in parts:
                    nxt = []
                    for vs, s2 in acc:
                        if s2.exit:
                            nxt.append((vs, s2))
                        elif p is None:
                            nxt.append((vs + [NONE], s2))
                        else:
                            nxt.extend((vs + [v], s3) for v, s3 in self.ev(p, s2, fr))
                    acc = nxt
                for vs, s2 in acc:
                    if s2.exit:
                        out.append((None, s2))
                        continue
                    out.append((self.slice(s2, fr, n, b, *vs), s2))
            return out
        for vs, s in self.ev_list([n.value, n.slice], st, fr):
            if s.exit:
                out.append((None, s))
                continue
            out.extend(self.read_index(s, fr, n, vs[0], vs[1]))
        return out

    def slice(self, st, fr, node, b, lo, hi, step):
        if b.op == 'tuple' and all(int_val(x) is not None or x is NONE for x in (lo, hi, step)):
            g = lambda x: None if x is NONE else int_val(x)
            return mk('tuple', *b.args[slice(g(lo), g(hi), g(step))])
        if lo is NONE and hi is NONE and step is NONE:
            return self.obj(st, 'list', mk('copy', b))
        if lo is NONE and hi is NONE and num_val(step) == -1:
            return self.obj(st, 'list', mk('perm', b))
        lo = const(0) if lo is NONE else lo
        v = mk('slice', b, lo, hi, step if num_val(step) != 1 else NONE)
        st.ver.setdefault(v, self.version(st, b))
        return v

    def read_index(self, st, fr, node, c, k):
        if c.op in ('cls', 'ext', 'builtin', 'fn'):
            return [(self.fresh('sub'), st)]
        kind = self.dict_kind(st, c)
        if kind == 'counter':
            lit = self.contains(st, k, c)
            out = []
            for b, s in self.branch(st, lit):
                out.append((self.index(s, c, k) if b else const(0), s))
            return out
        self.event(st, fr, node, 'Index', c, k, self.version(st, c))
        if self.catches('KeyError', 'IndexError') and c.op not in ('tuple',):
            lit = self.contains(st, k, c)
            if (c, 'item', k) in st.heap:
                lit = TRUE
            out = []
            if lit is not None:
                for b, s in self.branch(st, lit):
                    if b:
                        out.append((self.index(s, c, k), s))
                    else:
                        s.exit = ('raise', mk('exc', 'KeyError'))
                        out.append((None, s))
                return out
        return [(self.index(st, c, k), st)]

    def catches(self, *names):
        for hs in self.catch:
            for h in hs:
                if h in ('*', 'Exception', 'BaseException', 'LookupError') or h in names:
                    return True
        return False

    def e_Tuple(self, n, st, fr):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return [(self.fresh('star'), s) for _, s in self.ev_list([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st, fr)]
        return [((mk('tuple', *vs) if not s.exit else None), s) for vs, s in self.ev_list(n.elts, st, fr)]

    def e_List(self, n, st, fr):
        out = []
        star = any(isinstance(e, ast.Starred) for e in n.elts)
        for vs, s in self.ev_list([e.value if isinstance(e, ast.Starred) else e for e in n.elts], st, fr):
            if s.exit:
                out.append((None, s))
                continue
            if star:
                parts = []
                for e, v in zip(n.elts, vs):
                    parts.append(mk('copy', v) if isinstance(e, ast.Starred) else mk('seq', v))
                o = self.obj(s, 'list', mk('cat', *parts) if len(parts) > 1 else parts[0])
            else:
                o = self.obj(s, 'list', mk('seq', *vs))
            self.event(s, fr, n, 'NewList', o)
            out.append((o, s))
        return out

    def e_Set(self, n, st, fr):
        out = []
        for vs, s in self.ev_list(n.elts, st, fr):
            if s.exit:
                out.append((None, s))
                continue
            out.append((self.obj(s, 'set', mk('seq', *vs)), s))
        return out

    def e_Dict(self, n, st, fr):
        out = []
        if any(k is None for k in n.keys):
            return [(self.obj(s, 'dict', mk('unk', 'dict%d' % self.uid)), s)
                    for _, s in self.ev_list(list(n.values), st, fr)]
        for vs, s in self.ev_list(list(n.keys) + list(n.values), st, fr):
            if s.exit:
                out.append((None, s))
                continue
            h = len(n.keys)
            o = self.obj(s, 'dict', mk('dictlit', *zip(vs[:h], vs[h:])))
            self.event(s, fr, n, 'NewDict', o)
            out.append((o, s))
        return out

    def e_JoinedStr(self, n, st, fr):
        vals = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        return [(mk('str', *vs) if not s.exit else None, s) for vs, s in self.ev_list(vals, st, fr)]

    def e_FormattedValue(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Lambda(self, n, st, fr):
        self.uid += 1
        k = mk('lambda', self.uid)
        self.tab[k] = (n, dict(st.env), fr)
        return [(k, st)]

    def e_NamedExpr(self, n, st, fr):
        out = []
        for v, s in self.ev(n.value, st, fr):
            if not s.exit:
                s.env[n.target.id] = v
            out.append((v, s))
        return out

    def e_IfExp(self, n, st, fr):
        out = []
        for b, s in self.cond(n.test, st, fr):
            if s.exit:
                out.append((None, s))
            else:
                out.extend(self.ev(n.body if b else n.orelse, s, fr))
        return out

    def e_BoolOp(self, n, st, fr):
        out = []
        is_and = isinstance(n.op, ast.And)
        acc = [st]
        for i, e in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in acc:
                for v, s2 in self.ev(e, s, fr):
                    if s2.exit:
                        out.append((None, s2))
                    elif last:
                        out.append((v, s2))
                    else:
                        for b, s3 in self.truth(s2, v):
                            if b == is_and:
                                nxt.append(s3)
                            else:
                                lit = self.truth_lit(s2, v)
                                val = v if v.op not in ('ge0', 'gt0', 'eq0', 'eq', 'isnone', 'truth', 'in', 'exists',
                                                        'not', 'isinst') else (TRUE if b else FALSE)
                                out.append((val, s3))
            acc = nxt
        return out

    def e_UnaryOp(self, n, st, fr):
        out = []
        if isinstance(n.op, ast.Not):
            for v, s in self.ev(n.operand, st, fr):
                if s.exit:
                    out.append((None, s))
                else:
                    out.append((neg_lit(self.truth_lit(s, v)), s))
            return out
        for v, s in self.ev(n.operand, st, fr):
            if s.exit:
                out.append((None, s))
            elif isinstance(n.op, ast.USub):
                out.append((neg(v), s))
            elif isinstance(n.op, ast.UAdd):
                out.append((v, s))
            else:
                out.append((bit_not(v), s))
        return out

    def e_Compare(self, n, st, fr):
        # a < b < c  ->  conjunction
        out = []
        for vs, s in self.ev_list([n.left] + n.comparators, st, fr):
            if s.exit:
                out.append((None, s))
                continue
            if len(n.ops) == 1:
                out.append((self.compare(s, n.ops[0], vs[0], vs[1]), s))
                continue
            acc = [s]
            for i, op in enumerate(n.ops):
                last = i == len(n.ops) - 1
                nxt = []
                for s2 in acc:
                    lit = self.compare(s2, op, vs[i], vs[i + 1])
                    if last:
                        out.append((lit, s2))
                    else:
                        for b, s3 in self.branch(s2, lit):
                            if b:
                                nxt.append(s3)
                            else:
                                out.append((FALSE, s3))
                acc = nxt
        return out

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Eq, ast.Is)):
            r = self.seq_eq(st, a, b)
            if r is not None:
                return r
            return cmp_eq(self.flat(st, a), self.flat(st, b))
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            r = self.seq_eq(st, a, b)
            if r is not None:
                return neg_lit(r)
            return neg_lit(cmp_eq(self.flat(st, a), self.flat(st, b)))
        if isinstance(op, ast.In):
            r = self.contains(st, a, b)
            return r if r is not None else self.in_range(st, a, b)
        if isinstance(op, ast.NotIn):
            r = self.contains(st, a, b)
            return neg_lit(r if r is not None else self.in_range(st, a, b))
        if isinstance(op, ast.Lt):
            return cmp_gt(sub(b, a))
        if isinstance(op, ast.LtE):
            return cmp_ge(sub(b, a))
        if isinstance(op, ast.Gt):
            return cmp_gt(sub(a, b))
        return cmp_ge(sub(a, b))

    def seq_eq(self, st, a, b):
        """comparison of a container with an empty literal"""
        for x, y in ((a, b), (b, a)):
            if y.op == 'tuple' and not y.args or (y.op == 'obj' and self.content(st, y) is not None and
                                                  self.content(st, y).op == 'seq' and not self.content(st, y).args
                                                  and y.args[1] == 'list'):
                if x.op not in ('const', 'poly'):
                    return neg_lit(self.truth_lit(st, x))
        return None

    def flat(self, st, v):
        """list literals compare by content"""
        if v.op == 'obj' and v.args[1] == 'list':
            c = self.content(st, v)
            if c is not None and c.op == 'seq':
                return mk('tuple', *c.args)
        return v

    def in_range(self, st, a, r):
        lo, hi, s = r.args
        return mk('inrange', a, lo, hi, s)

    def e_BinOp(self, n, st, fr):
        out = []
        for vs, s in self.ev_list([n.left, n.right], st, fr):
            if s.exit:
                out.append((None, s))
            else:
                out.extend(self.binop(s, fr, n, n.op, vs[0], vs[1]))
        return out

    def binop(self, st, fr, node, op, a, b):
        st_list = None
        if isinstance(op, ast.Add):
            if self.is_seq(st, a) or self.is_seq(st, b):
                return [(self.concat(st, a, b), st)]
            if self.is_str(a) or self.is_str(b):
                if a.op == 'const' and b.op == 'const':
                    return [(const(str(a.args[0]) + str(b.args[0])), st)]
                return [(mk('str', a, b), st)]
            return [(add(a, b), st)]
        if isinstance(op, ast.Sub):
            return [(sub(a, b), st)]
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if self.is_seq(st, x):
                    ct = self.content(st, x) if x.op == 'obj' else mk('copy', x)
                    return [(self.obj(st, 'list', mk('rep', ct if ct is not None else mk('copy', x), y)), st)]
                if self.is_str(x):
                    return [(mk('str', x, y), st)]
            return [(mul(a, b), st)]
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            if self.is_str(a):
                return [(mk('str', a, b), st)]
            self.event(st, fr, node, 'Div', b, a)
            if num_val(b) is None and self.catches('ZeroDivisionError', 'ArithmeticError'):
                out = []
                for z, s in self.branch(st, cmp_eq(b, const(0))):
                    if z:
                        s.exit = ('raise', mk('exc', 'ZeroDivisionError'))
                        out.append((None, s))
                    else:
                        out.append((self.divop(op, a, b), s))
                return out
            return [(self.divop(op, a, b), st)]
        if isinstance(op, ast.Pow):
            return [(power(a, b), st)]
        if isinstance(op, ast.LShift):
            return [(mul(a, pow2(b)), st)]
        if isinstance(op, ast.RShift):
            return [(floordiv(a, pow2(b)), st)]
        if isinstance(op, ast.BitAnd):
            return [(bit_and(a, b), st)]
        if isinstance(op, ast.BitOr):
            if a.op in ('ge0', 'gt0', 'eq0', 'eq', 'truth', 'in') or (a.op == 'const' and a.args[1] == 'bool') or \
                    b.op in ('ge0', 'gt0', 'eq0', 'eq', 'truth', 'in') or (b.op == 'const' and b.args[1] == 'bool'):
                return [(self.fresh('boolor'), st)]
            return [(self.bor(st, a, b), st)]
        if isinstance(op, ast.BitXor):
            return [(self.bxor(st, a, b), st)]
        return [(self.fresh('binop'), st)]

    def divop(self, op, a, b):
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.FloorDiv):
            return floordiv(a, b)
        return mod(a, b)

    def bor(self, st, a, b):
        return bit_or(a, b)

    def bxor(self, st, a, b):
        # (2^h - 1) ^ (2^l - 1) with l <= h is the mask of bits l..h-1
        ma, mb = mask_of(a), mask_of(b)
        if ma and mb and num_val(ma[0]) == 0 and num_val(mb[0]) == 0:
            if num.entails_ge(st.facts, sub(ma[1], mb[1])):
                return sub(pow2(ma[1]), pow2(mb[1]))
            if num.entails_ge(st.facts, sub(mb[1], ma[1])):
                return sub(pow2(mb[1]), pow2(ma[1]))
        if ma and int_val(b) == 0:
            return a
        return bit_xor(a, b)

    def is_seq(self, st, v):
        return (v.op == 'obj' and v.args[1] in ('list', 'gen')) or v.op in ('tuple', 'slice', 'perm', 'copy')

    def is_str(self, v):
        if v.op == 'elem':
            # the keys of a JSON object
            b = v.args[0]
            while b.op in ('perm', 'keys', 'copy', 'sorted') and b.args and isinstance(b.args[0], T):
                b = b.args[0]
            return b.op == 'call' and b.args[0].op == 'ext' and b.args[0].args[0] in ('json.load', 'json.loads')
        return v.op == 'str' or (v.op == 'const' and v.args[1] in ('str', 'bytes'))

    def concat(self, st, a, b):
        def ct(x):
            if x.op == 'obj':
                c = self.content(st, x)
                if c is not None:
                    return c
            if x.op == 'tuple':
                return mk('seq', *x.args)
            return mk('copy', x)
        ca, cb = ct(a), ct(b)
        if a.op == 'tuple' and b.op == 'tuple':
            return mk('tuple', *(a.args + b.args))
        if ca.op == 'seq' and cb.op == 'seq':
            return self.obj(st, 'list', mk('seq', *(ca.args + cb.args)))
        if ca.op == 'seq' and not ca.args:
            return self.obj(st, 'list', cb)
        parts = (ca.args if ca.op == 'cat' else (ca,)) + (cb.args if cb.op == 'cat' else (cb,))
        return self.obj(st, 'list', mk('cat', *parts))

    # comprehension -> loop appending to a fresh container
    def comp(self, n, st, fr, kind, add_stmt):
        o = self.obj(st, kind, mk('seq') if kind != 'dict' else mk('dictlit'))
        self.event(st, fr, n, 'NewDict' if kind == 'dict' else 'NewList', o)
        body = [add_stmt(o)]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.copy_location(ast.If(test=c, body=body, orelse=[]), n)]
            f = ast.For(target=g.target, iter=g.iter, body=body, orelse=[])
            f._comp = True
            body = [ast.copy_location(f, n)]
        for b in body:
            fix_loc(b, n)
        saved = dict(st.env)
        out = []
        for s in self.ex_block(body, st, fr):
            # comprehension variables are local
            for k in list(s.env):
                if k not in saved:
                    del s.env[k]
            for k in saved:
                s.env[k] = saved[k] if k in comp_targets(n) else s.env.get(k, saved[k])
            out.append((o if not s.exit else None, s))
        return out

    def e_ListComp(self, n, st, fr):
        return self.comp(n, st, fr, 'list', lambda o: CompAdd(o, [n.elt], 'append'))

    def e_GeneratorExp(self, n, st, fr):
        return self.comp(n, st, fr, 'gen', lambda o: CompAdd(o, [n.elt], 'append'))

    def e_SetComp(self, n, st, fr):
        return self.comp(n, st, fr, 'set', lambda o: CompAdd(o, [n.elt], 'append'))

    def e_DictComp(self, n, st, fr):
        return self.comp(n, st, fr, 'dict', lambda o: CompAdd(o, [n.key, n.value], 'set'))

    def s_CompAdd(self, n, st, fr):
        out = []
        for vs, s in self.ev_list(n.elts, st, fr):
            if not s.exit:
                if n.mode == 'append':
                    self.list_append(s, fr, n, n.obj, vs[0])
                else:
                    self.set_item(s, fr, n, n.obj, vs[0], vs[1])
            out.append(s)
        return out

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        out = []
        for v, s in (self.ev(n.value, st, fr) if n.value is not None else [(NONE, st)]):
            if not s.exit and '<yield>' in s.env:
                self.list_append(s, fr, n, s.env['<yield>'], v)
            out.append((NONE, s))
        return out

    def e_YieldFrom(self, n, st, fr):
        out = []
        for v, s in self.ev(n.value, st, fr):
            if not s.exit and '<yield>' in s.env:
                self.extend(s, fr, n, s.env['<yield>'], v)
            out.append((NONE, s))
        return out

    # ------------------------------------------------------------ conditions
    def cond(self, node, st, fr):
        """[(bool, state)] with short-circuit partitioning"""
        if st.exit:
            return [(None, st)]
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            out, acc = [], [st]
            for e in node.values:
                nxt = []
                for s in acc:
                    for b, s2 in self.cond(e, s, fr):
                        if s2.exit:
                            out.append((None, s2))
                        elif b == is_and:
                            nxt.append(s2)
                        else:
                            out.append((b, s2))
                acc = nxt
            out.extend((is_and, s) for s in acc)
            return out
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [((None if b is None else not b), s) for b, s in self.cond(node.operand, st, fr)]
        out = []
        for v, s in self.ev(node, st, fr):
            if s.exit:
                out.append((None, s))
            elif v.op == 'inrange':
                a, lo, hi, step = v.args
                if num_val(step) == 1:
                    l1, l2 = cmp_ge(sub(a, lo)), cmp_gt(sub(hi, a))
                    for b1, s1 in self.branch(s, l1):
                        if not b1:
                            out.append((False, s1))
                        else:
                            out.extend(self.branch(s1, l2))
                else:
                    out.extend(self.branch(s, v))
            else:
                out.extend(self.truth(s, v))
        return out

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, fr):
        self.callees.add(n.func)
        out = []
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and 'super' not in st.env:
            return [(self.mk_super(n, s, fr, vs), s) for vs, s in self.ev_list(n.args, st, fr)]
        for f, s in self.ev(n.func, st, fr):
            if s.exit:
                out.append((None, s))
                continue
            starred = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords)
            for vs, s2 in self.ev_list([a.value if isinstance(a, ast.Starred) else a for a in n.args] +
                                       [k.value for k in n.keywords], s, fr):
                if s2.exit:
                    out.append((None, s2))
                    continue
                pos = []
                for a, v in zip(n.args, vs):
                    if isinstance(a, ast.Starred):
                        if v.op == 'tuple':
                            pos.extend(v.args)
                        elif v.op == 'obj' and self.content(s2, v) is not None and self.content(s2, v).op == 'seq':
                            pos.extend(self.content(s2, v).args)
                        else:
                            pos.append(mk('star', v))
                    else:
                        pos.append(v)
                kw = {}
                for k, v in zip(n.keywords, vs[len(n.args):]):
                    if k.arg is None:
                        kw['**'] = v
                    else:
                        kw[k.arg] = v
                out.extend(self.call(s2, fr, n, f, pos, kw))
        return out

    def mk_super(self, n, st, fr, vs):
        c = fr.cls
        selft = fr.selfterm
        if vs:
            if vs[0].op == 'cls':
                c = self.tab.get(vs[0])
            elif vs[0].op == 'attr' and vs[0].args[1] == '__class__':
                c = self.cls_of(vs[0].args[0])
            if len(vs) == 1:
                return self.fresh('unboundsuper')
        if c is None or selft is None:
            return self.fresh('super')
        t = mk('super', c.mod.name + ':' + c.name, selft)
        self.tab[t] = c
        return t

    def call(self, st, fr, node, f, pos, kw):
        op = f.op
        if op in ('fn', 'bound'):
            fi = self.tab[f]
            args = ([f.args[0]] if op == 'bound' else []) + pos
            return self.call_func(st, fr, node, fi, args, kw)
        if op == 'cls':
            return self.instantiate(st, fr, node, f, pos, kw)
        if op == 'lambda':
            return self.call_lambda(st, fr, node, f, pos, kw)
        if op == 'builtin':
            return self.call_builtin(st, fr, node, f.args[0], pos, kw)
        if op == 'ext':
            return self.call_ext(st, fr, node, f.args[0], pos, kw)
        if op == 'bmeth':
            return self.call_method(st, fr, node, f.args[0], f.args[1], pos, kw)
        if op == 'partial':
            return self.call(st, fr, node, f.args[0], list(f.args[1]) + pos, kw)
        # unknown callable value
        self.event(st, fr, node, 'CallUnknown', f, tuple(pos)).kw = dict((k, v) for k, v in kw.items() if isinstance(v, T)) if kw else {}
        return [(mk('call', f, *pos), st)]

    def apply_key(self, st, fr, node, kf):
        """((facts, value), …) of a sort key on the element sym('sortelem')"""
        if not isinstance(kf, T) or kf.op == 'const' or kf is NONE:
            return ()
        x = mk('sym', 'sortelem')
        if kf.op == 'getter':
            out = []
            for a in kf.args[1:]:
                if kf.args[0] == 'attrgetter' and a.op == 'const':
                    v = x
                    for n in a.args[0].split('.'):
                        v = mk('attr', v, n)
                else:
                    v = mk('index', x, a, V0)
                out.append(v)
            return (((), out[0] if len(out) == 1 else mk('tuple', *out)),)
        st2 = st.fork()
        base = st2.facts
        try:
            res = self.call(st2, fr, node, kf, [mk('sym', 'sortelem')], {})
        except RecursionError:
            raise
        except Exception:
            return ()
        return tuple((tuple(f for f in s.facts if f not in base), v) for v, s in res)

    def call_lambda(self, st, fr, node, f, pos, kw):
        n, env, dfr = self.tab[f]
        if isinstance(n, ast.Lambda):
            saved = st.env
            st.env = dict(env)
            # a closure sees the current values of an enclosing frame still running
            if dfr.func is fr.func:
                for k in env:
                    if k in saved:
                        st.env[k] = saved[k]
            err = self.bind(st, fr, node, n.args, pos, kw, n)
            out = []
            nf = Frame(dfr.func, dfr.mod, dfr.cls, dfr.selfterm, fr.depth + 1, fr)
            for v, s in self.ev(n.body, st, nf):
                s.env = dict(saved)
                out.append((v, s))
            return out
        # nested def
        saved = st.env
        cap = dict(env)
        if dfr.func is fr.func:
            cap.update({k: v for k, v in saved.items()})
        fi = FuncInfo(dfr.mod, n, None)
        return self.call_func(st, fr, node, fi, pos, kw, captured=cap, selfterm=dfr.selfterm, cls=dfr.cls)

    def bind(self, st, fr, node, a, pos, kw, fnode, defaults_frame=None):
        """bind parameters in st.env"""
        params = [p.arg for p in a.posonlyargs + a.args]
        n = len(params)
        for p, v in zip(params, pos):
            st.env[p] = v
        if len(pos) > n:
            if a.vararg:
                st.env[a.vararg.arg] = mk('tuple', *pos[n:])
            elif not any(v.op == 'star' for v in pos):
                self.event(st, fr, node, 'Arity', getattr(fnode, 'name', '<lambda>'), 'too many arguments')
        elif a.vararg:
            st.env[a.vararg.arg] = mk('tuple')
        kwo = [p.arg for p in a.kwonlyargs]
        extra = []
        for k, v in kw.items():
            if k in params or k in kwo:
                st.env[k] = v
            elif k != '**':
                extra.append(k)
        if extra and not a.kwarg:
            self.event(st, fr, node, 'Arity', getattr(fnode, 'name', '<lambda>'), 'unexpected keyword ' + extra[0])
        if a.kwarg:
            st.env[a.kwarg.arg] = self.fresh('kwargs')
        given = set(params[:len(pos)]) | set(kw)
        nd = len(a.defaults)
        for p, d in zip(params[n - nd:] if nd else [], a.defaults):
            if p not in given:
                st.env[p] = self.default_value(fr, fnode, d)
        for p, d in zip(kwo, a.kw_defaults):
            if p not in given and d is not None:
                st.env[p] = self.default_value(fr, fnode, d)
        if '**' not in kw and not any(v.op == 'star' for v in pos):
            for p in params[:n - nd]:
                if p not in given and p not in st.env.get('<bound>', ()):
                    if p not in params[:len(pos)]:
                        self.event(st, fr, node, 'Arity', getattr(fnode, 'name', '<lambda>'), 'missing argument ' + p)
                        st.env[p] = mk('unbound', p)
        for p in params + kwo:
            if p not in st.env:
                st.env[p] = self.fresh('arg')

    def default_value(self, fr, fnode, d):
        fi = getattr(fnode, '_fi', None)
        if isinstance(d, ast.Constant):
            return const(d.value)
        mod = fi.mod if fi else fr.mod
        cls = fi.cls if fi else None
        st = State()
        if cls is not None:
            for nme, e in cls.consts.items():
                if isinstance(e, ast.Constant):
                    st.env[nme] = const(e.value)
        r = self.ev(d, st, Frame(None, mod, cls, None, 0))
        v = r[0][0]
        if v is not None and v.op == 'obj':
            # a mutable default: one shared object
            g = mk('sym', 'default:%s:%s' % (getattr(fnode, 'name', '?'), d.lineno))
            return g
        return v

    def should_inline(self, fi, fr):
        if fi.name in self.opaque_funcs or fi.qual in self.opaque_funcs:
            return False
        if fi.cls is not None and fi.cls.name in self.opaque_classes:
            return False
        if fr.depth >= MAXDEPTH or self.stack.count(fi.node) >= 1:
            return False
        return True

    def as_positional(self, fi, pos, kw):
        """keyword arguments of a call that is not followed, put at the place of their parameter"""
        if not kw:
            return pos
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = list(pos)
        left = dict(kw.items() if isinstance(kw, dict) else kw)
        for n in names[len(out):]:
            if n in left:
                out.append(left.pop(n))
            else:
                break
        return out + [mk('kw', k, v) for k, v in sorted(left.items(), key=lambda x: str(x[0])) if k is not None]

    def call_func(self, st, fr, node, fi, pos, kw, captured=None, selfterm=None, cls=None):
        if fi.cls is not None and self.is_observer(fi.cls) and pos and not self.inside_observer(fr) and \
                not fi.is_static and self.types.get(pos[0]) is not None and pos[0].op != 'obj':
            return self.observer_call(st, fr, node, pos[0], fi.name, pos[1:])
        if not self.should_inline(fi, fr):
            pos = self.as_positional(fi, pos, kw)
            self.event(st, fr, node, 'Call', fi.qual, tuple(pos))
            if fi.cls is not None and not fi.is_static and pos and pos[0].op == 'obj':
                # a method that is not followed may change the fields of its object
                self.uid += 1
                for k in [k for k in st.heap if k[0] is pos[0] and len(k) == 2 and k[1] != '#']:
                    st.heap[k] = mk('after', pos[0], k[1], self.uid)
            return [(mk('call', mk('fn', fi.mod.name + ':' + fi.qual), *pos), st)]
        self.visited.add((fi.mod.rel, fi.qual))
        base_trace, base_facts, saved = st.trace, st.facts, st.env
        st.trace = None
        st.env = dict(captured) if captured else {}
        fi.node._fi = fi
        self.bind(st, fr, node, fi.node.args, pos, kw, fi.node)
        nself = selfterm
        ncls = cls or fi.cls
        if fi.cls is not None and not fi.is_static and pos:
            nself = pos[0]
        nf = Frame(fi, fi.mod, ncls, nself, fr.depth + 1, fr)
        nf.last = fr.last and fr.tail is node
        gen = is_generator(fi.node)
        if gen:
            y = self.obj(st, 'gen', mk('seq'))
            st.env['<yield>'] = y
        self.stack.append(fi.node)
        try:
            outs = self.ex_block(fi.node.body, st, nf)
        finally:
            self.stack.pop()
        res = []
        for s in outs:
            if s.exit and s.exit[0] == 'raise':
                v = None
            elif s.exit and s.exit[0] == 'return':
                v = s.exit[1]
                s.exit = None
            else:
                s.exit = None
                v = NONE
            if gen and v is not None:
                v = s.env.get('<yield>', y)
            s.env = saved
            res.append((v, s))
        res = coalesce(res) if nf.last and len(res) <= MAXPATHS else self.merge_call(res, base_facts, fi.qual, fr, node)
        out = []
        for v, s in res:
            # re-attach the caller's trace in front of the callee's
            items = s.items()
            s.trace = base_trace
            for it in items:
                s.push(it)
            s.env = dict(saved)
            out.append((v, s))
        return out

    def merge_call(self, res, base_facts, name, fr, node):
        """merge callee paths that return the same value"""
        res = coalesce(res)
        groups = {}
        order = []
        for v, s in res:
            k = (v, s.exit)
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(s)
        out = []
        vals = [k for k in order if k[1] is None]
        nnorm = sum(len(groups[k]) for k in vals)
        for k in order:
            g = groups[k]
            if len(g) <= (1 if nnorm > 6 else 2) or nnorm <= 4:
                out.extend((k[0], s) for s in g)
            else:
                out.append((k[0], merge_states(self, g, base_facts, name)))
        # too many distinct results: forget the value
        norm = [(v, s) for v, s in out if s.exit is None]
        if len(norm) > 24:
            s = merge_states(self, [s for _, s in norm], base_facts, name)
            out = [(v, x) for v, x in out if x.exit is not None] + [(self.fresh('ret'), s)]
        return out

    def instantiate(self, st, fr, node, f, pos, kw):
        c = self.tab.get(f)
        if self.is_observer(c):
            init = c.find('__init__')
            args = list(pos)
            if init is not None:
                tmp = State()
                tmp.facts, tmp.trace = st.facts, None
                init.node._fi = init
                self.bind(tmp, fr, node, init.node.args, [mk('sym', 'self')] + pos, kw, init.node)
                for it in tmp.items():
                    st.push(it)
                ps = [p.arg for p in init.node.args.args][1:3]
                args = [tmp.env.get(p, NONE) for p in ps]
            while len(args) < 2:
                args.append(NONE)
            t = mk('new', c.name, args[0], args[1])
            self.event(st, fr, node, 'New', t)
            self.types[t] = c
            return [(t, st)]
        o = self.obj(st, 'inst', None, c)
        self.event(st, fr, node, 'NewObj', o, c.name, tuple(pos))
        init = c.find('__init__')
        if init is None or c.name in self.opaque_classes:
            return [(o, st)]
        out = []
        for v, s in self.call_func(st, fr, node, init, [o] + pos, kw):
            out.append((o if not s.exit else None, s))
        return out

    # builtins -------------------------------------------------------------
    def call_builtin(self, st, fr, node, name, pos, kw):
        a = pos[0] if pos else None
        if name == 'len' and len(pos) == 1:
            return [(self.length(st, a), st)]
        if name == 'range':
            if len(pos) == 1:
                lo, hi, s = const(0), pos[0], const(1)
            elif len(pos) == 2:
                lo, hi, s = pos[0], pos[1], const(1)
            else:
                lo, hi, s = pos[:3]
            return [(mk('range', lo, hi, s), st)]
        if name in ('min', 'max') and 'key' not in kw:
            if len(pos) >= 2:
                return [((tmin if name == 'min' else tmax)(*pos), st)]
            if a is not None:
                xs = self.lit_elems(st, a)
                if xs:
                    return [((tmin if name == 'min' else tmax)(*xs), st)]
                return [(mk('agg', name, self.aggseq(st, a), self.version(st, a)), st)]
        if name in ('int', 'round') and pos:
            if len(pos) > 1 or (name == 'int' and self.is_str(a)):
                if self.catches('ValueError'):
                    s2 = st.fork()
                    s2.exit = ('raise', mk('exc', 'ValueError'))
                    return [(mk('call', mk('builtin', name), *pos), st), (None, s2)]
                return [(mk('call', mk('builtin', name), *pos), st)]
            if name == 'round' and not int_like(a):
                return [(mk('call', mk('builtin', 'round'), a), st)]
            if a.op in ('ge0', 'gt0', 'eq0', 'in', 'truth', 'eq', 'not'):
                out = []
                for b, s in self.branch(st, a):
                    out.append((const(1 if b else 0), s))
                return out
            return [(a if whole(a) else floor_t(a), st)]
        if name == 'float':
            return [(a, st)]
        if name == 'bool':
            return [(self.truth_lit(st, a), st)] if a is not None else [(FALSE, st)]
        if name == 'abs':
            n = num_val(a)
            return [(const(abs(n)) if n is not None else mk('absv', a), st)]
        if name == 'pow' and len(pos) == 2:
            return [(power(*pos), st)]
        if name == 'divmod' and len(pos) == 2:
            self.event(st, fr, node, 'Div', pos[1], pos[0])
            return [(mk('tuple', floordiv(*pos), mod(*pos)), st)]
        if name in ('list', 'tuple'):
            if a is None:
                o = self.obj(st, 'list', mk('seq'))
                self.event(st, fr, node, 'NewList', o)
                return [(o, st)]
            if a.op == 'tuple' and name == 'tuple':
                return [(a, st)]
            o = self.obj(st, 'list', mk('seq', *a.args) if a.op == 'tuple' else
                         (self.content(st, a) if a.op == 'obj' and self.content(st, a) is not None and
                          self.content(st, a).op in ('seq', 'mapseq', 'cat') else mk('copy', a)))
            self.event(st, fr, node, 'NewList', o)
            return [(o, st)]
        if name in ('set', 'frozenset'):
            o = self.obj(st, 'set', mk('seq') if a is None else mk('copy', a))
            self.event(st, fr, node, 'NewSet', o)
            return [(o, st)]
        if name == 'dict':
            if a is None and not kw:
                o = self.obj(st, 'dict', mk('dictlit'))
            elif a is not None and not kw and (a.op != 'obj' or a.args[1] == 'dict'):
                o = self.obj(st, 'dict', mk('copy', a))
            else:
                o = self.obj(st, 'dict', mk('dictof', *(tuple(pos) + tuple(kw.values()))))
            self.event(st, fr, node, 'NewDict', o)
            return [(o, st)]
        if name == 'sorted':
            o = self.obj(st, 'list', mk('perm', a))
            self.event(st, fr, node, 'Sorted', o, a, kw.get('key', NONE), kw.get('reverse', FALSE),
                       self.apply_key(st, fr, node, kw.get('key', NONE)))
            return [(o, st)]
        if name == 'reversed':
            if a.op == 'range' and num_val(a.args[2]) in (1, -1):
                lo, hi, s = a.args
                return [(mk('range', sub(hi, s), sub(lo, s), neg(s)), st)]
            return [(mk('perm', a), st)]
        if name == 'enumerate':
            start = pos[1] if len(pos) > 1 else kw.get('start', const(0))
            return [(mk('enumerate', a, start), st)]
        if name == 'zip':
            return [(mk('zip', *pos), st)]
        if name in ('any', 'all'):
            return self.any_all(st, fr, node, name, a)
        if name == 'sum':
            xs = self.lit_elems(st, a)
            if xs is not None:
                return [(add(*([const(0)] + xs)), st)]
            return [(mk('agg', 'sum', self.aggseq(st, a), self.version(st, a)), st)]
        if name in ('map', 'filter'):
            return self.map_filter(st, fr, node, name, pos)
        if name == 'isinstance':
            return [(self.isinst(st, a, pos[1]), st)]
        if name == 'getattr' and len(pos) >= 2 and pos[1].op == 'const':
            return self.getattr(st, fr, node, a, pos[1].args[0])
        if name == 'setattr' and len(pos) == 3 and pos[1].op == 'const':
            return [(NONE, s) for s in self.set_attr(st, fr, node, a, pos[1].args[0], pos[2])]
        if name == 'hasattr':
            return [(mk('truth', mk('hasattr', *pos), V0), st)]
        if name == 'str':
            return [(mk('strof', a) if a is not None else const(''), st)]
        if name in ('repr', 'hex', 'bin', 'ord', 'chr', 'type', 'id', 'hash', 'format', 'callable', 'iter', 'bytes', 'bytearray'):
            if name == 'iter':
                return [(a, st)]
            return [(mk('call', mk('builtin', name), *pos), st)]
        if name == 'next' and pos:
            return self.next_(st, fr, node, pos)
        if name == 'print':
            self.event(st, fr, node, 'Print', tuple(pos))
            return [(NONE, st)]
        if name == 'open':
            self.uid += 1
            t = mk('file', self.uid, *pos)
            self.event(st, fr, node, 'Open', t, tuple(pos))
            return [(t, st)]
        if name in ('exit', 'quit'):
            st.exit = ('raise', mk('exc', 'SystemExit'))
            return [(None, st)]
        if name in EXC_NAMES:
            return [(mk('exc', name), st)]
        return [(mk('call', mk('builtin', name), *pos), st)]

    def next_(self, st, fr, node, pos):
        g = pos[0]
        # next((e for x in xs if c), default): first match or default
        c = self.content(st, g) if g.op == 'obj' else None
        self.event(st, fr, node, 'Next', g)
        v = mk('first', c if c is not None else g)
        if len(pos) > 1:
            a, b = st.fork(), st.fork()
            out = []
            lit = mk('truth', mk('nonempty', c if c is not None else g), V0)
            if self.assume(a, lit, True):
                out.append((v, a))
            if self.assume(b, lit, False):
                out.append((pos[1], b))
            return out
        return [(v, st)]

    def isinst(self, st, a, c):
        if c.op == 'builtin':
            n = c.args[0]
            if n == 'str' and (a.op == 'const' and a.args[1] == 'str'):
                return TRUE
            if n == 'list' and a.op == 'obj':
                return TRUE if a.args[1] == 'list' else FALSE
            if n == 'dict' and a.op == 'obj':
                return TRUE if a.args[1] == 'dict' else FALSE
        return mk('isinst', a, c)

    def aggseq(self, st, a):
        if a.op == 'obj':
            c = self.content(st, a)
            if c is not None:
                return c
        return a

    def lit_elems(self, st, a):
        if a.op == 'tuple':
            return list(a.args)
        if a.op == 'obj':
            c = self.content(st, a)
            if c is not None and c.op == 'seq':
                return list(c.args)
        return None

    def any_all(self, st, fr, node, name, a):
        xs = self.lit_elems(st, a)
        if xs is not None:
            # conjunction / disjunction
            out, acc = [], [st]
            want = name == 'any'
            for x in xs:
                nxt = []
                for s in acc:
                    for b, s2 in self.truth(s, x):
                        if b == want:
                            out.append((TRUE if want else FALSE, s2))
                        else:
                            nxt.append(s2)
                acc = nxt
            out.extend((FALSE if want else TRUE, s) for s in acc)
            return out
        c = self.content(st, a) if a.op == 'obj' else None
        if c is not None and c.op == 'mapseq' and c.args[5] is not None:
            iota, elt, n, full, _, src = c.args[:6]
            lit = self.truth_lit(st, elt)
            e = self.elem(st, src, iota)
            b = self.strip(st, src)
            conds = [full] if full is not TRUE else []
            pred = subst(lit, {e: BOUND})
            cs = tuple(subst(x, {e: BOUND}) for x in conds)
            if name == 'any':
                if cs:
                    return [(mk('exists', b, mk('and_', *(cs + (pred,))), self.version(st, b)), st)]
                return [(self.exists(st, b, pred), st)]
            if not cs:
                return [(neg_lit(self.exists(st, b, neg_lit(pred))), st)]
        return [(mk('truth', mk('agg', name, self.aggseq(st, a), self.version(st, a)), V0), st)]

    def exists(self, st, b, pred):
        """some element of b satisfies pred"""
        if pred.op in ('eq', 'eq0'):
            # equality of the element itself -> membership
            if pred.op == 'eq' and BOUND in pred.args:
                x = pred.args[0] if pred.args[1] is BOUND else pred.args[1]
                if not mentions(x, BOUND):
                    return mk('in', x, b, self.version(st, b))
            if pred.op == 'eq0':
                d = pd(pred.args[0])
                c = d.get(((BOUND, 1),))
                if c in (1, -1):
                    x = scale(sub(pred.args[0], scale(BOUND, c)), -1 / c)
                    if not mentions(x, BOUND):
                        return mk('in', x, b, self.version(st, b))
        return mk('exists', b, pred, self.version(st, b))

    def map_filter(self, st, fr, node, name, pos):
        f, xs = pos[0], pos[1]
        # desugar to a loop over xs
        self.uid += 1
        vn, xn = '<m%d>' % self.uid, '<x%d>' % self.uid
        fnn = '<f%d>' % self.uid
        st.env[fnn], st.env[xn] = f, xs
        o = self.obj(st, 'gen', mk('seq'))
        self.event(st, fr, node, 'NewList', o)
        call = ast.Call(func=ast.Name(id=fnn, ctx=ast.Load()), args=[ast.Name(id=vn, ctx=ast.Load())], keywords=[])
        if name == 'map':
            body = [CompAdd(o, [call], 'append')]
        else:
            t = call if f is not NONE else ast.Name(id=vn, ctx=ast.Load())
            body = [ast.If(test=t, body=[CompAdd(o, [ast.Name(id=vn, ctx=ast.Load())], 'append')], orelse=[])]
        lp = ast.For(target=ast.Name(id=vn, ctx=ast.Store()), iter=ast.Name(id=xn, ctx=ast.Load()), body=body, orelse=[])
        fix_loc(lp, node)
        out = []
        for s in self.ex_block([lp], st, fr):
            for k in (vn, xn, fnn):
                s.env.pop(k, None)
            out.append((o if not s.exit else None, s))
        return out

    def call_ext(self, st, fr, node, name, pos, kw):
        short = name.split('.')[-1]
        a = pos[0] if pos else None
        if name in ('math.floor',):
            return [(a if whole(a) else floor_t(a), st)]
        if name == 'math.ceil':
            return [(a if whole(a) else neg(floor_t(neg(a))), st)]
        if name in ('math.fmod', 'operator.mod'):
            self.event(st, fr, node, 'Div', pos[1], pos[0])
            return [(mod(pos[0], pos[1]), st)]
        if name in ('math.pow', 'operator.pow'):
            return [(power(pos[0], pos[1]), st)]
        if name in ('math.log', 'math.log2', 'math.log10'):
            base = pos[1] if len(pos) > 1 else const(2 if name.endswith('2') else 0)
            self.event(st, fr, node, 'Log', a)
            e = log2_of(a)
            if num_val(base) == 2 and e is not None:
                return [(e, st)]
            return [(mk('log', a, base), st)]
        if name == 'math.sqrt':
            return [(mk('sqrt', a), st)]
        if name in ('math.prod',):
            return [(mk('agg', 'prod', self.aggseq(st, a), self.version(st, a)), st)]
        if name in ('random.randint', 'random.randrange', 'random.uniform', 'random.random', 'random.choice',
                    'random.sample', 'random.getrandbits'):
            self.uid += 1
            t = mk('rand', self.uid, short, *pos)
            self.event(st, fr, node, 'Random', short, tuple(pos), t)
            if short == 'randint':
                st.facts = st.facts + tuple(x for x in (cmp_ge(sub(t, pos[0])), cmp_ge(sub(pos[1], t)))
                                            if x not in (TRUE, FALSE) and x not in st.facts)
            elif short == 'randrange':
                lo, hi = (const(0), pos[0]) if len(pos) == 1 else pos[:2]
                st.facts = st.facts + tuple(x for x in (cmp_ge(sub(t, lo)), cmp_gt(sub(hi, t)))
                                            if x not in (TRUE, FALSE) and x not in st.facts)
            elif short == 'sample' and pos:
                o = self.obj(st, 'list', mk('sample', pos[0], pos[1] if len(pos) > 1 else kw.get('k', NONE)))
                return [(o, st)]
            elif short == 'choice' and pos:
                self.const_cache[('choice', t)] = pos[0]
            return [(t, st)]
        if name == 'random.shuffle' and a is not None:
            self.event(st, fr, node, 'Sort', a, NONE)
            self.bump(st, a, 'perm')
            return [(NONE, st)]
        if name in ('copy.deepcopy', 'copy.copy'):
            o = self.obj(st, 'dict', mk('copy', a))
            self.event(st, fr, node, 'Copy', o, a)
            return [(o, st)]
        if name in ('collections.Counter', 'collections.defaultdict', 'collections.OrderedDict'):
            if short == 'Counter' and pos:
                o = self.obj(st, 'dict', mk('countof', self.aggseq(st, a)))
                self.const_cache[('okind', o)] = 'counter'
                self.event(st, fr, node, 'CountOf', o, a)
                return [(o, st)]
            kind = 'counter' if short == 'Counter' or (a is not None and a.op == 'builtin' and a.args[0] == 'int') \
                else ('ddict-list' if a is not None and a.op == 'builtin' and a.args[0] == 'list'
                      else ('ddict' if short == 'defaultdict' else 'dict'))
            o = self.obj(st, 'dict', mk('dictlit'))
            self.const_cache[('okind', o)] = kind
            self.event(st, fr, node, 'NewDict', o)
            return [(o, st)]
        if name == 'collections.deque':
            o = self.obj(st, 'list', mk('seq') if a is None else mk('copy', a))
            return [(o, st)]
        if name == 'functools.partial':
            return [(mk('partial', pos[0], tuple(pos[1:])), st)]
        if name in ('itertools.chain',):
            o = self.obj(st, 'list', mk('cat', *[mk('copy', p) for p in pos]))
            return [(o, st)]
        if name == 'struct.unpack':
            self.event(st, fr, node, 'Call', name, tuple(pos))
            codes = struct_codes(pos[0].args[0]) if pos and pos[0].op == 'const' and isinstance(pos[0].args[0], str) else None
            u = mk('call', mk('ext', name), *pos)
            if codes is not None and len(codes) > 1:
                return [(mk('tuple', *[mk('index', u, const(i), V0) for i in range(len(codes))]), st)]
            return [(mk('tuple', u), st)]
        if name in ('operator.attrgetter', 'operator.itemgetter'):
            return [(mk('getter', short, *pos), st)]
        self.event(st, fr, node, 'Call', name, tuple(pos) + tuple(v for k, v in sorted(kw.items())))
        if name in PURE_EXT:
            return [(mk('call', mk('ext', name), *pos), st)]
        self.uid += 1
        return [(mk('call', mk('ext', name), *(tuple(pos) + (mk('n', self.uid, *self.iotas),))), st)]

    # methods on containers / unknown receivers --------------------------------
    def extend(self, st, fr, node, c, xs):
        lits = self.lit_elems(st, xs)
        if lits is not None:
            for v in lits:
                self.list_append(st, fr, node, c, v)
            return
        self.event(st, fr, node, 'Extend', c, xs)
        ct = self.content(st, c)
        if ct is not None:
            xc = self.content(st, xs) if xs.op == 'obj' and self.content(st, xs) is not None else mk('copy', xs)
            if ct.op == 'seq' and not ct.args:
                st.heap[(c, '#')] = xc
            elif ct.op == 'cat':
                st.heap[(c, '#')] = mk('cat', *(ct.args + (xc,)))
            else:
                st.heap[(c, '#')] = mk('cat', ct, xc)
        self.bump(st, c, 'extend', xs)

    def call_method(self, st, fr, node, r, name, pos, kw):
        a = pos[0] if pos else None
        c = self.cls_of(r)
        if c is not None and self.is_observer(c) and c.find(name):
            return self.observer_call(st, fr, node, r, name, pos)
        if self.observer_member(name) is not None and r.op not in ('obj', 'tuple', 'const', 'str', 'file') and \
                name not in CONTAINER_METHODS:
            return self.observer_call(st, fr, node, r, name, pos)
        if self.is_str(r) or r.op in ('strof',) or (name in STR_METHODS and r.op != 'obj'):
            if r.op == 'const' and name in ('lower', 'upper', 'strip') and not pos:
                return [(const(getattr(r.args[0], name)()), st)]
            return [(mk('mcall', r, name, *pos), st)]
        if name in ('append', 'add', 'appendleft') and len(pos) == 1 and r.op != 'file':
            self.list_append(st, fr, node, r, a, 'Append')
            return [(NONE, st)]
        if name in ('extend',) and len(pos) == 1:
            self.extend(st, fr, node, r, a)
            return [(NONE, st)]
        if name == 'update' and len(pos) == 1:
            self.event(st, fr, node, 'Update', r, a)
            self.drop_items(st, r)
            if (r, '#') in st.heap:
                st.heap[(r, '#')] = self.fresh('upd')
            self.bump(st, r, 'update', a)
            return [(NONE, st)]
        if name == 'insert' and len(pos) == 2:
            self.event(st, fr, node, 'Insert', r, pos[0], pos[1])
            ct = self.content(st, r)
            if ct is not None:
                if num_val(pos[0]) == 0:
                    parts = ct.args if ct.op == 'cat' else (ct,)
                    if parts[0].op == 'seq':
                        st.heap[(r, '#')] = mk('cat', mk('seq', *((pos[1],) + parts[0].args)), *parts[1:]) \
                            if len(parts) > 1 else mk('seq', *((pos[1],) + parts[0].args))
                    else:
                        st.heap[(r, '#')] = mk('cat', mk('seq', pos[1]), *parts)
                else:
                    st.heap[(r, '#')] = self.fresh('ins')
            self.drop_items(st, r)
            self.bump(st, r, 'insert', *pos)
            return [(NONE, st)]
        if name == 'pop':
            if not pos:
                k = const(-1)
            else:
                k = a
            v = self.index(st, r, k)
            self.event(st, fr, node, 'Pop', r, k, v, pos[1] if len(pos) > 1 else mk('nodefault'))
            ct = self.content(st, r)
            if ct is not None:
                n = int_val(k)
                if ct.op == 'seq' and n is not None and -len(ct.args) <= n < len(ct.args):
                    l = list(ct.args)
                    l.pop(n)
                    st.heap[(r, '#')] = mk('seq', *l)
                else:
                    st.heap[(r, '#')] = mk('popped', ct, k)
            self.drop_items(st, r)
            self.bump(st, r, 'pop', k)
            return [(v, st)]
        if name in ('remove', 'discard', 'clear', 'popitem', 'popleft'):
            self.event(st, fr, node, 'Remove', r, name, a if a is not None else NONE)
            if (r, '#') in st.heap:
                st.heap[(r, '#')] = mk('seq') if name == 'clear' else self.fresh('rem')
            self.drop_items(st, r)
            self.bump(st, r, name, *pos)
            return [(self.fresh('pop') if name.startswith('pop') else NONE, st)]
        if name in ('sort', 'reverse') and r.op != 'file':
            kf = kw.get('key', a if a is not None else NONE)
            self.event(st, fr, node, 'Sort', r, kf, kw.get('reverse', FALSE) if name == 'sort' else TRUE, self.apply_key(st, fr, node, kf),
                       *(('reversed',) if name == 'reverse' else ()))
            ct = self.content(st, r)
            if ct is not None:
                st.heap[(r, '#')] = ct if ct.op == 'perm' else mk('perm', ct.args[0] if ct.op == 'copy' else
                                                                  mk('lit', ct) if ct.op != 'mapseq' else mk('lit', ct))
                if ct.op == 'mapseq' and ct.args[1].op == 'elem' and ct.args[1].args[1] is ct.args[0] and ct.args[3] is TRUE:
                    st.heap[(r, '#')] = mk('perm', ct.args[1].args[0])
            self.drop_items(st, r)
            self.bump(st, r, 'perm')
            return [(NONE, st)]
        if name in ('keys', 'values', 'items') and not pos:
            if name == 'keys':
                return [(mk('keys', r), st)]
            return [(mk(name, r), st)]
        if name == 'get' and pos:
            kind = self.dict_kind(st, r)
            lit = self.contains(st, a, r)
            dflt = pos[1] if len(pos) > 1 else kw.get('default', NONE)
            out = []
            for b, s in self.branch(st, lit):
                if b:
                    self.event(s, fr, node, 'Get', r, a)
                out.append((self.index(s, r, a) if b else dflt, s))
            return out
        if name == 'setdefault' and pos:
            lit = self.contains(st, a, r)
            dflt = pos[1] if len(pos) > 1 else NONE
            out = []
            for b, s in self.branch(st, lit):
                if b:
                    out.append((self.index(s, r, a), s))
                else:
                    self.set_item(s, fr, node, r, a, dflt)
                    out.append((dflt, s))
            return out
        if name == 'copy' and not pos:
            return [(self.obj(st, 'list' if r.op == 'obj' and r.args[1] == 'list' else 'dict', mk('copy', r)), st)]
        if name in ('index', 'count') and pos:
            t = mk('mcall', r, name, *(tuple(pos) + (self.version(st, r),)))
            self.event(st, fr, node, 'Find', r, name, a)
            if name == 'index' and self.catches('ValueError'):
                s2 = st.fork()
                s2.exit = ('raise', mk('exc', 'ValueError'))
                return [(t, st), (None, s2)]
            return [(t, st)]
        if r.op == 'file' or r.op == 'filelike':
            self.event(st, fr, node, 'File', r, name, tuple(pos))
            self.uid += 1
            return [(mk('mcall', r, name, *(tuple(pos) + (mk('n', self.uid, *self.iotas),))), st)]
        if name == '__init__':
            return [(NONE, st)]
        self.event(st, fr, node, 'MCall', r, name, tuple(pos) + tuple(v for k, v in sorted(kw.items())))
        return [(mk('mcall', r, name, *(tuple(pos) + tuple(v for k, v in sorted(kw.items())))), st)]

    def drop_items(self, st, c):
        for h in [h for h in st.heap if len(h) == 3 and h[0] is c and h[1] == 'item']:
            del st.heap[h]

    def observer_call(self, st, fr, node, r, name, pos):
        self.event(st, fr, node, 'Attr', r, name)
        f = self.observer_member(name)
        if f is not None and f.is_property:
            self.event(st, fr, node, 'NotCallable', r, name)
        elif f is not None:
            ps = f.node.args.args
            if not f.is_static and (len(pos) > len(ps) - 1 or len(pos) < len(ps) - 1 - len(f.node.args.defaults)):
                self.event(st, fr, node, 'Arity', name, '%d arguments' % len(pos))
        return [(mk('mcall', r, name, *pos), st)]

    # ------------------------------------------------------------ statements
    def ex_block(self, stmts, st, fr):
        states = [st]
        for n in stmts:
            nxt = []
            for s in states:
                if s.exit:
                    nxt.append(s)
                else:
                    nxt.extend(self.ex(n, s, fr))
            states = nxt
            if len(states) > 1 and isinstance(n, (ast.If, ast.Try, ast.With, ast.Assign, ast.AugAssign, ast.Expr)):
                states = [s for _, s in coalesce([(None, s) for s in states])]
            live = [s for s in states if not s.exit]
            if len(live) > MAXPATHS:
                self.note(fr, n, 'path budget exceeded: %d paths merged' % len(live))
                base = common_facts(live)
                m = merge_states(self, live, base, 'paths', env=True)
                states = [s for s in states if s.exit] + [m]
            if not any(s.exit is None for s in states):
                break
        return states

    def ex(self, n, st, fr):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.note(fr, n, 'unsupported statement ' + type(n).__name__)
            return [st]
        return m(n, st, fr)

    def s_Expr(self, n, st, fr):
        body = getattr(getattr(fr.func, 'node', None), 'body', None)
        if isinstance(body, list) and body and body[-1] is n:
            fr.tail = n.value
        return [s for _, s in self.ev(n.value, st, fr)]

    def s_Pass(self, n, st, fr):
        return [st]

    def s_Import(self, n, st, fr):
        for a in n.names:
            nm = a.asname or a.name.split('.')[0]
            full = a.name if a.asname else a.name.split('.')[0]
            st.env[nm] = mk('module', full) if full in self.prog.mods else mk('ext', full)
        return [st]

    def s_ImportFrom(self, n, st, fr):
        for a in n.names:
            base = n.module or ''
            if a.name == '*':
                continue
            v = None
            if base in self.prog.mods:
                r = self.prog.lookup(self.prog.mods[base], a.name)
                v = self.name_value(r, self.prog.mods[base], a.name) if r is not None else None
            st.env[a.asname or a.name] = v if v is not None else self.ext_const(base + '.' + a.name)
        return [st]

    def s_Global(self, n, st, fr):
        return [st]

    s_Nonlocal = s_Global

    def s_Assert(self, n, st, fr):
        out = []
        for b, s in self.cond(n.test, st, fr):
            if s.exit is None and b is False:
                s.exit = ('raise', mk('exc', 'AssertionError'))
            out.append(s)
        return out

    def s_Delete(self, n, st, fr):
        out = [st]
        for t in n.targets:
            nxt = []
            for s in out:
                if s.exit:
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    if isinstance(t.slice, ast.Slice):
                        for v, s2 in self.ev(t.value, s, fr):
                            if not s2.exit:
                                ends = []
                                for x in (t.slice.lower, t.slice.upper, t.slice.step):
                                    r = self.ev(x, s2, fr) if x is not None else [(NONE, s2)]
                                    if len(r) == 1 and not r[0][1].exit:
                                        ends.append(r[0][0])
                                        s2 = r[0][1]
                                    else:
                                        ends.append(self.fresh('end'))
                                self.event(s2, fr, n, 'DelSlice', v, *ends)
                                if (v, '#') in s2.heap:
                                    s2.heap[(v, '#')] = self.fresh('dels')
                                self.drop_items(s2, v)
                                self.bump(s2, v, 'delslice')
                            nxt.append(s2)
                        continue
                    for vs, s2 in self.ev_list([t.value, t.slice], s, fr):
                        if not s2.exit:
                            v = self.index(s2, vs[0], vs[1])
                            self.event(s2, fr, n, 'Pop', vs[0], vs[1], v, mk('nodefault'))
                            ct = self.content(s2, vs[0])
                            if ct is not None:
                                s2.heap[(vs[0], '#')] = mk('popped', ct, vs[1])
                            self.drop_items(s2, vs[0])
                            self.bump(s2, vs[0], 'pop', vs[1])
                        nxt.append(s2)
                elif isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                    nxt.append(s)
                else:
                    nxt.append(s)
            out = nxt
        return out

    def s_FunctionDef(self, n, st, fr):
        self.uid += 1
        k = mk('lambda', self.uid)
        self.tab[k] = (n, dict(st.env), fr)
        st.env[n.name] = k
        return [st]

    def s_ClassDef(self, n, st, fr):
        st.env[n.name] = self.fresh('localclass')
        return [st]

    def s_Return(self, n, st, fr):
        out = []
        if n.value is None:
            st.exit = ('return', NONE)
            return [st]
        fr.tail = n.value
        for v, s in self.ev(n.value, st, fr):
            if not s.exit:
                s.exit = ('return', v)
                self.event(s, fr, n, 'Return', v)
            out.append(s)
        return out

    def s_Raise(self, n, st, fr):
        out = []
        if n.exc is None:
            st.exit = ('raise', mk('exc', '?'))
            return [st]
        for v, s in self.ev(n.exc, st, fr):
            if not s.exit:
                if v.op == 'builtin':
                    v = mk('exc', v.args[0])
                if v.op != 'exc':
                    v = mk('exc', '?')
                self.event(s, fr, n, 'Raise', v)
                s.exit = ('raise', v)
            out.append(s)
        return out

    def s_Break(self, n, st, fr):
        st.exit = ('break',)
        return [st]

    def s_Continue(self, n, st, fr):
        st.exit = ('continue',)
        return [st]

    def s_Assign(self, n, st, fr):
        out = []
        # pairwise tuple assignment keeps precise values
        for v, s in self.ev(n.value, st, fr):
            if s.exit:
                out.append(s)
                continue
            ss = [s]
            for t in n.targets:
                nxt = []
                for x in ss:
                    nxt.extend(self.assign(x, fr, t, v) if not x.exit else [x])
                ss = nxt
            out.extend(ss)
        return out

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [st]
        out = []
        for v, s in self.ev(n.value, st, fr):
            out.extend(self.assign(s, fr, n.target, v) if not s.exit else [s])
        return out

    def assign(self, st, fr, t, v):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = None
            if v.op == 'tuple' and len(v.args) == len(t.elts):
                vals = list(v.args)
            elif v.op == 'obj' and self.content(st, v) is not None and self.content(st, v).op == 'seq' and \
                    len(self.content(st, v).args) == len(t.elts):
                vals = list(self.content(st, v).args)
            else:
                vals = [self.index(st, v, const(i)) for i in range(len(t.elts))]
            ss = [st]
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e, x = e.value, self.fresh('star')
                nxt = []
                for s in ss:
                    nxt.extend(self.assign(s, fr, e, x))
                ss = nxt
            return ss
        if isinstance(t, ast.Attribute):
            out = []
            for b, s in self.ev(t.value, st, fr):
                out.extend(self.set_attr(s, fr, t, b, t.attr, v) if not s.exit else [s])
            return out
        if isinstance(t, ast.Subscript):
            out = []
            if isinstance(t.slice, ast.Slice):
                for b, s in self.ev(t.value, st, fr):
                    if not s.exit:
                        full = t.slice.lower is None and t.slice.upper is None and t.slice.step is None
                        self.event(s, fr, t, 'SetSlice', b, v, TRUE if full else FALSE)
                        self.drop_items(s, b)
                        if (b, '#') in s.heap:
                            s.heap[(b, '#')] = self.content(s, v) if full and v.op == 'obj' and self.content(s, v) is not None \
                                else (mk('copy', v) if full else self.fresh('setslice'))
                        self.bump(s, b, 'setslice', v)
                    out.append(s)
                return out
            for vs, s in self.ev_list([t.value, t.slice], st, fr):
                if not s.exit:
                    self.set_item(s, fr, t, vs[0], vs[1], v)
                out.append(s)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(st, fr, t.value, v)
        self.note(fr, t, 'unsupported target')
        return [st]

    def s_AugAssign(self, n, st, fr):
        out = []
        t = n.target
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t)
            for vs, s in self.ev_list([load, n.value], st, fr):
                if s.exit:
                    out.append(s)
                    continue
                if isinstance(n.op, ast.Add) and vs[0].op == 'obj' and vs[0].args[1] in ('list',):
                    self.extend(s, fr, n, vs[0], vs[1])
                    out.append(s)
                    continue
                for v, s2 in self.binop(s, fr, n, n.op, vs[0], vs[1]):
                    if not s2.exit:
                        s2.env[t.id] = v
                    out.append(s2)
            return out
        if isinstance(t, ast.Attribute):
            for b, s in self.ev(t.value, st, fr):
                if s.exit:
                    out.append(s)
                    continue
                for o, s1 in self.getattr(s, fr, t, b, t.attr):
                    for v, s2 in (self.ev(n.value, s1, fr) if not s1.exit else [(None, s1)]):
                        if s2.exit:
                            out.append(s2)
                            continue
                        if isinstance(n.op, ast.Add) and self.is_seq(s2, o):
                            self.extend(s2, fr, n, o, v)
                            out.append(s2)
                            continue
                        for r, s3 in self.binop(s2, fr, n, n.op, o, v):
                            out.extend(self.set_attr(s3, fr, t, b, t.attr, r) if not s3.exit else [s3])
            return out
        if isinstance(t, ast.Subscript):
            for vs, s in self.ev_list([t.value, t.slice], st, fr):
                if s.exit:
                    out.append(s)
                    continue
                for o, s1 in self.read_index(s, fr, t, vs[0], vs[1]):
                    for v, s2 in (self.ev(n.value, s1, fr) if not s1.exit else [(None, s1)]):
                        if s2.exit:
                            out.append(s2)
                            continue
                        for r, s3 in self.binop(s2, fr, n, n.op, o, v):
                            if not s3.exit:
                                self.set_item(s3, fr, t, vs[0], vs[1], r)
                            out.append(s3)
            return out
        self.note(fr, n, 'unsupported augmented target')
        return [st]

    def s_If(self, n, st, fr):
        out = []
        for b, s in self.cond(n.test, st, fr):
            if s.exit:
                out.append(s)
            else:
                out.extend(self.ex_block(n.body if b else n.orelse, s, fr))
        return out

    def s_With(self, n, st, fr):
        states = [st]
        opened = []
        for it in n.items:
            nxt = []
            for s in states:
                if s.exit:
                    nxt.append(s)
                    continue
                for v, s2 in self.ev(it.context_expr, s, fr):
                    if not s2.exit:
                        self.event(s2, fr, n, 'Enter', v)
                        if it.optional_vars is not None:
                            nxt.extend(self.assign(s2, fr, it.optional_vars, v))
                            continue
                    nxt.append(s2)
            states = nxt
        out = []
        for s in states:
            if s.exit:
                out.append(s)
            else:
                out.extend(self.ex_block(n.body, s, fr))
        return out

    def s_Try(self, n, st, fr):
        names = []
        unmod = False
        for h in n.handlers:
            hs = exc_names(h.type)
            names.extend(hs)
            if any(x in ('*', 'Exception', 'BaseException') or x not in MODELLED for x in hs):
                unmod = True
        pre = st.fork()
        self.catch.append(names)
        try:
            outs = self.ex_block(n.body, st, fr)
        finally:
            self.catch.pop()
        res = []
        for s in outs:
            if s.exit and s.exit[0] == 'raise':
                e = s.exit[1].args[0] if s.exit[1] is not None else '?'
                handled = False
                for h in n.handlers:
                    if exc_match(e, exc_names(h.type)):
                        s.exit = None
                        if h.name:
                            s.env[h.name] = mk('exc', e)
                        res.extend(self.ex_block(h.body, s, fr))
                        handled = True
                        break
                if not handled:
                    res.append(s)
            elif s.exit is None and n.orelse:
                res.extend(self.ex_block(n.orelse, s, fr))
            else:
                res.append(s)
        if unmod:
            # some statement of the body raises something this analysis does not model
            for h in n.handlers:
                hs = exc_names(h.type)
                if any(x in ('*', 'Exception', 'BaseException') or x not in MODELLED for x in hs):
                    s = pre.fork()
                    for v in assigned(n.body):
                        s.env[v] = self.fresh('exc_' + v)
                    s.facts = s.facts + (mk('truth', mk('unmodelled_exception', self.loc(fr, n)), V0),)
                    if h.name:
                        s.env[h.name] = mk('exc', '?')
                    res.extend(self.ex_block(h.body, s, fr))
        if n.finalbody:
            fin = []
            for s in res:
                e = s.exit
                s.exit = None
                for s2 in self.ex_block(n.finalbody, s, fr):
                    if s2.exit is None:
                        s2.exit = e
                    fin.append(s2)
            res = fin
        return res

    # ------------------------------------------------------------ loops
    def s_For(self, n, st, fr):
        out = []
        for it, s in self.ev(n.iter, st, fr):
            if s.exit:
                out.append(s)
            else:
                out.extend(self.run_loop(n, s, fr, it))
        return out

    def s_While(self, n, st, fr):
        return self.run_loop(tested_first(n), st, fr, None)

    def small_literal(self, st, it):
        xs = self.lit_elems(st, it)
        if xs is None and it.op == 'obj' and False:
            return None
        return xs

    def run_loop(self, n, st, fr, it):
        is_for = it is not None
        # a literal collection of a few elements is iterated element by element
        if is_for:
            xs = self.lit_elems(st, it)
            if xs is not None and len(xs) <= 8:
                return self.unroll_literal(n, st, fr, xs)
        self.uid += 1
        lid = 'L%d.%s' % (getattr(n, 'lineno', 0), self.uid)
        L = Loop(lid, n, self.loc(fr, n))
        iota = mk('sym', 'i_' + lid, 'iter')
        L.iota = iota
        L.kind = 'for' if is_for else 'while'
        self.iota_bound.pop(iota, None)
        self.walked_seq.pop(iota, None)
        names = assigned([n])
        L.pre = st
        uid0 = self.uid
        nloops, nnotes = len(self.loops), len(self.notes)
        if is_for:
            L.seq = it
            sv = self.seqview(st, it)
            if sv.op == 'range':
                L.rng = sv.args
            L.seqlen = self.length(st, sv)
            self.iota_bound[iota] = L.seqlen
        havoc = set()
        grown = set(v for v in only_added([n]) if v in st.env and st.env[v].op == 'obj' and st.env[v].args[1] == 'list')
        for v in names:
            # a list extended in place stays the same list
            if v in st.env and v not in grown:
                havoc.add(('env', v))
        if is_for:
            for v in target_names(n.target):
                havoc.discard(('env', v))
        closed = {}
        rounds = 0
        while True:
            rounds += 1
            # names of objects, loops and unknowns are the same in every round
            self.uid = uid0
            del self.loops[nloops:], self.notes[nnotes:]
            head = self.loop_head(L, st, havoc, closed)
            bodies, exits = self.loop_once(n, head, fr, L, it)
            new = set()
            for s in bodies:
                if s.exit and s.exit[0] in ('return', 'raise'):
                    continue
                for k, v in s.heap.items():
                    if head.heap.get(k) is not v and not self.per_iteration(k, L, uid0):
                        new.add(('heap', k))
                for k in head.heap:
                    if k not in s.heap:
                        new.add(('heap', k))
                for k, v in s.ver.items():
                    if head.ver.get(k, V0) is not v and not self.per_iteration((k,), L, uid0):
                        new.add(('ver', k))
            # names bound by an earlier iteration only
            carried = set(v for v in self.read_unbound(bodies + list(exits)) if v in names and v not in st.env)
            if is_for:
                carried -= set(target_names(n.target))
            if carried and rounds < 8:
                st = st.fork()
                for v in sorted(carried):
                    st.env[v] = mk('unbound', v)
                    havoc.add(('env', v))
                L.pre = st
                continue
            if new <= havoc:
                # induction variables
                cand = {}
                if rounds < 8:
                    cand = self.induction(L, bodies, havoc, closed, head)
                if cand:
                    closed.update(cand)
                    continue
                if rounds < 8 and self.fractions(L, st, bodies, havoc, closed):
                    continue
                if not is_for and rounds < 8 and iota not in self.iota_bound and not n.orelse and self.walked(L):
                    continue
                break
            havoc |= new
            if rounds > 10:
                self.note(fr, n, 'loop fixpoint not reached')
                break
        L.closed = closed
        L.head_facts = head.facts
        base_facts = set(head.facts)
        L.head = head
        L.exits = exits
        L.inits = {k: self.get_key(st, k) for k in havoc}
        L.hav = {k: self.get_key(head, k) for k in havoc if k not in closed}
        L.bodies = []
        for s in bodies:
            b = Body(s, base_facts)
            L.bodies.append(b)
        if L.kind == 'while' and iota in self.iota_bound and iota in self.walked_seq:
            c = self.walked_seq[iota]
            L.seq, L.seqlen, L.elem = self.seqview(head, c), self.iota_bound[iota], self.elem(head, c, iota)
            L.copied = L.seq is not c
            is_for = len(exits) == 1 and not exits[0].exit
        self.loops.append(L)
        return self.after_loop(n, st, fr, L, havoc, closed, head, exits, is_for)

    def walked(self, L):
        """a loop that goes through a sequence with its own position is one over that sequence"""
        if len(L.conds) != 1 or len(L.conds[0]) != 1 or L.conds[0][0].op != 'ge0':
            return False
        b = add(add(L.conds[0][0].args[0], L.iota), const(1))
        if num_val(b) is not None or any(x.op in ('hav', 'unk') or x is L.iota for x in walk(b)):
            return False
        self.iota_bound[L.iota] = b
        return True

    def read_unbound(self, states):
        out = set()

        def scan(trace):
            for e in trace:
                if isinstance(e, Ev):
                    if e.kind == 'Unbound':
                        out.add(e.a[0])
                elif isinstance(e, Alt):
                    for f, t in e.paths:
                        scan(t)
                elif isinstance(e, LoopItem):
                    for b in e.loop.bodies:
                        scan(b.trace)
        for s in states:
            scan(s.items() if hasattr(s, 'items') else s.trace)
        return out

    def fractions(self, L, st, bodies, havoc, closed):
        """marks the accumulators that hold fractions; True when one is new"""
        found = False
        for k in havoc:
            if k in closed or k[0] == 'ver':
                continue
            h = mk('hav', L.lid, self.key_name(k))
            if h in FLOAT_TERMS:
                continue
            for v in [self.get_key(st, k)] + [self.get_key(b, k) for b in bodies]:
                if v is not None and v is not h and (v.op == 'poly' or v.op in ('hav', 'out', 'max', 'min')) and not int_like(v):
                    FLOAT_TERMS.add(h)
                    FLOAT_TERMS.add(mk('out', L.lid, self.key_name(k)))
                    found = True
                    break
        return found

    def per_iteration(self, key, L, uid0):
        """state of an object that belongs to one iteration (allocated in it or selected by it)"""
        for t in key:
            if not isinstance(t, T):
                continue
            for x in walk(t):
                if x is L.iota or x.op == 'slice':
                    return True
                if x.op == 'obj' and isinstance(x.args[0], int) and x.args[0] > uid0:
                    return True
                if x.op == 'unk' and int(re.sub(r'\D', '', x.args[0]) or 0) > uid0:
                    return True
                if x.op in ('hav', 'out') and x.args[0] == L.lid:
                    return True
                if x.op in ('sym', 'out', 'hav') and x.args and isinstance(x.args[0], str) and '.' in x.args[0] and \
                        re.search(r'L\d+\.(\d+)', x.args[0]) and int(re.search(r'L\d+\.(\d+)', x.args[0]).group(1)) > uid0:
                    return True
        return False

    def get_key(self, st, k):
        if k[0] == 'env':
            return st.env.get(k[1])
        if k[0] == 'heap':
            return st.heap.get(k[1])
        return st.ver.get(k[1], V0)

    def set_key(self, st, k, v):
        if k[0] == 'env':
            st.env[k[1]] = v
        elif k[0] == 'heap':
            st.heap[k[1]] = v
        else:
            st.ver[k[1]] = v

    def key_name(self, k):
        if k[0] == 'env':
            return k[1]
        if k[0] == 'heap':
            return (k[1][0],) + tuple(k[1][1:])
        return ('ver', k[1])

    def loop_head(self, L, st, havoc, closed):
        h = st.fork()
        h.trace = None
        h.exit = None
        for k in sorted(havoc, key=str):
            if k in closed:
                self.set_key(h, k, closed[k])
                continue
            if k[0] == 'heap' and len(k[1]) == 3 and k[1][1] == 'item':
                h.heap.pop(k[1], None)
                continue
            self.set_key(h, k, mk('hav', L.lid, self.key_name(k)))
        # facts about the havocked versions no longer describe the current container; they stay
        # valid because they name the old version
        h.facts = h.facts + (cmp_ge(L.iota),)
        return h

    def loop_once(self, n, head, fr, L, it):
        """(body end states, exit states)"""
        # unknowns made inside are different in every iteration
        self.iotas.append(L.iota)
        try:
            return self.loop_once_(n, head, fr, L, it)
        finally:
            self.iotas.pop()

    def loop_once_(self, n, head, fr, L, it):
        st = head.fork()
        exits = []
        if it is not None:
            sv = self.seqview(st, it)
            if sv.op == 'range':
                a, b, s = sv.args
                e = add(a, mul(s, L.iota))
                sg = num_val(s)
                if sg is not None and sg > 0:
                    ok = self.assume(st, cmp_gt(sub(b, e)))
                elif sg is not None and sg < 0:
                    ok = self.assume(st, cmp_gt(sub(e, b)))
                else:
                    ok = True
                L.elem = e
            else:
                e = self.elem(head0_view(st, it, L), it, L.iota)
                ok = self.assume(st, cmp_gt(sub(self.length_head(L, st, it), L.iota)))
                L.elem = e
                self.member_facts(st, it, e)
            if not ok:
                return [], []
            starts = self.assign(st, fr, n.target, e)
        else:
            starts = []
            L.conds = []
            for b, s in self.cond(n.test, st, fr):
                if s.exit:
                    exits.append(s)
                elif b:
                    starts.append(s)
                    L.conds.append([f for f in s.facts if f not in head.facts])
                    if L.iota in self.iota_bound and L.iota in self.walked_seq:
                        c = self.walked_seq[L.iota]
                        self.member_facts(s, c, self.elem(s, c, L.iota))
                else:
                    exits.append(s)
        outs = []
        for s in starts:
            outs.extend(self.ex_block(n.body, s, fr))
        for s in outs:
            if s.exit and s.exit[0] == 'continue':
                s.exit = None
        outs = [s for _, s in coalesce([(None, s) for s in outs])]
        return outs, exits

    def length_head(self, L, st, it):
        return L.seqlen

    def member_facts(self, st, it, e):
        b = it
        k = e
        if it.op == 'items' or it.op == 'enumerate' or it.op == 'zip':
            if e.op == 'tuple':
                if it.op == 'items':
                    b, k = it.args[0], e.args[0]
                elif it.op == 'enumerate':
                    return self.member_facts(st, it.args[0], e.args[1])
                else:
                    for x, y in zip(it.args, e.args):
                        self.member_facts(st, x, y)
                    return
        elif it.op == 'values':
            b = it.args[0]
            k = e.args[1] if e.op == 'index' else None
            if k is None:
                return
        base = self.strip(st, b)
        if base.op in ('sym', 'attr', 'index', 'obj', 'call', 'mcall'):
            f = mk('in', k, base, self.version(st, base))
            if f not in st.facts:
                st.facts = st.facts + (f,)

    def induction(self, L, bodies, havoc, closed, head):
        out = {}
        nexts = [s for s in bodies if s.exit is None]
        if not nexts:
            return out
        for k in havoc:
            if k in closed or k[0] == 'ver':
                continue
            hv = self.get_key(head, k)
            if hv is None or hv.op != 'hav':
                continue
            init = None
            d = None
            ok = True
            for s in nexts:
                v = self.get_key(s, k)
                if v is None:
                    ok = False
                    break
                dd = sub(v, hv) if numericish(v) else None
                if dd is None or any(x.op == 'hav' and x.args[0] == L.lid or x is L.iota or x.op in ('unk', 'rand', 'obj') or within(x, L.lid)
                                     for x in walk(dd)):
                    ok = False
                    break
                if any(x.op in ('elem', 'index') and mentions(x, L.iota) for x in walk(dd)):
                    ok = False
                    break
                if d is None:
                    d = dd
                elif d is not dd:
                    ok = False
                    break
            if ok and d is not None:
                out[k] = d
        # closed form: init + d * iota
        r = {}
        for k, d in out.items():
            init = self.get_key(L.pre, k)
            if init is None or not numericish(init) or init.op in ('unbound',):
                continue
            r[k] = add(init, mul(d, L.iota))
        # doubling: init * 2^(e * iota)
        for k in havoc:
            if k in closed or k in r or k[0] == 'ver':
                continue
            hv = self.get_key(head, k)
            init = self.get_key(L.pre, k)
            if hv is None or hv.op != 'hav' or init is None or not numericish(init):
                continue
            vs = [self.get_key(s, k) for s in nexts]
            if any(v is None or not numericish(v) or v.op == 'hav' for v in vs):
                continue
            for e in (1, 2, 3):
                if all(v is scale(hv, 1 << e) for v in vs):
                    r[k] = mul(init, pow2(scale(L.iota, e)))
        return r

    def after_loop(self, n, st, fr, L, havoc, closed, head, exits, is_for):
        outs = []
        nexts = [b for b in L.bodies if b.kind == 'next']
        breaks = [b for b in L.bodies if b.kind == 'break']
        leaves = [b for b in L.bodies if b.kind in ('return', 'raise')]
        N = mk('sym', 'n_' + L.lid, 'iter')
        L.N = N
        cnt = N
        if is_for:
            if not breaks:
                cnt = L.seqlen
            else:
                cnt = L.seqlen
        elif not breaks and len(exits) == 1 and not exits[0].exit:
            # while iota < R: R steps
            new = [f for f in exits[0].facts if f not in head.facts]
            if len(new) == 1 and new[0].op == 'ge0':
                p = pd(new[0].args[0])
                me = ((L.iota, 1),)
                if p.get(me) == 1:
                    del p[me]
                    R = neg(poly(p))
                    if not any(x is L.iota or (x.op in ('hav', 'rand', 'unk', 'obj') and (x.op != 'hav' or x.args[0] == L.lid)) for x in walk(R)) \
                            and int_like(R):
                        cnt = R if num.entails_ge(st.facts, R) else tmax(const(0), R)
        L.count = cnt

        def post_value(k):
            """value of a havocked key when the loop is exhausted"""
            if k in closed:
                return subst(closed[k], {L.iota: cnt})
            if k[0] == 'heap' and len(k[1]) == 3 and k[1][1] == 'item':
                return None
            hv = self.get_key(head, k)
            init = self.get_key(st, k)
            vals = [self.get_key(b.state, k) for b in nexts]
            if all(v is hv for v in vals):
                return init
            if k[0] == 'heap' and k[1][1] == '#':
                m = self.list_summary(L, k, hv, init, nexts, head, bool(breaks))
                if m is not None:
                    return m
            # assignment of a loop-invariant value on every path
            return mk('out', L.lid, self.key_name(k))

        def finish(s, exhausted, body=None):
            s.trace = st.trace
            s.push(LoopItem(L, body))
            return s

        # exhausted
        ex_states = []
        if is_for:
            s = st.fork()
            for k in sorted(havoc, key=str):
                v = post_value(k)
                if v is None:
                    if k[0] == 'heap':
                        s.heap.pop(k[1], None)
                    continue
                self.set_key(s, k, v)
            for b in nexts:
                for v, val in b.state.env.items():
                    if v not in s.env and not v.startswith('<'):
                        s.env[v] = mk('out', L.lid, v)
            for v in target_names(n.target) if hasattr(n, 'target') else ():
                if not getattr(n, '_comp', False):
                    s.env[v] = mk('out', L.lid, v)
            self.forall_facts(s, L, nexts, breaks + leaves)
            ex_states.append(s)
        else:
            sub_m = {L.iota: cnt}
            top = [] if cnt is not N or not nexts else self.round_bounds(st, L, nexts, N)
            for e in exits:
                s = st.fork()
                if e.exit:
                    s.exit = e.exit
                s.facts = s.facts + tuple(f for f in top if f not in s.facts)
                for k in sorted(havoc, key=str):
                    v = post_value(k)
                    if v is None:
                        if k[0] == 'heap':
                            s.heap.pop(k[1], None)
                        continue
                    self.set_key(s, k, v)
                for b in nexts:
                    for v, val in b.state.env.items():
                        if v not in s.env and not v.startswith('<'):
                            s.env[v] = mk('out', L.lid, v)
                # the negated condition holds of the final values
                m = {L.iota: cnt}
                for k in havoc:
                    hv = self.get_key(head, k)
                    if hv is not None and hv.op == 'hav' and k not in closed:
                        pv = self.get_key(s, k)
                        if pv is not None:
                            m[hv] = pv
                ok = True
                for f in e.facts:
                    if f in st.facts:
                        continue
                    g = subst(f, m)
                    if not self.assume(s, g):
                        ok = False
                        break
                if ok:
                    # events of evaluating the condition are kept once, in the loop
                    ex_states.append(s)
        if n.orelse and ex_states:
            o2 = []
            for s in ex_states:
                f = finish(s, True)
                o2.extend(self.ex_block(n.orelse, f, fr) if not f.exit else [f])
            outs.extend(o2)
        else:
            outs.extend(finish(s, True) for s in ex_states)
        # left by break / return / raise
        for b in breaks + leaves:
            s = b.state.fork()
            s.exit = None if b.kind == 'break' else b.exit
            s.trace = st.trace
            s.push(LoopItem(L, b))
            outs.append(s)
        if len(breaks) > 6:
            br = [s for s in outs if s.exit is None and isinstance(s.trace[1], LoopItem) and s.trace[1].body is not None]
            oth = [s for s in outs if s not in br]
            m = merge_states(self, br, common_facts(br), 'breaks', env=True, keep=st.trace)
            outs = oth + [m]
        return outs

    def round_bounds(self, st, L, nexts, N):
        """what every round needed of its index, on the number of rounds"""
        out = []
        common = [f for f in nexts[0].facts if f.op == 'ge0' and all(f in b.facts for b in nexts[1:])]
        for f in common:
            p = pd(f.args[0])
            me = ((L.iota, 1),)
            if p.get(me) != -1:
                continue
            del p[me]
            c = add(poly(p), const(1))
            if any(x is L.iota or x.op in ('rand', 'unk') or (x.op == 'hav' and x.args[0] == L.lid) for x in walk(c)):
                continue
            if num.entails_ge(st.facts, c):
                g = cmp_ge(sub(c, N))
                if g not in (TRUE, FALSE):
                    out.append(g)
        return out

    def forall_facts(self, s, L, nexts, others):
        """a search loop that ran to the end: every element takes a `next` path"""
        if not others or L.seq is None or L.elem is None:
            return
        lits = None
        base = self.strip(s, L.seq)
        tested = set(f.args[0] for b in others for f in b.facts if f.op == 'not' and f.args[0].op == 'in')
        for b in nexts:
            fs = frozenset(f for f in b.facts if mentions(f, L.iota) and (f.op != 'in' or f.args[1] is not base and f in tested) and
                           f is not cmp_gt(sub(L.seqlen, L.iota)) and f is not cmp_ge(L.iota))
            lits = fs if lits is None else lits & fs
        if not lits:
            return
        for f in lits:
            p = subst(neg_lit(f), {L.elem: BOUND})
            if not mentions(p, L.iota):
                g = neg_lit(self.exists(s, base, p))
                if g not in s.facts:
                    s.facts = s.facts + (g,)

    def list_summary(self, L, k, hv, init, nexts, head, has_break):
        """content of a list built by appending in the loop"""
        o = k[1][0]
        if init is None:
            return None
        elts = set()
        conds = []
        full = TRUE
        any_no = False
        for b in nexts:
            v = self.get_key(b.state, k)
            if v is hv:
                any_no = True
                continue
            if v is not None and v.op == 'cat' and v.args[0] is hv and len(v.args) == 2 and v.args[1].op == 'seq' and \
                    len(v.args[1].args) == 1:
                elts.add(v.args[1].args[0])
                conds.append([f for f in b.facts if f.op != 'in' or not mentions(f, L.iota)])
            else:
                return None
        if len(elts) != 1 or has_break:
            return None
        elt = next(iter(elts))
        if any(x.op == 'hav' and x.args[0] == L.lid for x in walk(elt)):
            return None
        filt = TRUE
        if any_no:
            cs = None
            for c in conds:
                fs = frozenset(f for f in c if not (f is cmp_gt(sub(L.seqlen, L.iota)) if L.kind == 'for' else False)
                               and f is not cmp_ge(L.iota))
                cs = fs if cs is None else cs & fs
            filt = mk('and_', *sorted(cs or (), key=lambda t: t.key)) if cs else mk('unk', 'filter')
            if filt.op == 'and_' and len(filt.args) == 1:
                filt = filt.args[0]
        n = L.seqlen if L.kind == 'for' else mk('sym', 'n_' + L.lid, 'iter')
        inner = TRUE if elt.op != 'obj' else FALSE
        m = mk('mapseq', L.iota, elt, n, filt, inner, L.seq if L.seq is not None else NONE)
        if init.op == 'seq' and not init.args:
            return m
        if init.op == 'cat':
            return mk('cat', *(init.args + (m,)))
        return mk('cat', init, m)

    def unroll_literal(self, n, st, fr, xs):
        """for x in (a, b, c): a literal collection is a finite disjunction of its elements"""
        states = [st]
        done = []
        for x in xs:
            nxt = []
            for s in states:
                for s1 in self.assign(s, fr, n.target, x):
                    for s2 in self.ex_block(n.body, s1, fr):
                        if s2.exit and s2.exit[0] == 'break':
                            s2.exit = None
                            done.append(s2)
                        elif s2.exit and s2.exit[0] == 'continue':
                            s2.exit = None
                            nxt.append(s2)
                        elif s2.exit:
                            done.append(s2)
                        else:
                            nxt.append(s2)
            states = [s for _, s in coalesce([(None, s) for s in nxt])]
        if n.orelse:
            o = []
            for s in states:
                o.extend(self.ex_block(n.orelse, s, fr))
            states = o
        return states + done

    # ------------------------------------------------------------ entry
    def run(self, fi, selfcls=None, args=None, selfterm=None, pre=None, facts=()):
        """analyse a function from its parameters; returns final states"""
        st = State()
        for f in facts:
            self.assume(st, f)
        if pre:
            pre(st)
        names = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs]
        selft = None
        for i, a in enumerate(names):
            if args and a in args:
                st.env[a] = args[a]
            else:
                st.env[a] = mk('sym', a)
            if i == 0 and fi.cls is not None and not fi.is_static:
                selft = selfterm or mk('sym', a)
                st.env[a] = selft
                self.types.setdefault(selft, selfcls or fi.cls)
        if fi.node.args.vararg:
            st.env[fi.node.args.vararg.arg] = mk('sym', fi.node.args.vararg.arg)
        if fi.node.args.kwarg:
            st.env[fi.node.args.kwarg.arg] = mk('sym', fi.node.args.kwarg.arg)
        fr = Frame(fi, fi.mod, selfcls or fi.cls, selft, 0)
        fi.node._fi = fi
        self.visited.add((fi.mod.rel, fi.qual))
        self.stack.append(fi.node)
        if is_generator(fi.node):
            y = self.obj(st, 'gen', mk('seq'))
            st.env['<yield>'] = y
        try:
            outs = self.ex_block(fi.node.body, st, fr)
        finally:
            self.stack.pop()
        for s in outs:
            if s.exit is None:
                s.exit = ('return', NONE)
            if '<yield>' in s.env and s.exit[0] == 'return':
                s.exit = ('return', s.env['<yield>'])
        return outs


def head0_view(st, it, L):
    return st


# ------------------------------------------------------------------ helpers

class CompAdd(ast.stmt):
    _fields = ('elts',)

    def __init__(self, obj, elts, mode):
        super(CompAdd, self).__init__()
        self.obj, self.elts, self.mode = obj, elts, mode
        self.lineno = getattr(elts[0], 'lineno', 0)
        self.col_offset = 0


def fix_loc(n, ref):
    for x in ast.walk(n):
        if not hasattr(x, 'lineno'):
            x.lineno = getattr(ref, 'lineno', 0)
            x.col_offset = 0


def comp_targets(n):
    out = set()
    for g in n.generators:
        out |= target_names(g.target)
    return out


def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def only_added(stmts):
    """names bound by nothing else than +="""
    added, other = set(), set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name):
                added.add(n.target)
    names = set(t.id for t in added)
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n not in added:
                other.add(n.id)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                other |= set(n.names)
    return names - other


def assigned(stmts):
    """names bound by statements (not descending into nested scopes)"""
    out = set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, ast.Global):
            pass
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in stmts:
        visit(s)
    return out


def is_generator(fn):
    if isinstance(fn, ast.Lambda):
        return False
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def exc_names(t):
    if t is None:
        return ['*']
    if isinstance(t, ast.Tuple):
        return [x for e in t.elts for x in exc_names(e)]
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, ast.Attribute):
        return [t.attr]
    return ['*']


MODELLED = {'KeyError', 'IndexError', 'LookupError', 'ZeroDivisionError', 'ArithmeticError'}
PARENTS = {'KeyError': ('LookupError',), 'IndexError': ('LookupError',), 'ZeroDivisionError': ('ArithmeticError',),
           'SystemExit': (), 'ValueError': ()}


def exc_match(e, names):
    if '*' in names or 'BaseException' in names:
        return True
    if e in names:
        return True
    if e == 'SystemExit':
        return False
    if 'Exception' in names:
        return True
    if e == '?':
        return False
    # an index failure may be either kind: containers are not typed
    if e in ('KeyError', 'IndexError') and ({'KeyError', 'IndexError', 'LookupError'} & set(names)):
        return True
    return any(p in names for p in PARENTS.get(e, ()))


def common_facts(states):
    base = states[0].facts
    sets = [set(s.facts) for s in states[1:]]
    return tuple(f for f in base if all(f in x for x in sets))


def trace_sig(st):
    t = st.trace
    out = []
    while t is not None:
        out.append(t[1].sig())
        t = t[0]
    return tuple(out)


def coalesce(pairs):
    """merge paths that differ only in one complementary literal; recognise the
    two-branch counter increment"""
    changed = True
    while changed and len(pairs) > 1:
        changed = False
        for i in range(len(pairs)):
            for j in range(i + 1, len(pairs)):
                m = try_merge(pairs[i], pairs[j])
                if m is not None:
                    pairs = pairs[:i] + [m] + pairs[i + 1:j] + pairs[j + 1:]
                    changed = True
                    break
            if changed:
                break
    return pairs


def try_merge(p, q):
    (v1, a), (v2, b) = p, q
    if v1 is not v2 or a.exit != b.exit:
        return None
    fa, fb = set(a.facts), set(b.facts)
    da, db = fa - fb, fb - fa
    if len(da) != 1 or len(db) != 1:
        # facts added after a store on both sides may differ in version only
        inc = try_inc(a, b, da, db)
        return (v1, inc) if inc is not None else None
    la, lb = next(iter(da)), next(iter(db))
    if neg_lit(la) is not lb:
        inc = try_inc(a, b, da, db)
        return (v1, inc) if inc is not None else None
    if a.env == b.env and a.heap == b.heap and a.ver == b.ver and (a.trace is b.trace or trace_sig(a) == trace_sig(b)):
        a.facts = tuple(f for f in a.facts if f is not la)
        return (v1, a)
    inc = try_inc(a, b, da, db)
    return (v1, inc) if inc is not None else None


def try_inc(a, b, da, db):
    """{k in d: d[k] = d[k] + n} / {k not in d: d[k] = n}  ->  Inc(d, k, n)"""
    for x, y in ((a, b), (b, a)):
        if x.trace is None or y.trace is None:
            return None
        ex, ey = x.trace[1], y.trace[1]
        if not (isinstance(ex, Ev) and isinstance(ey, Ev) and ex.kind == 'SetItem' and ey.kind == 'SetItem'):
            return None
        if ex.a[0] is not ey.a[0] or ex.a[1] is not ey.a[1]:
            return None
        d, k = ex.a[0], ex.a[1]
        # x: key present
        lits = [f for f in x.facts if f.op == 'in' and f.args[0] is k and f.args[1] is d]
        ny = [f for f in y.facts if f.op == 'not' and f.args[0].op == 'in' and f.args[0].args[0] is k and
              f.args[0].args[1] is d]
        hit = [f for f in ny if f.args[0] in lits]
        if not hit:
            continue
        base = hit[0].args[0]
        cur = mk('index', d, k, base.args[2])
        amt = ey.a[2]
        if not numericish(ex.a[2]) or sub(ex.a[2], cur) is not amt:
            continue
        # identical otherwise
        def rest(s):
            t = s.trace[0]
            out = []
            while t is not None:
                it = t[1]
                if not (isinstance(it, Ev) and it.kind in ('Index', 'Get') and it.a[0] is d and it.a[1] is k):
                    out.append(it.sig())
                t = t[0]
            return out
        if rest(x) != rest(y):
            continue
        if x.env != y.env:
            continue
        hx = {h: v for h, v in x.heap.items() if h != (d, 'item', k) and h != (d, '#')}
        hy = {h: v for h, v in y.heap.items() if h != (d, 'item', k) and h != (d, '#')}
        if hx != hy:
            continue
        extra = [f for f in (set(x.facts) ^ set(y.facts)) if f is not base and f is not hit[0]]
        if any(not (f.op == 'in' and f.args[0] is k and f.args[1] is d) for f in extra):
            continue
        x.facts = tuple(f for f in x.facts if f is not base)
        x.trace = (strip_reads(x.trace[0], d, k), Ev('Inc', (d, k, amt), ex.loc, x.facts, ex.node))
        x.heap.pop((d, 'item', k), None)
        if (d, '#') in x.heap:
            x.heap[(d, '#')] = mk('inc', y.heap.get((d, '#'), NONE), k)
        x.ver[d] = mk('mut', base.args[2], 'inc', k, amt)
        x.facts = tuple(f for f in x.facts if not (f.op == 'in' and f.args[0] is k and f.args[1] is d and
                                                   f.args[2] is not base.args[2])) + (mk('in', k, d, x.ver[d]),)
        return x
    return None


def strip_reads(t, d, k):
    if t is None:
        return None
    it = t[1]
    if isinstance(it, Ev) and it.kind in ('Index', 'Get') and it.a[0] is d and it.a[1] is k:
        return strip_reads(t[0], d, k)
    return t


def merge_states(eng, states, base_facts, name, env=False, keep=None):
    if len(states) == 1:
        return states[0]
    m = states[0].fork()
    eng.uid += 1
    u = eng.uid
    cf = common_facts(states)
    base = set(base_facts)
    paths = []
    stop = keep
    for s in states:
        paths.append(([f for f in s.facts if f not in base], s.items(stop)))
    m.facts = cf
    keys = set()
    for s in states:
        keys |= set(s.heap)
    for k in keys:
        vs = [s.heap.get(k) for s in states]
        if any(v is not vs[0] for v in vs):
            if any(v is None for v in vs):
                if len(k) == 3 or True:
                    m.heap.pop(k, None)
                    if len(k) == 2 and k[1] != '#':
                        m.heap[k] = mk('phi', u, str(k[1]), *[v for v in vs if v is not None])
            else:
                m.heap[k] = mk('phi', u, str(k[1]), *vs) if k[1] != 'item' else mk('phi', u, 'item', k[2], *vs)
    vk = set()
    for s in states:
        vk |= set(s.ver)
    for k in vk:
        vs = [s.ver.get(k, V0) for s in states]
        if any(v is not vs[0] for v in vs):
            m.ver[k] = mk('vphi', u, *vs)
    if env:
        ek = set()
        for s in states:
            ek |= set(s.env)
        for k in ek:
            vs = [s.env.get(k) for s in states]
            if any(v is not vs[0] for v in vs):
                if any(v is None for v in vs):
                    m.env[k] = mk('phi', u, k, *[v for v in vs if v is not None])
                else:
                    m.env[k] = mk('phi', u, k, *vs)
    m.trace = keep
    m.push(Alt(paths, name))
    return m


BUILTINS = {'len', 'range', 'min', 'max', 'int', 'float', 'str', 'list', 'tuple', 'dict', 'set', 'frozenset', 'sorted',
            'reversed', 'enumerate', 'zip', 'any', 'all', 'sum', 'map', 'filter', 'isinstance', 'getattr', 'setattr',
            'hasattr', 'repr', 'hex', 'bin', 'ord', 'chr', 'type', 'id', 'hash', 'format', 'callable', 'iter', 'next',
            'print', 'open', 'exit', 'quit', 'abs', 'round', 'bool', 'pow', 'divmod', 'bytes', 'bytearray', 'super',
            'object', 'property', 'staticmethod', 'classmethod', 'input', 'issubclass', 'vars', 'dir', 'globals',
            'locals', 'slice', 'memoryview', 'complex', 'oct', 'delattr', 'NotImplemented', '__import__'}
EXC_NAMES = {'Exception', 'BaseException', 'RuntimeError', 'ValueError', 'KeyError', 'IndexError', 'TypeError',
             'AttributeError', 'NotImplementedError', 'ZeroDivisionError', 'AssertionError', 'IOError', 'OSError',
             'LookupError', 'ArithmeticError', 'StopIteration', 'UnboundLocalError', 'NameError', 'OverflowError',
             'FileNotFoundError', 'UnicodeDecodeError', 'EOFError', 'ImportError', 'SystemExit', 'KeyboardInterrupt',
             'ModuleNotFoundError', 'PermissionError', 'RecursionError', 'DeprecationWarning', 'Warning', 'UserWarning'}
BUILTINS |= EXC_NAMES
CONTAINER_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'keys', 'values',
                     'items', 'get', 'setdefault', 'update', 'index', 'count', 'copy', 'add', 'discard', 'popitem',
                     'appendleft', 'popleft', 'split', 'strip', 'rstrip', 'lstrip', 'startswith', 'endswith', 'lower',
                     'upper', 'join', 'format', 'replace', 'read', 'write', 'close', 'readlines', 'readline', 'flush',
                     'encode', 'decode', 'to_bytes', 'bit_length', 'splitlines', 'partition', 'match', 'find',
                     'isdigit', 'zfill', 'rsplit', 'union', 'intersection', 'difference', 'issubset', 'hex'}
STR_METHODS = {'split', 'strip', 'rstrip', 'lstrip', 'startswith', 'endswith', 'lower', 'upper', 'join', 'format',
               'replace', 'encode', 'decode', 'to_bytes', 'bit_length', 'splitlines', 'partition', 'find',
               'isdigit', 'zfill', 'rsplit'}
PURE_EXT = {'struct.pack', 'struct.unpack', 'struct.calcsize', 'os.path.join', 'os.path.dirname', 'os.path.realpath',
            'numpy.zeros', 'json.load', 'itertools.product'}
EXT_CONST = {'sys.maxsize': 2 ** 63 - 1,
             'capstone.arm_const.ARM_OP_REG': 1, 'capstone.arm_const.ARM_OP_IMM': 2}
