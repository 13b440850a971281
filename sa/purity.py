"""What functions may change of what they are given: an alias and effect analysis over the syntax trees.

A value is a set of aliases (root, depth, fresh): the object reached from the root by `depth` steps (elements, attributes); levels below
`fresh` are copies made here.  A change to an object with depth >= fresh is a change of the root.
Roots: ('param', name), ('self', attribute), ('class', class, attribute), ('module', module, name), ('default', parameter)."""
import ast

CHANGERS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard', 'appendleft', 'popleft',
            '__setitem__', '__delitem__', 'intersection_update', 'difference_update', 'extendleft', 'rotate', 'add_node', 'add_nodes', 'add_edge', 'del_edge', 'del_node', 'move_to_end'}
COPIES = {'list', 'set', 'tuple', 'dict', 'sorted', 'reversed', 'iter', 'frozenset', 'filter', 'copy', 'OrderedDict', 'deque', 'defaultdict', 'values', 'fromkeys', 'cycle', 'chain', 'islice', 'union'}
PAIRS = {'items', 'enumerate', 'zip', 'zip_longest', 'product', 'combinations', 'permutations', 'batched', 'groupby', 'pairwise'}
ELEMS = {'get', 'pop', 'setdefault', 'min', 'max', 'next', 'popleft', 'heappop', 'choice', 'popitem', 'getattr', 'reduce'}
FIRST = {'shuffle', 'heappush', 'heapify', 'heappop', 'insort', 'insort_left', 'insort_right', 'heapreplace', 'heappushpop', 'setattr', 'delattr'}
EMPTY = frozenset()
CAP = 5


def elem(v):
    return frozenset((r, d + 1, b) for r, d, b in v if d < CAP)


def copied(v):
    return frozenset((r, d, max(b, d + 1)) for r, d, b in v)


def held(v):
    """a new container with v in it"""
    return frozenset((r, d - 1, max(b, d)) for r, d, b in v if d > -CAP)


def pairs(v):
    return frozenset((r, d - 1, max(b, d + 1)) for r, d, b in v)


class Sum(object):
    """what a function changes: {(root, depth): {(kind, line)}}, and what it returns"""
    def __init__(self):
        self.muts, self.ret, self.holds = {}, EMPTY, {}

    def key(self):
        return ({k: len(v) for k, v in self.muts.items()}, self.ret, dict(self.holds))


class Purity(object):
    def __init__(self, prog):
        self.prog = prog
        self.funcs = []
        self.byname, self.subs = {}, {}
        for mn in sorted(prog.mods):
            m = prog.mods[mn]
            self.funcs += list(m.funcs.values())
            for c in m.classes.values():
                self.funcs += list(c.methods.values()) + list(c.setters.values())
                for f in c.methods.values():
                    self.byname.setdefault(f.name, []).append(f)
                for b in c.mro()[1:]:
                    self.subs.setdefault(b, []).append(c)
        self.sums = {f: Sum() for f in self.funcs}
        for _ in range(6):
            before = {f: s.key() for f, s in self.sums.items()}
            for f in self.funcs:
                Walk(self, f).go()
            if all(self.sums[f].key() == before[f] for f in self.funcs):
                break

    def resolve(self, m, name):
        """a name of a module: a function, a class or None"""
        for _ in range(6):
            if name in m.funcs:
                return m.funcs[name]
            if name in m.classes:
                return m.classes[name]
            imp = m.imports.get(name)
            if not imp:
                for s in m.stars:
                    t = self.prog.mods.get(s)
                    if t is not None and (name in t.funcs or name in t.classes):
                        m = t
                        break
                else:
                    return None
                continue
            if imp[0] == 'from' and imp[1] in self.prog.mods:
                m, name = self.prog.mods[imp[1]], imp[2]
                continue
            return None
        return None

    def given(self, c, attr):
        """does the attribute hold something the constructor or a setter was given"""
        for k in c.mro() if c is not None else []:
            for f in list(k.setters.values()) + [g for g in k.methods.values() if g.name == '__init__']:
                if any(r[0] == 'param' and r[1] != 'self' and d >= b for r, d, b in self.sums[f].holds.get(attr, EMPTY)):
                    return True
        return False

    def holder(self, m, name):
        """the module that has the constant of this name"""
        for _ in range(6):
            if name in m.consts:
                return m
            imp = m.imports.get(name)
            if imp and imp[0] == 'from' and imp[1] in self.prog.mods:
                m, name = self.prog.mods[imp[1]], imp[2]
                continue
            return None
        return None


def stepped(t, n):
    """x = x + 1, the long way of x += 1"""
    if not (isinstance(n, ast.Assign) and len(n.targets) == 1 and n.targets[0] is t and isinstance(n.value, ast.BinOp)):
        return False
    same = lambda x: isinstance(x, (ast.Name, ast.Attribute)) and ast.unparse(x) == ast.unparse(t)
    return same(n.value.left) and not mutable(n.value.right) or isinstance(n.value.op, (ast.Add, ast.Mult)) and same(n.value.right) and not mutable(n.value.left)


def mutable(n):
    return isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
        n.func.id in ('list', 'dict', 'set', 'defaultdict', 'OrderedDict', 'Counter', 'deque', 'bytearray')


class Walk(object):
    def __init__(self, P, f):
        self.P, self.f, self.m, self.sum = P, f, f.mod, P.sums[f]
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.me = self.params[0] if f.cls is not None and not f.is_static and self.params else None
        self.env = {}
        defs = dict(zip(reversed(self.params), reversed(a.defaults)))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in self.params + [x.arg for x in a.kwonlyargs]:
            v = {(('param', p), 0, 0)}
            if p in defs and mutable(defs[p]):
                v.add((('default', p), 0, 0))
            self.env[p] = frozenset(v)
        self.locals = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | set(self.env)
        for x in ast.walk(f.node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.locals -= set(x.names)

    def go(self):
        self.block(self.f.node.body)

    # -------------------------------------------------------------- effects
    def change(self, v, kind, n):
        for r, d, b in v:
            if d >= b and d >= 0:
                if kind.startswith('.') and r[0] == 'param' and r[1] == self.me and d == 0:
                    continue
                self.sum.muts.setdefault((r, d), set()).add((kind, '%s:%d' % (self.m.rel, n.lineno)))

    def bind(self, t, v, n):
        eq = 'count' if isinstance(n, ast.AugAssign) and not mutable(n.value) or stepped(t, n) else '='
        if isinstance(t, ast.Name):
            if t.id not in self.locals:
                h = self.P.holder(self.m, t.id)
                if h is not None:
                    self.sum.muts.setdefault((('module', h.rel, t.id), 0), set()).add((eq, '%s:%d' % (self.m.rel, n.lineno)))
            self.env[t.id] = v if self.straight else self.env.get(t.id, EMPTY) | v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x.value if isinstance(x, ast.Starred) else x, elem(v), n)
        elif isinstance(t, ast.Attribute):
            o = self.value(t.value)
            if isinstance(t.value, ast.Name) and t.value.id == self.me:
                self.sum.holds[t.attr] = self.sum.holds.get(t.attr, EMPTY) | v
                self.env['self.' + t.attr] = v
                st = self.f.cls.find_setter(t.attr)
                if st is not None:
                    self.apply([st], None, t, {st.node.args.args[1].arg: v}, frozenset({(('param', self.me), 0, 0)}), mine=True)
            else:
                c = self.P.resolve(self.m, t.value.id) if isinstance(t.value, ast.Name) and t.value.id not in self.locals else None
                if c is not None and hasattr(c, 'methods'):
                    self.sum.muts.setdefault((('class', c.name, t.attr), 0), set()).add((eq, '%s:%d' % (self.m.rel, n.lineno)))
                self.change(o, '.' + t.attr, n)
                self.keep(t.value, v)
        elif isinstance(t, ast.Subscript):
            self.value(t.slice)
            self.change(self.value(t.value), '[]', n)
            self.keep(t.value, v)

    def keep(self, base, v):
        """v was stored in what base names"""
        if isinstance(base, ast.Name) and v:
            self.env[base.id] = self.env.get(base.id, EMPTY) | held(v)
        elif isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name) and base.value.id == self.me:
            self.sum.holds[base.attr] = self.sum.holds.get(base.attr, EMPTY) | held(v)

    # -------------------------------------------------------------- statements
    straight = True

    def block(self, ss):
        for s in ss:
            self.stmt(s)

    def loop(self, body):
        """a loop body: its effects twice, joined with not entering"""
        for _ in range(2):
            before = dict(self.env)
            self.block(body)
            for k, v in before.items():
                self.env[k] = self.env.get(k, EMPTY) | v

    def stmt(self, n):
        if isinstance(n, ast.Assign):
            v = self.value(n.value)
            for t in n.targets:
                if isinstance(t, ast.Tuple) and isinstance(n.value, ast.Tuple) and len(t.elts) == len(n.value.elts):
                    vs = [self.value(x) for x in n.value.elts]
                    for x, y in zip(t.elts, vs):
                        self.bind(x, y, n)
                else:
                    self.bind(t, v, n)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.bind(n.target, self.value(n.value), n)
        elif isinstance(n, ast.AugAssign):
            v = self.value(n.value)
            if isinstance(n.target, ast.Name):
                if n.target.id not in self.locals:
                    self.bind(n.target, EMPTY, n)
                if mutable(n.value) or isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ('list', 'sorted', 'range'):
                    self.change(self.value(n.target), '+=', n)
                    self.env[n.target.id] = self.env.get(n.target.id, EMPTY) | copied(v)
            else:
                self.bind(n.target, EMPTY, n)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    self.change(self.value(t.value), 'del', n)
                elif isinstance(t, ast.Attribute):
                    self.change(self.value(t.value), '.' + t.attr, n)
        elif isinstance(n, ast.Expr):
            v = self.value(n.value)
            if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                pass
        elif isinstance(n, ast.Return):
            if n.value is not None:
                self.sum.ret = self.sum.ret | self.value(n.value)
        elif isinstance(n, ast.If):
            self.value(n.test)
            before = dict(self.env)
            self.block(n.body)
            a = self.env if not leaves(n.body) else {}
            self.env = before
            self.block(n.orelse)
            b = self.env if not leaves(n.orelse) else {}
            self.env = {k: a.get(k, EMPTY) | b.get(k, EMPTY) for k in set(a) | set(b)}
        elif isinstance(n, ast.While):
            self.value(n.test)
            self.loop(n.body)
            self.block(n.orelse)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            v = self.value(n.iter)
            for _ in range(2):
                before = dict(self.env)
                self.bind(n.target, elem(v), n)
                self.block(n.body)
                for k, w in before.items():
                    self.env[k] = self.env.get(k, EMPTY) | w
            self.block(n.orelse)
        elif isinstance(n, ast.Try):
            before = dict(self.env)
            self.block(n.body)
            for k, w in before.items():
                self.env[k] = self.env.get(k, EMPTY) | w
            for h in n.handlers:
                self.block(h.body)
            self.block(n.orelse)
            self.block(n.finalbody)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for it in n.items:
                v = self.value(it.context_expr)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, v, n)
            self.block(n.body)
        elif isinstance(n, (ast.Raise, ast.Assert)):
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.expr):
                    self.value(x)

    # -------------------------------------------------------------- expressions
    def value(self, n):
        if n is None:
            return EMPTY
        if isinstance(n, ast.Name):
            if n.id in self.env:
                return self.env[n.id]
            if n.id not in self.locals:
                h = self.P.holder(self.m, n.id)
                if h is not None and mutable(h.consts[n.id] if n.id in h.consts else None):
                    return frozenset({(('module', h.rel, n.id), 0, 0)})
            return EMPTY
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == self.me:
                c = self.f.cls
                k = c.find_const(n.attr)
                g = c.find(n.attr)
                if k is not None and mutable(k[1]):
                    if not any(n.attr in self.P.sums[f].holds for cc in c.mro() for f in cc.methods.values()):
                        return frozenset({(('class', k[0].name, n.attr), 0, 0)})
                if g is not None and g.is_property:
                    return self.apply([g], None, n, {}, frozenset({(('param', self.me), 0, 0)}), mine=True)
                return frozenset({(('self', n.attr), 0, 0)}) | self.env.get('self.' + n.attr, EMPTY)
            if isinstance(n.value, ast.Name) and n.value.id not in self.locals:
                c = self.P.resolve(self.m, n.value.id)
                if c is not None and hasattr(c, 'methods'):
                    k = c.find_const(n.attr)
                    if k is not None and mutable(k[1]):
                        return frozenset({(('class', k[0].name, n.attr), 0, 0)})
                    return EMPTY
            o = self.value(n.value)
            gs = [g for g in self.P.byname.get(n.attr, []) if g.is_property]
            if gs and o:
                return elem(o) | self.apply(gs, None, n, {}, o)
            return elem(o)
        if isinstance(n, ast.Subscript):
            v = self.value(n.value)
            if isinstance(n.slice, ast.Slice):
                return copied(v)
            self.value(n.slice)
            return elem(v)
        if isinstance(n, ast.Call):
            return self.call(n)
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
            out = EMPTY
            for x in n.elts:
                out |= copied(self.value(x.value)) if isinstance(x, ast.Starred) else held(self.value(x))
            return out
        if isinstance(n, ast.Dict):
            out = EMPTY
            for x in n.keys:
                self.value(x)
            for k, x in zip(n.keys, n.values):
                out |= held(self.value(x)) if k is not None else copied(self.value(x))
            return out
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved, ls = dict(self.env), self.locals
            self.locals = self.locals | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for g in n.generators:
                self.bind(g.target, elem(self.value(g.iter)), n)
                for i in g.ifs:
                    self.value(i)
            if isinstance(n, ast.DictComp):
                self.value(n.key)
                v = self.value(n.value)
            else:
                v = self.value(n.elt)
            self.env, self.locals = saved, ls
            return held(v)
        if isinstance(n, ast.IfExp):
            self.value(n.test)
            return self.value(n.body) | self.value(n.orelse)
        if isinstance(n, ast.BoolOp):
            out = EMPTY
            for x in n.values:
                out |= self.value(x)
            return out
        if isinstance(n, ast.BinOp):
            a, b = self.value(n.left), self.value(n.right)
            return copied(a | b) if isinstance(n.op, (ast.Add, ast.BitOr, ast.Mult)) else EMPTY
        if isinstance(n, (ast.Lambda,)):
            saved, ls = dict(self.env), self.locals
            for a in n.args.args:
                self.env[a.arg] = EMPTY
            self.value(n.body)
            self.env, self.locals = saved, ls
            return EMPTY
        if isinstance(n, ast.NamedExpr):
            v = self.value(n.value)
            self.bind(n.target, v, n)
            return v
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            v = self.value(n.value)
            self.sum.ret = self.sum.ret | (held(v) if isinstance(n, ast.Yield) else copied(v))
            return EMPTY
        if isinstance(n, ast.Starred):
            return self.value(n.value)
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.value(x)
        return EMPTY

    def call(self, n):
        args = [self.value(a) for a in n.args]
        kws = {k.arg: self.value(k.value) for k in n.keywords}
        both = EMPTY
        for a in args:
            both |= a
        fn = n.func
        if isinstance(fn, ast.Name):
            t = self.P.resolve(self.m, fn.id) if fn.id not in self.locals else None
            if t is not None and hasattr(t, 'methods'):
                i = t.find('__init__')
                if i is not None:
                    self.apply([i], args, n, kws, EMPTY)
                return EMPTY
            if t is not None:
                return self.apply([t], args, n, kws, EMPTY)
            return self.outside(fn.id, None, args, kws, both, n)
        if isinstance(fn, ast.Attribute):
            name = fn.attr
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and self.f.cls is not None:
                t = next((c.methods[name] for c in self.f.cls.mro()[1:] if name in c.methods), None)
                if t is not None:
                    return self.apply([t], args, n, kws, frozenset({(('param', self.me), 0, 0)}), mine=True)
                return EMPTY
            if isinstance(fn.value, ast.Name) and fn.value.id == self.me:
                t = self.f.cls.find(name)
                ts = ([t] if t is not None else []) + [c.methods[name] for c in self.P.subs.get(self.f.cls, []) if name in c.methods]
                if ts:
                    return self.apply(ts, args, n, kws, frozenset({(('param', self.me), 0, 0)}), mine=True)
            if isinstance(fn.value, ast.Name) and fn.value.id not in self.locals:
                c = self.P.resolve(self.m, fn.value.id)
                if c is not None and hasattr(c, 'methods'):
                    t = c.find(name)
                    if t is not None:
                        if t.is_static or t.is_classmethod:
                            return self.apply([t], args, n, kws, EMPTY)
                        return self.apply([t], args[1:], n, kws, args[0] if args else EMPTY)
                imp = self.m.imports.get(fn.value.id)
                if imp and c is None and self.value(fn.value) == EMPTY:
                    return self.outside(name, None, args, kws, both, n)
            o = self.value(fn.value)
            ts = [t for t in self.P.byname.get(name, []) if not t.is_static]
            if ts and not (name in CHANGERS or name in COPIES or name in PAIRS or name in ELEMS):
                return self.apply(ts, args, n, kws, o)
            return self.outside(name, o, args, kws, both, n)
        self.value(fn)
        return EMPTY

    def outside(self, name, o, args, kws, both, n):
        if o is not None:
            if name in CHANGERS:
                self.change(o, name, n)
                if name in ('append', 'add', 'insert', 'appendleft', 'setdefault'):
                    for a in args:
                        self.keep(n.func.value, a)
                elif name in ('extend', 'update'):
                    for a in args:
                        self.keep(n.func.value, elem(a))
            if name in ELEMS:
                return elem(o) | (args[-1] if len(args) > 1 else EMPTY)
            if name in COPIES:
                return copied(o)
            if name in PAIRS:
                return pairs(o)
            return EMPTY
        if name in FIRST and args:
            self.change(args[0], name, n)
        if name in COPIES:
            return copied(both)
        if name in PAIRS:
            return pairs(both)
        if name in ELEMS:
            return elem(both) | (both if name in ('min', 'max') and len(args) > 1 else EMPTY)
        if name == 'map' and args:
            return EMPTY
        return EMPTY

    def apply(self, ts, args, n, kws, recv, mine=False):
        out = EMPTY
        both = [set(), set()]
        per = []
        for t in ts:
            s = self.P.sums[t]
            a = t.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            me = names[0] if t.cls is not None and not t.is_static and names else None
            pos = names[1:] if me else names
            m = {}
            for p, v in zip(pos, args or []):
                m[p] = v
            for k, v in kws.items():
                if k is not None:
                    m[k] = v

            def at(root):
                if root[0] == 'param':
                    return (recv if root[1] == me else m.get(root[1], EMPTY)), 0
                if root[0] == 'self':
                    if mine:
                        return frozenset({(root, 0, 0)}), 0
                    return recv, 1
                if root[0] == 'default':
                    return (frozenset({(root + (t.qual,), 0, 0)}) if len(root) == 2 and root[1] not in m else EMPTY if len(root) == 2 else frozenset({(root, 0, 0)})), 0
                return frozenset({(root, 0, 0)}), 0
            got = {}
            for (root, depth), sites in list(s.muts.items()):
                v, more = at(root)
                for r, d, b in v:
                    dd = d + more + depth
                    if dd >= b and 0 <= dd <= CAP:
                        if not mine and root[0] == 'self' and root[1].startswith('_') and not self.P.given(t.cls, root[1]):
                            continue                # what an object remembers for itself
                        got.setdefault((r, dd), set()).update(sites)
            per.append(got)
            for root, depth, b0 in s.ret:
                v, more = at(root)
                out |= frozenset((r, d + more + depth, max(b, d + more + b0)) for r, d, b in v if -CAP <= d + more + depth <= CAP)
            if mine:
                for k, v in s.holds.items():
                    w = EMPTY
                    for root, depth, b0 in v:
                        x, more = at(root)
                        w |= frozenset((r, d + more + depth, max(b, d + more + b0)) for r, d, b in x if -CAP <= d + more + depth <= CAP)
                    if w:
                        self.sum.holds[k] = self.sum.holds.get(k, EMPTY) | w
        for got in per:
            for k, sites in got.items():
                if all(k in g for g in per) or mine:
                    self.sum.muts.setdefault(k, set()).update(sites)
        return out


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
