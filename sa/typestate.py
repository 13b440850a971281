"""Typestate over the statements of a function, exceptions included: which files are open and where the standard output goes.

A state is (open files, variables bound to a file / the saved output / None, where the output goes).  Every statement that calls,
subscripts, raises or yields may leave with an exception in the state before it."""
import ast

OPENERS = {'open', 'io.open', 'os.fdopen', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile'}
ORIG, OTHER = 'orig', 'other'


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        d = dotted(n.value)
        return d + '.' + n.attr if d else None
    return None


def is_out(n):
    return dotted(n) in ('sys.stdout',)


class St(object):
    __slots__ = ('held', 'env', 'out')

    def __init__(self, held=frozenset(), env=(), out=ORIG):
        self.held, self.env, self.out = held, tuple(sorted(env)), out

    def __hash__(self):
        return hash((self.held, self.env, self.out))

    def __eq__(self, o):
        return (self.held, self.env, self.out) == (o.held, o.env, o.out)

    def get(self, v):
        return dict(self.env).get(v)

    def put(self, v, x):
        e = dict(self.env)
        if x is None:
            e.pop(v, None)
        else:
            e[v] = x
        return St(self.held, e.items(), self.out)

    def take(self, s):
        return St(self.held | {s}, self.env, self.out)

    def free(self, s):
        return St(self.held - {s}, self.env, self.out)

    def to(self, o):
        return St(self.held, self.env, o)


class Flow(object):
    """the function's exits: kind -> states"""
    def __init__(self, fn, opens=(), closes=None, start=None):
        self.opens, self.closes = set(opens), closes or {}
        self.sites, self.escaped, self.outs, self.returned = {}, set(), [], set()
        self.fn = fn
        first = St(env=[(a.arg, ('param', str(i)) if a.arg != start else ('file', start)) for i, a in enumerate(fn.args.args)])
        r = self.block(fn.body, {first if start is None else first.take(start)})
        self.exits = {'return': r.get('next', set()) | r.get('return', set()), 'raise': r.get('raise', set())}

    # ------------------------------------------------------------ expressions
    def opener(self, n):
        if not isinstance(n, ast.Call):
            return None
        d = dotted(n.func)
        if d in OPENERS or d is not None and d.split('.')[-1] in self.opens:
            return n
        return None

    def site(self, n):
        k = '%d:%d' % (n.lineno, n.col_offset)
        self.sites[k] = n
        return k

    def risky(self, n):
        for x in self.own(n):
            if isinstance(x, ast.Call):
                if not self.harmless(x):
                    return True
            elif isinstance(x, ast.BinOp):
                if isinstance(x.op, (ast.Div, ast.FloorDiv, ast.Mod, ast.Pow)) and not isinstance(x.left, ast.Constant):
                    return True
            elif isinstance(x, (ast.Subscript, ast.Yield, ast.YieldFrom, ast.Await, ast.Raise, ast.Assert, ast.Import, ast.ImportFrom, ast.ListComp, ast.SetComp, ast.DictComp, ast.Starred)):
                return True
        return False

    def own(self, n):
        """the expression's nodes, nested functions aside"""
        todo = [n]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)) and x is not n:
                continue
            yield x
            todo.extend(ast.iter_child_nodes(x))

    def harmless(self, c):
        """close() of a file; the making of empty containers"""
        if isinstance(c.func, ast.Attribute) and c.func.attr in ('close', 'flush') and isinstance(c.func.value, ast.Name):
            return c.func.attr == 'close'
        d = dotted(c.func)
        if d and d.split('.')[-1] in self.closes and len(c.args) == 1 and isinstance(c.args[0], ast.Name):
            return True
        if not isinstance(c.func, ast.Name):
            return False
        return c.func.id in ('len', 'isinstance', 'str', 'repr', 'range', 'enumerate', 'id', 'type', 'bool') or c.func.id in ('dict', 'list', 'set', 'tuple') and not c.args and not c.keywords

    def effects(self, n, s):
        """files closed, opened without a name or handed over in an expression"""
        managed = set()
        for x in self.own(n):
            if not isinstance(x, ast.Call):
                continue
            if isinstance(x.func, ast.Attribute) and x.func.attr == 'close' and isinstance(x.func.value, ast.Name):
                v = s.get(x.func.value.id)
                if v and v[0] == 'file':
                    s = s.free(v[1])
            d = dotted(x.func)
            if isinstance(x.func, ast.Attribute) and x.func.attr == 'enter_context':
                managed |= {id(a) for a in x.args}
            name = (d or '').split('.')[-1]
            for i, a in enumerate(x.args):
                if isinstance(a, ast.Name) and s.get(a.id) and s.get(a.id)[0] == 'file':
                    if i in self.closes.get(name, ()):
                        s = s.free(s.get(a.id)[1])
                    elif name in ('closing', 'enter_context', 'callback', 'push', 'append', 'add', 'register') or (name[:1].isupper() and d not in OPENERS):
                        self.escaped.add(s.get(a.id)[1])
                        s = s.free(s.get(a.id)[1])
        for x in self.own(n):
            if self.opener(x) and id(x) not in managed:
                s = s.take(self.site(x))
        return s

    def value(self, n, s):
        """(value of an assigned expression, state)"""
        if self.opener(n):
            k = self.site(n)
            for a in list(n.args) + [k2.value for k2 in n.keywords]:
                s = self.effects(a, s)
            return ('file', k), s.take(k)
        if isinstance(n, ast.Name):
            return s.get(n.id), s
        if is_out(n):
            return ('out', s.out), s
        if isinstance(n, ast.Constant) and n.value is None:
            return ('none', ''), s
        if isinstance(n, (ast.Tuple, ast.List, ast.Dict)):
            for x in self.own(n):
                if isinstance(x, ast.Name) and s.get(x.id) and s.get(x.id)[0] == 'file':
                    self.escaped.add(s.get(x.id)[1])
                    s = s.free(s.get(x.id)[1])
        return None, self.effects(n, s)

    # ------------------------------------------------------------ statements
    def block(self, stmts, states):
        out, cur = {}, set(states)
        for st in stmts:
            if not cur:
                break
            r = {}
            for s in cur:
                for k, v in self.stmt(st, s).items():
                    r.setdefault(k, set()).update(v)
            cur = r.pop('next', set())
            for k, v in r.items():
                out.setdefault(k, set()).update(v)
            if len(cur) > 400 or sum(map(len, out.values())) > 2000:
                raise RuntimeError('too many states')
        if cur:
            out.setdefault('next', set()).update(cur)
        return out

    def stmt(self, n, s):
        out = {}

        def add(k, *ss):
            out.setdefault(k, set()).update(ss)

        def merge(r, but=()):
            for k, v in r.items():
                if k not in but:
                    add(k, *v)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Pass, ast.Global, ast.Nonlocal)):
            add('next', s)
        elif isinstance(n, ast.Assign):
            if self.risky(n.value) or any(self.risky(t) for t in n.targets):
                add('raise', s)
            if isinstance(n.value, ast.IfExp) and any(is_out(t) for t in n.targets):
                vals = [self.value(n.value.body, s), self.value(n.value.orelse, s)]
            elif len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) and len(n.targets[0].elts) == len(n.value.elts):
                vs = []
                for x in n.value.elts:
                    v, s = self.value(x, s)
                    vs.append(v)
                for t, v in zip(n.targets[0].elts, vs):
                    s = self.bind(t, v, s)
                add('next', s)
                return out
            else:
                vals = [self.value(n.value, s)]
            for v, s2 in vals:
                for t in n.targets:
                    s2 = self.bind(t, v, s2)
                add('next', s2)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            add('raise', s)
            if n.value is not None:
                v, s = self.value(n.value, s)
                s = self.bind(n.target, v if isinstance(n, ast.AnnAssign) else None, s)
            add('next', s)
        elif isinstance(n, ast.Expr):
            if self.risky(n.value):
                add('raise', s)
            add('next', self.effects(n.value, s))
        elif isinstance(n, ast.Return):
            if n.value is not None:
                if self.risky(n.value):
                    add('raise', s)
                if isinstance(n.value, (ast.Name,)) or self.opener(n.value):
                    v, s = self.value(n.value, s)
                    if v and v[0] == 'file':
                        self.returned.add(v[1])
                        s = s.free(v[1])
                else:
                    v, s = self.value(n.value, s)
            add('return', s)
        elif isinstance(n, ast.Raise):
            add('raise', s)
        elif isinstance(n, ast.Assert):
            add('raise', s)
            add('next', s)
        elif isinstance(n, ast.Delete):
            add('next', s)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            add('next', s)
        elif isinstance(n, ast.If):
            if self.risky(n.test):
                add('raise', s)
            s = self.effects(n.test, s)
            t, f = self.branch(n.test, s)
            if t is not None:
                merge(self.block(n.body, {t}))
            if f is not None:
                merge(self.block(n.orelse, {f}))
        elif isinstance(n, (ast.While, ast.For, ast.AsyncFor)):
            seen, todo = set(), {s}
            if isinstance(n, ast.While):
                endless = isinstance(n.test, ast.Constant) and bool(n.test.value)
                risky = self.risky(n.test)
            else:
                endless, risky = False, True
                add('raise', s)
                todo = {self.effects(n.iter, s)}
                if self.opener(n.iter):
                    pass
            done = set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                if risky and isinstance(n, ast.While) or isinstance(n, (ast.For, ast.AsyncFor)):
                    add('raise', x)
                if not endless:
                    done.add(x)
                y = x
                if isinstance(n, (ast.For, ast.AsyncFor)):
                    y = self.bind(n.target, None, y)
                r = self.block(n.body, {y})
                merge(r, ('next', 'continue', 'break'))
                todo |= r.get('next', set()) | r.get('continue', set())
                for z in r.get('break', set()):
                    add('next', z)
                if len(seen) > 300:
                    raise RuntimeError('too many states')
            if done:
                merge(self.block(n.orelse, done))
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            merge(self.withs(n.items, n.body, s))
        elif isinstance(n, ast.Try) or type(n).__name__ == 'TryStar':
            merge(self.tries(n, s))
        elif isinstance(n, ast.Break):
            add('break', s)
        elif isinstance(n, ast.Continue):
            add('continue', s)
        else:
            add('raise', s)
            add('next', s)
        return out

    def bind(self, t, v, s):
        if isinstance(t, ast.Name):
            return s.put(t.id, v)
        if is_out(t):
            self.outs.append(t)
            return s.to(ORIG if v == ('out', ORIG) else OTHER)
        if isinstance(t, (ast.Attribute, ast.Subscript)) and v and v[0] == 'file':
            self.escaped.add(v[1])
            return s.free(v[1])
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                s = self.bind(x, None, s)
        return s

    def branch(self, test, s):
        """the states for true and for false; None when it cannot be"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.branch(test.operand, s)
            return f, t
        if isinstance(test, ast.Name):
            v = s.get(test.id)
            if v and v[0] == 'none':
                return None, s
            if v and v[0] in ('file', 'out'):
                return s, None
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            v = s.get(test.left.id)
            if v and v[0] in ('none', 'file', 'out'):
                isnone = v[0] == 'none'
                eq = isinstance(test.ops[0], (ast.Is, ast.Eq))
                return (s, None) if isnone == eq else (None, s)
        if isinstance(test, ast.Attribute) and test.attr == 'closed' and isinstance(test.value, ast.Name):
            v = s.get(test.value.id)
            if v and v[0] == 'file':
                return (None, s) if v[1] in s.held else (s, None)
        if isinstance(test, ast.Constant):
            return (s, None) if test.value else (None, s)
        return s, s

    def withs(self, items, body, s):
        out = {}
        if not items:
            return self.block(body, {s})
        it = items[0]
        e = it.context_expr
        if not (isinstance(e, ast.Name) and s.get(e.id) and s.get(e.id)[0] == 'file'):
            out['raise'] = {s}
        name = (dotted(e.func) or '').split('.')[-1] if isinstance(e, ast.Call) else ''
        inner, back, saved = s, [], None
        for x in self.own(e):
            if self.opener(x):
                k = self.site(x)
                back.append(k)
                inner = inner.take(k)
        if isinstance(e, ast.Name) or name == 'closing':
            for x in ([e] if isinstance(e, ast.Name) else e.args):
                v = inner.get(x.id) if isinstance(x, ast.Name) else None
                if v and v[0] == 'file':
                    back.append(v[1])
        if name == 'redirect_stdout':
            saved = inner.out
            inner = inner.to(OTHER)
        if isinstance(it.optional_vars, ast.Name):
            inner = inner.put(it.optional_vars.id, ('file', back[0]) if back else None)
        r = self.withs(items[1:], body, inner)

        def leave(x):
            for k in back:
                x = x.free(k)
            return x if saved is None else x.to(saved)
        for k, ss in r.items():
            ss = {leave(x) for x in ss}
            out.setdefault(k, set()).update(ss)
            if k == 'raise' and name == 'suppress':
                out.setdefault('next', set()).update(ss)
        return out

    def tries(self, n, s):
        r = self.block(n.body, {s})
        out = {}

        def add(k, ss):
            if ss:
                out.setdefault(k, set()).update(ss)
        if 'next' in r:
            for k, ss in self.block(n.orelse, r['next']).items():
                add(k, ss)
        for k, ss in r.items():
            if k not in ('next', 'raise'):
                add(k, ss)
        thrown = r.get('raise', set())
        if thrown:
            caught_all = False
            for h in n.handlers:
                for k, ss in self.block(h.body, thrown).items():
                    add(k, ss)
                names = [dotted(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else [None]
                if any(x in (None, 'Exception', 'BaseException') for x in names):
                    caught_all = True
                    break
            if not caught_all:
                add('raise', thrown)
        if not n.finalbody:
            return out
        res = {}
        for k, ss in out.items():
            for k2, s2 in self.block(n.finalbody, ss).items():
                res.setdefault(k if k2 == 'next' else k2, set()).update(s2)
        return res


def closes(fn):
    """positions of the parameters that a function closes on every exit"""
    names = [a.arg for a in fn.args.args]
    if names and names[0] in ('self', 'cls'):
        names = names[1:]
    out = set()
    for st in ast.walk(fn):
        if isinstance(st, ast.Call) and isinstance(st.func, ast.Attribute) and st.func.attr == 'close' and isinstance(st.func.value, ast.Name) and st.func.value.id in names:
            n = st.func.value.id
            fl = Flow(fn, start=n)
            if not any(n in s.held for k in fl.exits.values() for s in k):
                out.add(names.index(n))
    return out
