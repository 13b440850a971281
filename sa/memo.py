"""Is a table that functions fill a memory of results that depend on nothing but the key?"""
import ast


def chain(n):
    """a name or a dotted name"""
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        c = chain(n.value)
        return None if c is None else c + '.' + n.attr
    return None


def covers(key, atom):
    return any(atom == k or atom.startswith(k + '.') for k in key)


OUTSIDE = {'open', 'input', 'random', 'time', 'os', 'sys', 'subprocess'}


class Memo(object):
    def __init__(self, f, globs):
        self.f, self.globs = f, globs
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.defs = {}
        self.outside = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            self.defs.setdefault(x.id, []).append(n.value if t is x else None)
                        elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                            self.defs.setdefault(x.value.id, []).append(None)
            elif isinstance(n, ast.With):
                for i in n.items:
                    for x in ast.walk(i.optional_vars) if i.optional_vars is not None else ():
                        if isinstance(x, ast.Name):
                            self.outside.add(x.id)
            elif isinstance(n, (ast.AugAssign, ast.For, ast.NamedExpr, ast.comprehension)):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        self.defs.setdefault(x.id, []).append(None)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in (
                    'append', 'extend', 'insert', 'update', 'add', 'sort', 'pop', 'remove', 'setdefault', 'reverse'):
                self.defs.setdefault(n.func.value.id, []).append(None)

    def exact(self, n):
        """the names the key tells apart exactly, and the ones it only mentions"""
        if isinstance(n, ast.Constant):
            return set(), set()
        if isinstance(n, (ast.Tuple,)):
            e, m = set(), set()
            for x in n.elts:
                a, b = self.exact(x)
                e |= a
                m |= b
            return e, m
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('int', 'str', 'tuple', 'bool', 'repr', 'float') and len(n.args) == 1:
            return self.exact(n.args[0])
        c = chain(n)
        if c is not None:
            ds = self.defs.get(c, [])
            if len(ds) == 1 and ds[0] is not None and c not in self.params:
                e, m = self.exact(ds[0])
                return e | {c}, m
            return {c}, set()
        return set(), {chain(x) for x in ast.walk(n) if chain(x)}

    def needs(self, n, key, depth=0):
        """the names the value depends on and the key does not settle; None when it is not clear"""
        out = set()
        stack = [n]
        while stack:
            x = stack.pop()
            c = chain(x)
            if c is not None:
                root = c.split('.')[0]
                if root in self.outside or root in OUTSIDE:
                    out.add('<outside>')
                    continue
                if covers(key, c) or root not in self.params and root not in self.defs:
                    continue
                ds = self.defs.get(root, [])
                if root in self.params and not ds:
                    out.add(c)
                elif len(ds) == 1 and ds[0] is not None and depth < 5:
                    r = self.needs(ds[0], key, depth + 1)
                    out |= r
                else:
                    out |= {p for p in self.params if p not in ('self', 'cls') and not covers(key, p)}
                continue
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                stack.append(x.func.value)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id not in self.params and x.func.id not in self.defs:
                if x.func.id in OUTSIDE:
                    out.add('<outside>')
            elif isinstance(x, ast.Call):
                stack.append(x.func)
            if isinstance(x, ast.Call):
                stack += list(x.args) + [k.value for k in x.keywords]
            else:
                stack += list(ast.iter_child_nodes(x))
        return out


def judged(f, lineno, table):
    """the statement of f at this line puts a result in `table` (a dotted name's last part): True when the result depends on the key alone,
    False when something else decides it, None when it is not clear or the table is not a memory of results"""
    node = None
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and n.lineno <= lineno <= (n.end_lineno or n.lineno):
            for t in n.targets:
                if isinstance(t, ast.Subscript) and (chain(t.value) or '').split('.')[-1] == table:
                    node = (t, n)
    if node is None:
        return False
    t, n = node
    key = ast.dump(t.slice)
    uses = [x for x in ast.walk(f.node) if isinstance(x, (ast.Name, ast.Attribute)) and (chain(x) or '').split('.')[-1] == table]
    plain = set()
    guarded = False
    for x in ast.walk(f.node):
        if isinstance(x, ast.Subscript) and any(x.value is u for u in uses):
            plain.add(x.value)
            if ast.dump(x.slice) != key and not same(f, x.slice, t.slice):
                return False
        elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and any(x.comparators[0] is u for u in uses):
            plain.add(x.comparators[0])
            guarded = True
            if ast.dump(x.left) != key and not same(f, x.left, t.slice):
                return False
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'get' and any(x.func.value is u for u in uses):
            plain.add(x.func.value)
            guarded = True
            if x.args and ast.dump(x.args[0]) != key and not same(f, x.args[0], t.slice):
                return False
    if any(u not in plain and not any(isinstance(a, ast.Attribute) and a.value is u for a in ast.walk(f.node)) for u in uses) or not guarded:
        return False
    m = Memo(f, None)
    exact, mentioned = m.exact(t.slice)
    missing = m.needs(n.value, exact)
    if not missing:
        return True
    if any(x not in mentioned and x.split('.')[0] not in mentioned for x in missing):
        return False
    k = t.slice
    while isinstance(k, ast.Name) and len(m.defs.get(k.id, [])) == 1 and m.defs[k.id][0] is not None:
        k = m.defs[k.id][0]
    return False if isinstance(k, (ast.BinOp, ast.Attribute, ast.Subscript)) else None


def same(f, a, b):
    """names that stand for the same key"""
    m = Memo(f, None)

    def base(n):
        for _ in range(5):
            if isinstance(n, ast.Name) and len(m.defs.get(n.id, [])) == 1 and m.defs[n.id][0] is not None and n.id not in m.params:
                n = m.defs[n.id][0]
        return ast.dump(n).replace('Store()', 'Load()')
    return base(a) == base(b)
