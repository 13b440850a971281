"""Whole-program model of the repository: modules, imports, classes, functions."""
import ast
import hashlib
import os

SKIP_DIRS = {'.git', 'tests', '__pycache__', '.pytest_cache', 'node_modules'}


class FuncInfo(object):
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = node.name
        self.qual = (cls.name + '.' if cls else '') + node.name
        self.decorators = []
        for d in node.decorator_list:
            if isinstance(d, ast.Name):
                self.decorators.append(d.id)
            elif isinstance(d, ast.Attribute):
                self.decorators.append((d.value.id + '.' if isinstance(d.value, ast.Name) else '') + d.attr)
            else:
                self.decorators.append('?')

    @property
    def is_property(self):
        return 'property' in self.decorators

    @property
    def is_setter(self):
        return any(d.endswith('.setter') for d in self.decorators)

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    def where(self):
        return '%s:%d' % (self.mod.rel, self.node.lineno)

    def __repr__(self):
        return '<%s:%s>' % (self.mod.rel, self.qual)


class ClassInfo(object):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.setters, self.consts = {}, {}, {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = FuncInfo(mod, st, self)
                if f.is_setter:
                    self.setters[f.name] = f
                else:
                    self.methods[f.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = st.value
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.consts[st.target.id] = st.value
        self.bases = []          # resolved later
        self.external_bases = []

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def find_const(self, name):
        for c in self.mro():
            if name in c.consts:
                return c, c.consts[name]
        return None

    def isa(self, name):
        return any(c.name == name for c in self.mro())

    def __repr__(self):
        return '<class %s>' % self.name


class Module(object):
    def __init__(self, path, rel, name, tree, src):
        self.path, self.rel, self.name, self.tree, self.src = path, rel, name, tree, src
        self.funcs, self.classes, self.consts = {}, {}, {}
        self.imports = {}      # local name -> ('mod', dotted) | ('from', dotted, name)
        self.stars = []
        self.exports_cache = None


class Program(object):
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.errors = []
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS and not x.startswith('.'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                try:
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        tree = ast.parse(src, rel)
                except SyntaxError as e:
                    self.errors.append('%s: %s' % (rel, e))
                    continue
                self.mods[name] = Module(p, rel, name, tree, src)
        for m in self.mods.values():
            self._scan(m)
        for m in self.mods.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    if isinstance(r, ClassInfo):
                        c.bases.append(r)
                    else:
                        c.external_bases.append(ast.unparse(b))

    def _scan(self, m):
        def body(stmts):
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.funcs[st.name] = FuncInfo(m, st)
                elif isinstance(st, ast.ClassDef):
                    m.classes[st.name] = ClassInfo(m, st)
                elif isinstance(st, ast.Import):
                    for a in st.names:
                        if a.asname:
                            m.imports[a.asname] = ('mod', a.name)
                        else:
                            m.imports[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
                elif isinstance(st, ast.ImportFrom):
                    base = st.module or ''
                    if st.level:
                        pk = m.name.split('.')
                        if not m.rel.endswith('__init__.py'):
                            pk = pk[:-1]
                        pk = pk[:len(pk) - (st.level - 1)]
                        base = '.'.join(pk + ([st.module] if st.module else []))
                    for a in st.names:
                        if a.name == '*':
                            m.stars.append(base)
                        else:
                            m.imports[a.asname or a.name] = ('from', base, a.name)
                elif isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name):
                            m.consts[t.id] = st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    m.consts[st.target.id] = st.value
                elif isinstance(st, (ast.If, ast.Try, ast.With)):
                    if isinstance(st, ast.If) and _is_main(st.test):
                        continue
                    body(st.body)
                    for h in getattr(st, 'handlers', []):
                        body(h.body)
                    body(getattr(st, 'orelse', []))
        body(m.tree.body)

    def lookup(self, m, name, depth=0):
        """resolve a module-level name: FuncInfo | ClassInfo | ('const', Module, expr) |
        ('ext', dotted) | ('module', Module) | None"""
        if depth > 8:
            return None
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.consts:
            return ('const', m, m.consts[name])
        if name in m.imports:
            imp = m.imports[name]
            if imp[0] == 'mod':
                if imp[1] in self.mods:
                    return ('module', self.mods[imp[1]])
                return ('ext', imp[1])
            _, base, nm = imp
            if base in self.mods:
                r = self.lookup(self.mods[base], nm, depth + 1)
                if r is not None:
                    return r
            full = base + '.' + nm if base else nm
            if full in self.mods:
                return ('module', self.mods[full])
            return ('ext', full)
        for s in reversed(m.stars):
            if s in self.mods:
                if name.startswith('_'):
                    continue
                r = self.lookup(self.mods[s], name, depth + 1)
                if r is not None:
                    return r
            else:
                v = _ext_star(s, name)
                if v:
                    return ('ext', s + '.' + name)
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.lookup(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, tuple) and b[0] == 'module':
                return self.lookup(b[1], e.attr)
            if isinstance(b, tuple) and b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
        return None

    def func(self, modname, qual):
        m = self.mods.get(modname)
        if m is None:
            return None
        if '.' in qual:
            c, f = qual.split('.', 1)
            ci = self.lookup(m, c)
            return ci.find(f) if isinstance(ci, ClassInfo) else None
        r = self.lookup(m, qual)
        return r if isinstance(r, FuncInfo) else None

    def cls(self, modname, name):
        m = self.mods.get(modname)
        r = self.lookup(m, name) if m else None
        return r if isinstance(r, ClassInfo) else None

    def all_functions(self):
        for m in sorted(self.mods.values(), key=lambda x: x.rel):
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in list(c.methods.values()) + list(c.setters.values()):
                    yield f

    def digest(self):
        h = hashlib.sha256()
        for m in sorted(self.mods.values(), key=lambda x: x.rel):
            h.update(m.rel.encode() + b'\0' + m.src.encode() + b'\0')
        return h.hexdigest()


def _is_main(t):
    return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__'


_STAR = {
    'math': {'log', 'floor', 'ceil', 'fmod', 'sqrt', 'exp', 'pow', 'log2', 'pi', 'inf', 'isclose', 'prod'},
    'constraint': {'Problem', 'Constraint', 'Variable', 'Domain', 'BacktrackingSolver', 'AllDifferentConstraint'},
}


def _ext_star(mod, name):
    return name in _STAR.get(mod, ())
