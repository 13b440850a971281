"""Linkage of the project's own code: names, imports, attributes and calls resolved on the syntax trees."""
import ast, builtins, os, symtable

PKGS = ('semantic_codec', 'libs')


class Mod(object):
    def __init__(self, name, path, rel, src):
        self.name, self.path, self.rel, self.src = name, path, rel, src
        self.tree = ast.parse(src, path)
        self.table = symtable.symtable(src, path, 'exec')
        self.pkg = os.path.basename(path) == '__init__.py'
        self.imports = {}     # local name -> ('mod', dotted) / ('from', dotted, name)
        self.stars = []
        self.defs = {}        # name -> node of functions and classes, None for other bindings
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = self.relative(n)
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = ('from', base, a.name)
        for s in self.table.get_symbols():
            if s.is_assigned() or s.is_imported() or s.is_namespace():
                self.defs.setdefault(s.get_name(), None)
        for n in self.tree.body:
            for m in [n] + [x for x in ast.iter_child_nodes(n) if isinstance(n, (ast.If, ast.Try))]:
                if isinstance(m, (ast.FunctionDef, ast.ClassDef)):
                    self.defs[m.name] = m
        # a name bound at the top more than once, or changed by a function, is not known by its definition
        binds = {}
        for n in self.tree.body:
            for m in ([n] if not isinstance(n, (ast.If, ast.Try, ast.For, ast.While, ast.With)) else list(ast.walk(n))):
                for t in bound(m):
                    binds[t] = binds.get(t, 0) + 1
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                for t in n.names:
                    binds[t] = 2
                    self.defs.setdefault(t, None)
        self.unsure = set(t for t, c in binds.items() if c > 1)

    def relative(self, n):
        if not n.level:
            return n.module or ''
        parts = self.name.split('.')
        if not self.pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))


def bound(n):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        return [n.name]
    if isinstance(n, ast.Assign):
        return [x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name)]
    if isinstance(n, (ast.AugAssign, ast.AnnAssign)) and isinstance(n.target, ast.Name):
        return [n.target.id]
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        return [(a.asname or a.name).split('.')[0] for a in n.names]
    return []


class Cls(object):
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.members = {}
        self.attrs = set()
        self.odd = bool(node.keywords) or bool([d for d in node.decorator_list])
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                self.members[n.name] = n
            else:
                for t in ([x for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]):
                    self.attrs.add(t.id)
                if isinstance(n, ast.ClassDef):
                    self.attrs.add(n.name)
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls'):
                self.attrs.add(n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'vars') or \
                    isinstance(n, ast.Attribute) and n.attr == '__dict__':
                self.odd = True
        if '__getattr__' in self.members or '__getattribute__' in self.members or '__slots__' in self.attrs:
            self.odd = True


class Program(object):
    def __init__(self, root):
        self.root = root
        self.mods = {}
        for base, dirs, files in os.walk(root):
            dirs[:] = sorted(d for d in dirs if not d.startswith('.') and d not in ('tests', '__pycache__', 'build', 'dist', 'venv'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(base, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                if name == '__init__':
                    continue
                try:
                    self.mods[name] = Mod(name, p, rel, open(p, encoding='utf-8').read())
                except SyntaxError:
                    self.mods[name] = None
        self.classes = {}
        for m in self.mods.values():
            if m:
                for n in m.tree.body:
                    if isinstance(n, ast.ClassDef):
                        self.classes[(m.name, n.name)] = Cls(m, n)
        self.subs = {}
        for c in self.classes.values():
            for b in self.bases(c) or ():
                if isinstance(b, Cls):
                    self.subs.setdefault(b, set()).add(c)

    # ---- resolution -------------------------------------------------------
    def is_project(self, dotted):
        return dotted in self.mods or any(m.startswith(dotted + '.') for m in self.mods) or dotted.split('.')[0] in PKGS

    def member(self, dotted, name, seen=()):
        """what `name` of the project's module is: ('mod', dotted) / ('def', mod, node) / ('val',) / ('ext',) / None when there is none"""
        if (dotted, name) in seen:
            return ('val',)
        m = self.mods.get(dotted)
        if m is None:
            return ('mod', dotted + '.' + name) if self.is_module(dotted + '.' + name) else None if dotted not in self.mods else ('ext',)
        if name in m.unsure:
            return ('val',)
        if name in m.imports and m.defs.get(name) is None:
            return self.imported(m.imports[name], seen + ((dotted, name),))
        if name in m.defs:
            d = m.defs[name]
            return ('def', m, d) if d is not None else ('val',)
        for s in m.stars:
            if not self.is_project(s):
                return ('ext',)
            r = self.member(s, name, seen + ((dotted, name),))
            if r:
                return r
        if self.is_module(dotted + '.' + name):
            return ('mod', dotted + '.' + name)
        return None

    def is_module(self, dotted):
        return dotted in self.mods or any(m.startswith(dotted + '.') for m in self.mods)

    def imported(self, imp, seen=()):
        if imp[0] == 'mod':
            return ('mod', imp[1]) if self.is_project(imp[1]) else ('ext',)
        if not self.is_project(imp[1]):
            return ('ext',)
        return self.member(imp[1], imp[2], seen)

    def bases(self, c):
        """the classes a class is derived from; None when one is unknown"""
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Name) and b.id == 'object' and 'object' not in c.mod.defs:
                continue
            k = self.cls_of(c.mod, b)
            if k is None:
                return None
            out.append(k)
        return out

    def cls_of(self, mod, expr):
        r = self.resolve(mod, expr)
        if r and r[0] == 'def' and isinstance(r[2], ast.ClassDef):
            return self.classes.get((r[1].name, r[2].name))
        return None

    def resolve(self, mod, expr):
        """what an expression of global names denotes"""
        if isinstance(expr, ast.Name):
            return self.member(mod.name, expr.id)
        if isinstance(expr, ast.Attribute):
            r = self.resolve(mod, expr.value)
            if r and r[0] == 'mod':
                return self.member(r[1], expr.attr)
        return None

    def ancestry(self, c, seen=None):
        """the class and all its bases in order; None when one is unknown"""
        out = [c]
        bs = self.bases(c)
        if bs is None:
            return None
        for b in bs:
            if b is c:
                return None
            r = self.ancestry(b)
            if r is None:
                return None
            out += [x for x in r if x not in out]
        return out

    def family(self, c):
        """bases and subclasses; None when not all are known"""
        a = self.ancestry(c)
        if a is None:
            return None
        out, todo = list(a), [c]
        while todo:
            for s in self.subs.get(todo.pop(), ()):
                if s not in out:
                    b = self.ancestry(s)
                    if b is None:
                        return None
                    out += [x for x in b if x not in out]
                    todo.append(s)
        return out

    def method(self, c, name):
        """(class, node) of a method by inheritance; None when there is none; False when unknown"""
        a = self.ancestry(c)
        if a is None:
            return False
        for k in a:
            if name in k.members:
                return k, k.members[name]
            if name in k.attrs:
                return False
        return None


def held(self):
    """attributes that only ever hold new objects of one class of the project, whatever object has them"""
    if not hasattr(self, '_held'):
        out, bad = {}, set()
        for m in self.mods.values():
            if m is None:
                continue
            known = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
                    a = n.targets[0].attr
                    known.add(n.targets[0])
                    c = self.cls_of(m, n.value.func) if isinstance(n.value, ast.Call) else None
                    if isinstance(n.value, ast.Constant) and n.value.value is None:
                        continue
                    if c is None or self.subs.get(c) or out.setdefault(a, c) is not c:
                        bad.add(a)
                elif isinstance(n, ast.ClassDef):
                    for s in n.body:
                        bad |= set([s.name]) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else set(x.id for x in ast.walk(s) if isinstance(x, ast.Name))
            bad |= set(n.attr for n in ast.walk(m.tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n not in known)
        self._held = {a: c for a, c in out.items() if a not in bad}
    return self._held


Program.held = held
OBJECT = set(dir(object)) | {'__dict__', '__name__', '__module__'}


def decorated(n):
    return [d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '?' for d in n.decorator_list]


def misfit(fn, call, skip):
    """why a call does not fit a function, None when it does or it is not known"""
    a = fn.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    need = len(a.posonlyargs + a.args) - skip - len(a.defaults)
    kw = [k.arg for k in call.keywords]
    if len(call.args) > len(pos) and not a.vararg:
        return '%d arguments for %d parameters' % (len(call.args), len(pos))
    names = set(pos) | set(x.arg for x in a.kwonlyargs)
    for k in kw:
        if k not in names and not a.kwarg:
            return 'no parameter %s' % k
        if k in pos[:len(call.args)]:
            return 'parameter %s given twice' % k
    missing = [p for p in pos[len(call.args):max(need, 0)] if p not in kw]
    missing += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in kw]
    if missing:
        return 'no argument for %s' % ', '.join(missing)
    return None


class Checker(object):
    """walks one module; report(kind, ok, where node, scope, text)"""
    def __init__(self, prog, mod, report, sites=()):
        self.p, self.m, self.report = prog, mod, report
        self.given_names = set()
        self.lost = False
        for t in mod.stars:
            if not prog.is_project(t):
                r = star_names(t, sites)
                if r is None:
                    self.lost = True
                else:
                    self.given_names |= r
        self.star_ext = any(not prog.is_project(s) for s in mod.stars)

    def run(self):
        self.imports()
        self.scope(self.m.tree.body, '', None, None, {}, set())

    def say(self, kind, ok, node, scope, text):
        self.report(kind, ok, self.m, node, scope, text)

    def imports(self):
        for n in ast.walk(self.m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name.split('.')[0] in PKGS and (self.p.is_module(a.name) or a.name.split('.')[0] != 'libs'):
                        self.say('import', self.p.is_module(a.name), n, '', 'there is no module %s' % a.name)
            elif isinstance(n, ast.ImportFrom):
                base = self.m.relative(n)
                if base.split('.')[0] in PKGS:
                    there = self.p.is_module(base)
                    if not there and base.split('.')[0] == 'libs':
                        # a library built elsewhere
                        continue
                    for a in n.names:
                        ok = there and (a.name == '*' or self.p.member(base, a.name) is not None)
                        self.say('import', ok, n, '', 'there is no %s in %s' % (a.name, base))

    # ---- scopes -----------------------------------------------------------
    def scope(self, body, name, cls, selfname, types, locs):
        """statements of one function, class or module"""
        for st in body:
            self.visit(st, name, cls, selfname, types, locs)

    def visit(self, n, name, cls, selfname, types, locs):
        if isinstance(n, ast.ClassDef):
            c = self.p.classes.get((self.m.name, n.name)) if not name else None
            for x in n.bases + n.decorator_list:
                self.visit(x, name, cls, selfname, types, locs)
            inner = locs if not name else locs
            for s in n.body:
                if isinstance(s, ast.FunctionDef):
                    self.function(s, (name + '.' if name else '') + n.name, c, locs | members(n))
                else:
                    self.visit(s, (name + '.' if name else '') + n.name, None, None, {}, locs | members(n))
            return
        if isinstance(n, ast.FunctionDef):
            self.function(n, name, cls if name and cls else None, locs, nested=selfname)
            return
        if isinstance(n, ast.Lambda):
            inner = locs | set(x.arg for x in args_of(n.args))
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d, name, cls, selfname, types, locs)
            t = {k: v for k, v in types.items() if k not in inner or k in locs and k not in set(x.arg for x in args_of(n.args))}
            self.visit(n.body, name, cls, selfname if selfname not in set(x.arg for x in args_of(n.args)) else None, t, inner)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.name(n, name, locs)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = locs | set(x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name))
            for x in ast.iter_child_nodes(n):
                self.visit(x, name, cls, selfname, types, inner)
            return
        if isinstance(n, ast.Attribute):
            self.attribute(n, name, cls, selfname, types, locs)
        if isinstance(n, ast.Call):
            self.call(n, name, cls, selfname, types, locs)
        for x in ast.iter_child_nodes(n):
            self.visit(x, name, cls, selfname, types, locs)

    def function(self, fn, name, cls, locs, nested=None):
        q = (name + '.' if name else '') + fn.name
        for x in fn.decorator_list + fn.args.defaults + [x for x in fn.args.kw_defaults if x]:
            self.visit(x, q, None, None, {}, locs)
        params = [x.arg for x in args_of(fn.args)]
        # the names of a class body are not seen by its methods
        inner = set(params) | stored(fn) | (locs - members_only(locs))
        static = 'staticmethod' in decorated(fn) or 'classmethod' in decorated(fn)
        selfname = (params[0] if params and not static else None) if cls is not None and nested is None else nested if nested not in params else None
        if selfname and any(isinstance(x, ast.Name) and x.id == selfname and isinstance(x.ctx, ast.Store) for x in ast.walk(fn)):
            selfname = None
        self.scope(fn.body, q, cls, selfname, self.types(fn), inner)

    def types(self, fn):
        """local names that are only ever given a new object of one class"""
        out, bad = {}, set(x.arg for x in args_of(fn.args))
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                t = n.targets[0].id
                c = self.p.cls_of(self.m, n.value.func) if isinstance(n.value, ast.Call) else None
                if c is None or out.get(t, c) is not c:
                    bad.add(t)
                out[t] = c
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.setdefault(n.id, None)
        count = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                count[n.id] = count.get(n.id, 0) + 1
        asg = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                asg[n.targets[0].id] = asg.get(n.targets[0].id, 0) + 1
        return {t: c for t, c in out.items() if c is not None and t not in bad and count.get(t) == asg.get(t)}

    def name(self, n, scope, locs):
        if n.id in locs or n.id in self.m.defs or n.id in self.m.imports or hasattr(builtins, n.id) or n.id in ('__file__', '__name__', '__doc__', '__class__'):
            return self.say('name', True, n, scope, '')
        for s in self.m.stars:
            if self.p.is_project(s) and self.p.member(s, n.id) or n.id in self.given_names:
                return self.say('name', True, n, scope, '')
            if self.lost:
                return
        self.say('name', False, n, scope, 'the name %s is not defined anywhere' % n.id)

    def attribute(self, n, scope, cls, selfname, types, locs):
        if isinstance(n.value, ast.Name):
            v = n.value.id
            if selfname and v == selfname and cls is not None:
                if isinstance(n.ctx, ast.Load):
                    self.has(cls, n, scope)
                return
            if v in types:
                if isinstance(n.ctx, ast.Load):
                    self.has(types[v], n, scope)
                return
            if v in locs and scope:
                return
        r = self.p.resolve(self.m, n.value)
        if r and r[0] == 'mod' and self.p.is_project(r[1]) and isinstance(n.ctx, ast.Load):
            self.say('attribute', self.p.member(r[1], n.attr) is not None, n, scope, 'there is no %s in the module %s' % (n.attr, r[1]))
        elif r and r[0] == 'def' and isinstance(r[2], ast.ClassDef) and isinstance(n.ctx, ast.Load):
            c = self.p.classes.get((r[1].name, r[2].name))
            if c:
                a = self.p.ancestry(c)
                if a and not any(k.odd for k in a):
                    ok = any(n.attr in k.members or n.attr in k.attrs for k in a) or n.attr in OBJECT or n.attr in ('mro', '__subclasses__')
                    self.say('attribute', ok, n, scope, 'there is no %s in the class %s' % (n.attr, c.name))

    def has(self, c, n, scope):
        f = self.p.family(c)
        if f is None or any(k.odd for k in f):
            return
        ok = any(n.attr in k.members or n.attr in k.attrs for k in f) or n.attr in OBJECT or n.attr in self.given()
        self.say('attribute', ok, n, scope, 'an object of class %s has no %s' % (c.name, n.attr))

    def given(self):
        """attributes that are set on other objects than self"""
        if not hasattr(self.p, '_given'):
            g = set()
            for m in self.p.mods.values():
                for x in ast.walk(m.tree) if m else ():
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                        g.add(x.attr)
            self.p._given = g
        return self.p._given

    def call(self, n, scope, cls, selfname, types, locs):
        f = n.func
        # super().method(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and cls is not None:
            bs = self.p.bases(cls)
            if bs is None or self.p.ancestry(cls) is None:
                return
            for b in bs:
                r = self.p.method(b, f.attr)
                if r is False:
                    return
                if r:
                    return self.fits(r[1], n, scope, f.attr, 1, r[1])
            if f.attr == '__init__':
                return self.say('call', not n.args and not n.keywords, n, scope, 'object takes no arguments')
            self.say('call', f.attr in OBJECT, n, scope, 'no base class has %s' % f.attr)
            return
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            v = f.value.id
            k = cls if selfname and v == selfname else types.get(v)
            if k is not None:
                # any class of the family may be the one met
                r = self.p.method(k, f.attr)
                if not r:
                    return
                fam = self.p.family(k)
                mine = [r] if v in types and v != selfname else [(c, c.members[f.attr]) for c in fam or () if f.attr in c.members]
                if fam is None or any(f.attr in c.attrs for c in fam):
                    return
                why = [misfit(m, n, skip(m)) for c, m in mine if 'property' not in decorated(m)]
                if why:
                    self.say('call', not any(why), n, scope, '%s: %s' % (f.attr, next((w for w in why if w), '')))
                return
            if v in locs and scope:
                return
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Attribute) and isinstance(f.value.value, ast.Name) and selfname and f.value.value.id == selfname:
            k = self.p.held().get(f.value.attr)
            if k:
                r = self.p.method(k, f.attr)
                if r and 'property' not in decorated(r[1]) and self.p.ancestry(k):
                    return self.fits(r[1], n, scope, f.attr, skip(r[1]), r[1])
                if r is None and f.attr not in OBJECT and not any(c.odd for c in self.p.ancestry(k)):
                    return self.say('attribute', False, f, scope, 'an object of class %s has no %s' % (k.name, f.attr))
            return
        if isinstance(f, ast.Name) and f.id in locs and scope:
            return
        r = self.p.resolve(self.m, f)
        if r and r[0] == 'def':
            if isinstance(r[2], ast.FunctionDef):
                if not decorated(r[2]):
                    self.fits(r[2], n, scope, r[2].name, 0, r[2])
            else:
                c = self.p.classes.get((r[1].name, r[2].name))
                a = self.p.ancestry(c) if c else None
                if not a or any(k.odd for k in a) or any('__new__' in k.members for k in a):
                    return
                i = self.p.method(c, '__init__')
                if i:
                    self.fits(i[1], n, scope, c.name, 1, i[1])
                elif i is None:
                    self.say('call', not n.args and not n.keywords, n, scope, '%s takes no arguments' % c.name)
        elif isinstance(f, ast.Attribute):
            # Class.method(object, …)
            r = self.p.resolve(self.m, f.value)
            if r and r[0] == 'def' and isinstance(r[2], ast.ClassDef):
                c = self.p.classes.get((r[1].name, r[2].name))
                i = self.p.method(c, f.attr) if c else None
                if i:
                    d = decorated(i[1])
                    if not d or d == ['staticmethod'] or d == ['classmethod']:
                        self.fits(i[1], n, scope, '%s.%s' % (c.name, f.attr), 1 if d == ['classmethod'] else 0, i[1])

    def fits(self, fn, n, scope, name, sk, node):
        w = misfit(fn, n, sk)
        self.say('call', w is None, n, scope, '%s: %s' % (name, w))


def skip(m):
    return 0 if 'staticmethod' in decorated(m) else 1


def args_of(a):
    return a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]


class Member(str):
    """a name bound in a class body"""
    def __new__(cls, s):
        return str.__new__(cls, s)


def members(n):
    return set(Member(x) for s in n.body for x in (bound(s) if not isinstance(s, (ast.For, ast.If, ast.With, ast.Try, ast.While)) else
                                                   [y.id for y in ast.walk(s) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)]))


def members_only(locs):
    return set(x for x in locs if isinstance(x, Member))


def stored(fn):
    out = set()
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out.update(bound(n))
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        todo.extend(ast.iter_child_nodes(n))
    return out


# ---- reads before assignment --------------------------------------------
class Flow(object):
    """names that may be bound, and names bound on every path, at each read of a local variable"""
    def __init__(self, fn, report):
        self.report = report
        self.locals = stored(fn)
        self.branch, self.hidden, self.first, self.guards = {}, 0, 0, []
        self.fn = fn
        glob = set(x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names)
        comp = set()
        self.locals -= glob
        self.params = set(x.arg for x in args_of(fn.args))
        self.block(fn.body, (frozenset(self.params), frozenset(self.params)))

    def block(self, body, st):
        branch = {}
        for n in body:
            if st is None:
                return None
            saved = self.branch
            self.branch = dict(saved, **branch)
            new = self.stmt(n, st)
            self.branch = saved
            if new is not None:
                if isinstance(n, ast.If) and not n.orelse and const_truth(n.test) is None:
                    for x in new[0] - st[0]:
                        branch[x] = (n, len(self.guards))
                else:
                    for x in list(branch):
                        if any(isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Store) for y in ast.walk(n)):
                            del branch[x]
            st = new
        return st

    def tell(self, e, x, st, inner=()):
        may, must = x in st[0], x in st[1]
        branch = False
        if not must and x in self.branch and not inner and not self.hidden:
            cond, depth = self.branch[x]
            branch = self.open(cond.test) and all(self.independent(cond.test, g) for g in self.guards[depth:])
        if self.first:
            # the first round of a loop: only what happens in every round counts
            if not must and (branch or not may and not self.hidden and not inner and not self.guards[self.first - 1:]):
                self.report(e, may, must, True)
            return
        self.report(e, may, must, branch)

    def open(self, e):
        """may a condition turn out either way in the first round as well? (not when it looks at a counter, a flag or the variable of a loop)"""
        if not hasattr(self, 'fixed'):
            self.fixed = set()
            for n in ast.walk(self.fn):
                if isinstance(n, ast.For):
                    self.fixed |= set(x.id for x in ast.walk(n.target) if isinstance(x, ast.Name))
                elif isinstance(n, ast.Assign) and (isinstance(n.value, (ast.Constant, ast.UnaryOp)) or isinstance(n.value, (ast.List, ast.Tuple, ast.Dict, ast.Set)) and not list(ast.iter_child_nodes(n.value))[1:]):
                    self.fixed |= set(x.id for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Name))
                    self.fixed |= set(('.', x.attr) for t in n.targets for x in ast.walk(t) if isinstance(x, ast.Attribute))
                elif isinstance(n, ast.AugAssign):
                    self.fixed |= set(x.id for x in ast.walk(n.target) if isinstance(x, ast.Name))
        src = self.sources(e)
        return not src & self.fixed and any(isinstance(x, tuple) or x in self.params for x in src)

    def independent(self, a, b):
        """do two conditions depend on different things? (None: the body of a loop, which need not be entered)"""
        if b is None:
            return False
        return not (self.sources(a) & self.sources(b))

    def sources(self, e):
        out, todo = set(), [e]
        while todo:
            x = todo.pop()
            for n in ast.walk(x):
                k = ('.', n.attr) if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) and n.id != 'self' else None
                if k is None or k in out:
                    continue
                out.add(k)
                for s in ast.walk(self.fn):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.For, ast.AnnAssign)):
                        ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                        if any(isinstance(t, ast.Name) and t.id == k or isinstance(t, ast.Attribute) and ('.', t.attr) == k for y in ts for t in ast.walk(y)):
                            v = s.iter if isinstance(s, ast.For) else s.value
                            if v is not None:
                                todo.append(v)
                            # set in one branch: the condition of that branch counts as well
                            for i in ast.walk(self.fn):
                                if isinstance(i, (ast.If, ast.While)) and i is not s and any(z is s for z in ast.walk(i)):
                                    todo.append(i.test)
        return out

    @staticmethod
    def join(*sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        may, must = sts[0]
        for a, b in sts[1:]:
            may, must = may | a, must & b
        return may, must

    def bind(self, t, st):
        names = set(x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        return st[0] | names, st[1] | names

    def read(self, e, st, inner=frozenset()):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.locals and e.id not in inner and e.id not in self.params:
                self.tell(e, e.id, st, inner)
            return
        if isinstance(e, ast.Lambda):
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            names = inner | set(x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name))
            self.read(e.generators[0].iter, st, inner)
            for g in e.generators:
                for x in ([g.iter] if g is not e.generators[0] else []) + g.ifs:
                    self.read(x, st, names)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.read(x, st, names)
            return
        if isinstance(e, ast.NamedExpr):
            self.read(e.value, st, inner)
            return
        if isinstance(e, (ast.BoolOp, ast.IfExp)):
            first = e.values[0] if isinstance(e, ast.BoolOp) else e.test
            self.read(first, st, inner)
            self.hidden += 1
            for x in (e.values[1:] if isinstance(e, ast.BoolOp) else [e.body, e.orelse]):
                self.read(x, st, inner)
            self.hidden -= 1
            return
        for x in ast.iter_child_nodes(e):
            self.read(x, st, inner)

    def walrus(self, e, st):
        names = set(x.target.id for x in ast.walk(e) if isinstance(x, ast.NamedExpr)) if e is not None else set()
        return (st[0] | names, st[1] | names) if names else st

    def stmt(self, n, st):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            return st[0] | {n.name}, st[1] | {n.name}
        if isinstance(n, ast.Assign):
            self.read(n.value, st)
            st = self.walrus(n.value, st)
            for t in n.targets:
                self.read(t, st)
                st = self.bind(t, st)
            return st
        if isinstance(n, ast.AugAssign):
            self.read(n.value, st)
            if isinstance(n.target, ast.Name) and n.target.id in self.locals and n.target.id not in self.params:
                self.tell(n.target, n.target.id, st)
            self.read(n.target, st)
            return self.bind(n.target, st)
        if isinstance(n, ast.AnnAssign):
            self.read(n.value, st)
            return self.bind(n.target, st) if n.value is not None else st
        if isinstance(n, ast.If):
            self.read(n.test, st)
            st = self.walrus(n.test, st)
            k = const_truth(n.test)
            self.guards.append(n.test)
            a = self.block(n.body, st) if k is not False else None
            b = self.block(n.orelse, st) if k is not True else None
            self.guards.pop()
            return self.join(a, b)
        if isinstance(n, (ast.For, ast.While)):
            forever = isinstance(n, ast.While) and const_truth(n.test) is True
            if isinstance(n, ast.For):
                self.read(n.iter, st)
            may = st[0] | set(x.id for s in ast.walk(n) for x in [s] if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
            first = (may, st[1])
            if isinstance(n, ast.While):
                self.read(n.test, first)
                first = self.walrus(n.test, first)
            else:
                first = self.bind(n.target, first)
            if not self.first:
                # what the first round finds
                self.guards.append(None)
                self.first = len(self.guards) + 1
                self.block(n.body, self.bind(n.target, st) if isinstance(n, ast.For) else self.walrus(n.test, st))
                self.first = 0
                self.guards.pop()
            self.guards.append(None)
            self.block(n.body, first)
            self.guards.pop()
            out = (may, st[1])
            o = self.block(n.orelse, out)
            brk = any(isinstance(x, ast.Break) for x in walk_loop(n))
            return None if forever and not brk else out if brk or o is None and brk else o
        if isinstance(n, ast.With):
            for i in n.items:
                self.read(i.context_expr, st)
                if i.optional_vars is not None:
                    st = self.bind(i.optional_vars, st)
            return self.block(n.body, st)
        if isinstance(n, ast.Try):
            may = st[0] | set(x.id for s in n.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
            self.guards.append(None)
            a = self.block(n.body, st)
            self.guards.pop()
            a = self.block(n.orelse, a) if a is not None else None
            outs = [a]
            for h in n.handlers:
                s = (may | ({h.name} if h.name else set()), st[1] | ({h.name} if h.name else set()))
                outs.append(self.block(h.body, s))
            j = self.join(*outs)
            if n.finalbody:
                e = (may, st[1])
                f = self.block(n.finalbody, self.join(j, e))
                if j is None or f is None:
                    return None if f is None or j is None else f
                return f[0] | j[0], f[1] | j[1]
            return j
        if isinstance(n, (ast.Return, ast.Raise)):
            for x in ast.iter_child_nodes(n):
                self.read(x, st)
            return None
        if isinstance(n, (ast.Break, ast.Continue)):
            return None
        if isinstance(n, ast.Delete):
            for t in n.targets:
                self.read(t, st)
            gone = set(t.id for t in n.targets if isinstance(t, ast.Name))
            for g in gone:
                if g in self.locals:
                    self.tell(n, g, st, True)
            return st[0] - gone, st[1] - gone
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            b = set(bound(n))
            return st[0] | b, st[1] | b
        for x in ast.iter_child_nodes(n):
            self.read(x, st)
            st = self.walrus(x, st)
        return st


def const_truth(e):
    return bool(e.value) if isinstance(e, ast.Constant) else None


def walk_loop(n):
    """nodes of a loop without those of loops inside it"""
    todo = list(n.body)
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))
        elif isinstance(x, (ast.For, ast.While)):
            todo.extend(x.orelse)


# ---- attribute names that nothing defines --------------------------------
def python_names():
    import types, importlib
    out = set()
    for t in (object, int, float, complex, str, bytes, bytearray, list, tuple, dict, set, frozenset, range, slice, type, type(lambda: 0),
              type((lambda: 0).__code__), type(x for x in ()), property, BaseException, OSError, SyntaxError, UnicodeDecodeError, StopIteration, KeyError,
              type(os), type(print), memoryview, type(Exception.__init__), type(OBJECT.add), ImportError, SystemExit):
        out |= set(dir(t))
    import io, re, collections
    for t in (io.TextIOWrapper, io.BufferedReader, io.BufferedWriter, io.FileIO, io.StringIO, io.BytesIO, type(re.compile('')), type(re.match('', '')), collections.OrderedDict,
              collections.Counter, collections.defaultdict, collections.deque):
        out |= set(dir(t))
    return out | {'__func__', '__self__', '__wrapped__', '__traceback__', '__cause__'} | set(dir(collections.namedtuple('x', 'a')))


def module_names(name):
    """attribute names reachable in a module of the standard library"""
    import importlib
    try:
        m = importlib.import_module(name)
    except Exception:
        return None
    out = set(dir(m))
    for v in list(vars(m).values()):
        if isinstance(v, type):
            out |= set(dir(v))
    return out


def library_names(root, sites):
    """identifiers in the sources of an installed library; None when it is not found"""
    for s in sites:
        p = os.path.join(s, root)
        files = []
        if os.path.isdir(p):
            for base, dirs, fs in os.walk(p):
                files += [os.path.join(base, f) for f in fs if f.endswith(('.py', '.pyi'))]
        elif os.path.exists(p + '.py'):
            files = [p + '.py']
        if files:
            out = set()
            for f in files:
                try:
                    t = ast.parse(open(f, encoding='utf-8', errors='replace').read())
                except (OSError, SyntaxError, ValueError):
                    return None
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        out.add(n.id)
                    elif isinstance(n, ast.Attribute):
                        out.add(n.attr)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                        out.add(n.name)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                        out.add(n.value)
                    elif isinstance(n, (ast.Import, ast.ImportFrom)):
                        out |= set((a.asname or a.name).split('.')[0] for a in n.names)
            return out
    return None


LARGE = ('numpy', 'matplotlib', 'scipy', 'pandas', 'PIL', 'bokeh')


def star_names(dotted, sites, depth=0):
    """the names `from dotted import *` brings in; None when that is not known"""
    if depth > 4:
        return None
    for s in sites:
        base = os.path.join(s, *dotted.split('.'))
        p = os.path.join(base, '__init__.py') if os.path.isdir(base) else base + '.py'
        if os.path.exists(p):
            try:
                m = Mod(dotted + ('.__init__' if os.path.isdir(base) else ''), p, p, open(p, encoding='utf-8').read())
            except (OSError, SyntaxError, ValueError):
                return None
            m.pkg = False
            for n in m.tree.body:
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__all__' for t in n.targets):
                    if isinstance(n.value, (ast.List, ast.Tuple)) and all(isinstance(e, ast.Constant) for e in n.value.elts):
                        return set(e.value for e in n.value.elts)
                    return None
            if '__getattr__' in m.defs or '__all__' in m.defs:
                return None
            out = set(x for x in m.defs if not x.startswith('_'))
            for t in m.stars:
                r = star_names(t, sites, depth + 1)
                if r is None:
                    return None
                out |= r
            return out
    return None


class Attributes(object):
    """which attribute names may exist at all, for each module of the project"""
    def __init__(self, prog, sites):
        import sys
        self.p, self.sites = prog, sites
        self.libs = {}
        self.std = getattr(sys, 'stdlib_module_names', ())
        self.own = set()
        self.methods = {}
        self.loose = set()
        for m in prog.mods.values():
            if m is None:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.own.add(n.attr)
                    self.loose.add(n.attr)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    self.own.add(n.name)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                    self.own.add(n.args[1].value)
                elif isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'namedtuple' or isinstance(n.func, ast.Attribute) and n.func.attr == 'namedtuple'):
                    for c in ast.walk(n):
                        if isinstance(c, ast.Constant) and isinstance(c.value, str):
                            self.own |= set(c.value.replace(',', ' ').split())
            self.own |= set(m.defs) | set(m.imports)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    for s in n.body:
                        if isinstance(s, ast.FunctionDef):
                            self.methods.setdefault(s.name, []).append(s)
                        else:
                            self.own |= set(x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
                            self.loose |= set(x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
        self.python = python_names()
        self.everything = None

    def known(self, m):
        """(names of the libraries an object met in m may come from, libraries of m that are not installed); the names of the large plotting libraries are not read"""
        if self.everything is None:
            self.everything = {}
            for k in self.p.mods.values():
                for r in self.roots(k) if k else ():
                    self.everything[r] = self.lib(r)
        out, mine = set(self.python), self.roots(m)
        for r, k in self.everything.items():
            if k is not None:
                out |= k
        return out, set(r for r in mine if self.everything.get(r) is None)

    def roots(self, m):
        out = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                out |= set(a.name for a in n.names)
            elif isinstance(n, ast.ImportFrom) and not n.level:
                out.add(n.module)
        res = set()
        for r in out:
            if self.p.is_module(r):
                continue
            res.add(r if r.split('.')[0] in self.std else r.split('.')[0] if r.split('.')[0] not in PKGS else r)
        return res

    def lib(self, r):
        if r not in self.libs:
            self.libs[r] = module_names(r) if r.split('.')[0] in self.std else None if r in LARGE else library_names(r, self.sites)
        return self.libs[r]

    def check(self, m, say):
        ext, mine = self.known(m)
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if n.attr in self.own or n.attr in ext:
                    say('attribute name', True, n, '')
                elif mine:
                    say('attribute name', None, n, 'the library %s is not installed' % ', '.join(sorted(mine)))
                else:
                    say('attribute name', False, n, 'nothing has an attribute %s' % n.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                a = n.func.attr
                if a in self.methods and a not in ext and a not in self.loose and not mine:
                    if isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
                        continue
                    r = self.p.resolve(m, n.func.value)
                    if r is not None:
                        continue
                    if any(x.name == a for k in self.p.mods.values() if k for x in k.tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))):
                        continue
                    why = [misfit(f, n, skip(f)) for f in self.methods[a] if 'property' not in decorated(f)]
                    if why:
                        say('call', not all(why), n, '%s: %s' % (a, why[0]))
                    elif all('property' in decorated(f) for f in self.methods[a]):
                        say('call', None, n, '%s is a property' % a)


# ---- format strings -------------------------------------------------------
def formats(tree, say):
    import string
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            try:
                fields = [f for _, f, spec, _ in string.Formatter().parse(n.func.value.value) if f is not None]
                nested = [spec for _, f, spec, _ in string.Formatter().parse(n.func.value.value) if spec and '{' in spec]
            except ValueError as e:
                say('format', False, n, 'the format is broken: %s' % e)
                continue
            if nested:
                continue
            heads = [f.split('.')[0].split('[')[0] for f in fields]
            auto = sum(1 for h in heads if h == '')
            nums = [int(h) for h in heads if h.isdigit()]
            names = [h for h in heads if h and not h.isdigit()]
            if auto and nums:
                say('format', False, n, 'numbered and automatic fields are mixed')
                continue
            need = max([auto] + [x + 1 for x in nums])
            lost = [x for x in names if x not in [k.arg for k in n.keywords]]
            say('format', need <= len(n.args) and not lost, n, 'the format needs %d values%s' % (need, ' and ' + ', '.join(lost) if lost else ''))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and isinstance(n.right, ast.Tuple):
            import re
            specs = re.findall(r'%(?:\((\w+)\))?[-#0 +]*(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])', n.left.value)
            if any(s[0] for s in specs) or any(isinstance(e, ast.Starred) for e in n.right.elts):
                continue
            need = sum((s[3] != '%') + (s[1] == '*') + (s[2] == '*') for s in specs)
            say('format', need == len(n.right.elts), n, 'the format takes %d values, not %d' % (need, len(n.right.elts)))
