"""Attributes an object has before they are read: what construction assigns, class by class."""
import ast
from .linkage import decorated


def first(fn):
    a = fn.args.posonlyargs + fn.args.args
    return a[0].arg if a and 'staticmethod' not in decorated(fn) and 'classmethod' not in decorated(fn) else None


def order(fn):
    """(position, kind, what, node) of what happens to self in a function, as written: load / store / call / super / escape"""
    me = first(fn)
    out = []
    if me is None:
        return out
    used = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            f = n.func
            end = (n.end_lineno, n.end_col_offset)
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == me:
                out.append((end, 'call', f.attr, n))
                used.add(f.value)
            elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                out.append((end, 'super', f.attr, n))
                for a in f.value.args:
                    for x in ast.walk(a):
                        used.add(x)
            elif isinstance(f, ast.Attribute) and f.attr == '__init__' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                out.append((end, 'base', f.value, n))
                used.add(n.args[0])
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            used.add(n.value)
            here = (n.lineno, n.col_offset)
            if isinstance(n.ctx, ast.Load):
                out.append((here, 'load', n.attr, n))
            elif isinstance(n.ctx, ast.Store):
                out.append((here, 'store', n.attr, n))
            else:
                out.append((here, 'del', n.attr, n))
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id == me and n not in used:
            out.append(((n.lineno, n.col_offset), 'escape', None, n))
    return sorted(out, key=lambda x: x[0])


class Inits(object):
    def __init__(self, prog):
        self.p = prog
        self.given = set()
        self.made = set()
        for m in prog.mods.values():
            if m is None:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    c = prog.cls_of(m, n.func)
                    if c is not None:
                        self.made.add(c)
            for top in ast.walk(m.tree):
                if isinstance(top, ast.FunctionDef):
                    me = first(top)
                    self.given |= {x.attr for x in ast.walk(top) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (
                        isinstance(x.value, ast.Name) and x.value.id in (me, 'self'))}
            self.given |= {x.attr for n in m.tree.body for x in ast.walk(n) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (
                isinstance(x.value, ast.Name) and x.value.id == 'self')}
        self.orders = {}

    def order(self, fn):
        if fn not in self.orders:
            self.orders[fn] = order(fn)
        return self.orders[fn]

    def setter(self, c, name):
        """the function that stores a property, None for plain attributes"""
        for k in self.p.ancestry(c):
            for n in k.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == name and any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in n.decorator_list):
                    return n
        return None

    def stores(self, c, fn, cls, seen):
        """attributes that running fn on an object of class c may assign; None when not known"""
        if (fn, c) in seen:
            return set()
        seen = seen | {(fn, c)}
        out = set()
        for pos, kind, what, n in self.order(fn):
            if kind == 'store':
                s = self.setter(c, what)
                if s is None:
                    out.add(what)
                    continue
                r = self.stores(c, s, cls, seen)
            elif kind == 'call':
                m = self.p.method(c, what)
                if m is False:
                    return None
                if m is None:
                    continue
                r = self.stores(c, m[1], m[0], seen)
            elif kind == 'load' and self.getter(c, what):
                m = self.getter(c, what)
                r = self.stores(c, m[1], m[0], seen)
            elif kind == 'super':
                a = self.p.ancestry(c)
                later = a[a.index(cls) + 1:] if cls in a else []
                m = next(((k, k.members[what]) for k in later if what in k.members), None)
                if m is None:
                    continue
                r = self.stores(c, m[1], m[0], seen)
            elif kind == 'base':
                k = self.p.cls_of(cls.mod, what)
                if k is None:
                    return None
                m = self.p.method(k, '__init__')
                if m is False:
                    return None
                if m is None:
                    continue
                r = self.stores(c, m[1], m[0], seen)
            elif kind == 'escape':
                up = n
                return None
            else:
                continue
            if r is None:
                return None
            out |= r
        return out

    def getter(self, c, name):
        m = self.p.method(c, name)
        return m if m and 'property' in decorated(m[1]) else None

    def methods(self, c):
        out = {}
        for k in self.p.ancestry(c):
            for nm, fn in k.members.items():
                out.setdefault(nm, (k, fn))
        return out

    def check(self, say):
        """say(mod, ok, node, class, attribute)"""
        for c in self.p.classes.values():
            a = self.p.ancestry(c)
            if a is None or any(k.odd for k in self.p.family(c) or [c]) or self.p.family(c) is None:
                continue
            if self.p.subs.get(c) and c not in self.made:
                continue
            i = self.p.method(c, '__init__')
            if i is False:
                continue
            built = self.stores(c, i[1], i[0], frozenset()) if i else set()
            if built is None:
                continue
            ms = self.methods(c)
            may = {}
            for nm, (k, fn) in ms.items():
                if nm != '__init__':
                    may[nm] = self.stores(c, fn, k, frozenset())
            for nm, (k, fn) in ms.items():
                if nm == '__init__' or first(fn) is None or any(isinstance(d, ast.Attribute) for d in fn.decorator_list):
                    continue
                self.reads(c, k, nm, fn, built, may, ms, say)

    def reads(self, c, k, nm, fn, built, may, ms, say):
        fam = self.p.ancestry(c)
        text = {x.value for x in ast.walk(fn) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        tries = any(isinstance(x, ast.Try) for x in ast.walk(fn))
        sofar = set()
        unsure = False
        for pos, kind, what, n in self.order(fn):
            if kind == 'escape':
                unsure = True
            if kind == 'store':
                sofar.add(what)
                if self.setter(c, what):
                    sofar |= self.stores(c, self.setter(c, what), k, frozenset()) or set()
            elif kind in ('call', 'super'):
                s = may.get(what)
                if what in ms and s is None and what != '__init__':
                    unsure = True
                sofar |= s or set()
            elif kind == 'load':
                g = self.getter(c, what)
                if g:
                    s = may.get(what)
                    if s is None:
                        unsure = True
                    sofar |= s or set()
                if any(what in x.members for x in fam) or any(what in self.classwide(x) for x in fam) or what in self.given and not self.skipped(c, what, built) or what in dir(object):
                    continue
                if what in built:
                    say(k.mod, True, n, c, what)
                    continue
                if what in sofar or what in text or tries or unsure:
                    continue
                assigners = [m for m, s in may.items() if s is None or what in s]
                own = may.get(nm)
                if not assigners:
                    # no method there is gives it a value
                    ok = False if any(what in x.attrs for x in fam) else None
                elif own is not None and what in own and not nm.startswith('_'):
                    ok = False              # looked at first, given a value by the same method afterwards
                else:
                    ok = None
                say(k.mod, ok, n, c, what)

    def skipped(self, c, what, built):
        """the constructor of a base class assigns it, and is not run"""
        i = self.p.method(c, '__init__')
        return what not in built and i and any('__init__' in k.members and k is not i[0] and
                                               any(kind == 'store' and w == what for pos, kind, w, n in self.order(k.members['__init__'])) for k in self.p.ancestry(c))

    def classwide(self, k):
        out = set()
        for n in k.node.body:
            if not isinstance(n, ast.FunctionDef):
                out |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                if isinstance(n, ast.ClassDef):
                    out.add(n.name)
        return out


def supers(prog, m, say):
    """super() and isinstance() get a class where one belongs"""
    def visit(n, cls, fn):
        for x in ast.iter_child_nodes(n):
            k, f = cls, fn
            if isinstance(x, ast.ClassDef):
                k, f = prog.classes.get((m.name, x.name)) if n is m.tree else None, None
            elif isinstance(x, (ast.FunctionDef, ast.Lambda)):
                f = fn or (x if isinstance(x, ast.FunctionDef) else None)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
                if x.func.id == 'super' and 'super' not in m.defs and k is not None and f is not None and x.args:
                    call(x, k, f)
                elif x.func.id == 'isinstance' and 'isinstance' not in m.defs and len(x.args) == 2:
                    kind(x, f)
            visit(x, k, f)

    def locals_(f):
        return {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | {y.id for y in ast.walk(f) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} if f is not None else set()

    def call(x, k, f):
        me = first(f)
        if len(x.args) == 1:
            return say('call', False, x, 'super(class) without the object reaches no method')
        a, b = x.args[:2]
        if isinstance(a, ast.Name) and a.id == me and me is not None:
            return say('call', False, x, 'the first argument of super is the object')
        r = prog.cls_of(m, a) if not (isinstance(a, ast.Name) and a.id in locals_(f)) else None
        if r is None:
            return
        anc = prog.ancestry(k)
        if isinstance(b, ast.Name) and prog.cls_of(m, b) is not None and b.id not in locals_(f) and 'classmethod' not in decorated(f):
            return say('call', False, x, 'the second argument of super is a class')
        if anc is not None:
            say('call', r in anc, x, 'super(%s, …) in the class %s, which is not derived from it' % (r.name, k.name))

    def kind(x, f):
        a, b = x.args
        loc = locals_(f)
        if isinstance(b, ast.Constant) and b.value is not None or isinstance(b, (ast.List, ast.Dict, ast.Set)):
            return say('call', False, x, 'isinstance() with something that is no class')
        ca = isinstance(a, ast.Name) and a.id not in loc and prog.cls_of(m, a)
        cb = isinstance(b, ast.Name) and b.id not in loc and prog.cls_of(m, b)
        if ca and isinstance(b, ast.Name) and b.id in loc:
            return say('call', False, x, 'isinstance() with the class first and the object second')
        if cb:
            say('call', True, x, 'isinstance(…, %s)' % cb.name)

    visit(m.tree, None, None)
