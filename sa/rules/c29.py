"""C29: the project's own code refers only to what exists."""
import ast, glob, os, re, warnings
from ..linkage import Program, Checker, Flow, Attributes, formats
from ..inits import Inits, supers

SITES = sorted(glob.glob('/opt/venv/lib/python3*/site-packages')) + sorted(glob.glob('/usr/lib/python3/dist-packages'))


def run(ctx):
    warnings.simplefilter('ignore')
    prog = Program(ctx.repo)
    attrs = Attributes(prog, SITES)
    ctx.part(objects, prog)
    for name in sorted(prog.mods):
        m = prog.mods[name]
        if m is None:
            ctx.unk('syntax', name)
            continue
        ctx.part(module, prog, attrs, m)


def objects(ctx, prog):
    seen = set()

    def say(m, ok, n, c, a):
        if (n, ok) in seen or ok is None:
            return
        seen.add((n, ok))
        ctx.decide(ok, 'initialised', '%s.%s' % (c.name, a), '%s:%d' % (m.rel, n.lineno), 'a new object of class %s has no %s' % (c.name, a))
    Inits(prog).check(say)


def module(ctx, prog, attrs, m):
    owners = {}

    def mark(n, q):
        for x in ast.iter_child_nodes(n):
            r = (q + '.' if q else '') + x.name if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else q
            owners[x] = r
            mark(x, r)
    mark(m.tree, '')

    def where(n):
        return '%s:%d' % (m.rel, n.lineno)

    def tell(rule, ok, n, what, text):
        construct = '%s:%s' % (owners.get(n) or m.name, what)
        if ok is None:
            return
        of = re.match('an object of class ([A-Za-z_0-9]+) has no ', text)
        if of:              # the class lacks it, wherever it is asked for
            construct = '%s:%s' % (of.group(1), what)
        ctx.decide(ok, rule, construct, where(n), text)

    def what(n):
        return n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else what(n.func) if isinstance(n, ast.Call) else type(n).__name__.lower()

    Checker(prog, m, lambda kind, ok, mod, n, scope, text: tell(kind, ok, n, what(n), text), SITES).run()
    attrs.check(m, lambda kind, ok, n, text: tell('attribute' if kind == 'attribute name' else kind, ok, n, what(n), text))
    supers(prog, m, lambda kind, ok, n, text: tell(kind, ok, n, what(n), text))
    formats(m.tree, lambda kind, ok, n, text: tell(kind, ok, n, 'format', text))
    for fn in ast.walk(m.tree):
        if isinstance(fn, ast.FunctionDef):
            Flow(fn, lambda e, may, must, branch: tell('assigned', False if not may or branch and not must else True if must else None, e, what(e),
                                                       'the variable %s has no value%s' % (what(e), ' when the condition before does not hold' if may else '')))
