"""C34: every file that is opened is closed, and the standard output put back, however a function is left."""
import ast
from ..typestate import Flow, closes, is_out, dotted, OTHER, OPENERS


def run(ctx):
    ctx.part(files)


def functions(ctx):
    for mn in sorted(ctx.prog.mods):
        m = ctx.prog.mods[mn]
        yield m, list(m.funcs.values()) + [f for k in m.classes.values() for f in k.methods.values()]


def files(ctx):
    found = 0
    for m, fs in functions(ctx):
        opens, shut = set(), {}
        for f in fs:
            c = closes(f.node)
            if c:
                shut[f.name] = c
        flows = {}
        for _ in range(3):                      # functions that hand an open file to their caller
            before = set(opens)
            for f in fs:
                if not any(isinstance(x, ast.Call) or is_out(x) for x in ast.walk(f.node)):
                    continue
                try:
                    flows[f] = Flow(f.node, opens - {f.name}, shut)
                except (RuntimeError, RecursionError) as e:
                    flows[f] = None
                    continue
                if flows[f].returned and not generator(f.node):
                    opens.add(f.name)
            if opens == before:
                break
        assigns = [f for f in fs if any(isinstance(x, (ast.Attribute,)) and isinstance(x.ctx, ast.Store) and is_out(x) for x in ast.walk(f.node))]
        for f, fl in flows.items():
            ctx.functions.add((f.where().rsplit(':', 1)[0] if f.where().rsplit(':', 1)[-1].isdigit() else f.where(), f.qual))
            if fl is None:
                ctx.unk('analysis', f.qual, f.where())
                continue
            ctx.paths += sum(len(v) for v in fl.exits.values())
            for k, n in fl.sites.items():
                found += 1
                loc = '%s:%d' % (f.where().rsplit(':', 1)[0], n.lineno) if ':' in f.where() else f.where()
                loc = '%s (%s)' % (loc, f.qual)
                if k in fl.escaped:
                    ctx.unk('closed', f.qual, loc, 'the file is handed over')
                    continue
                for kind, what in (('return', 'when the function returns'), ('raise', 'when the function fails')):
                    ctx.decide(not any(k in s.held for s in fl.exits[kind]), 'closed', f.qual, loc, '%s is closed %s' % (ast.unparse(n)[:60], what))
            if fl.outs:
                found += 1
                ends = [s.out == OTHER for s in fl.exits['return']]
                fails = [s.out == OTHER for s in fl.exits['raise']]
                alone = len([g for g in assigns if g is not f]) == 0
                if any(ends):
                    ctx.decide(False if alone or not all(ends) else None, 'restored', f.qual, f.where(), 'the standard output is put back when the function returns')
                else:
                    ctx.ok('restored', f.qual, f.where(), 'the standard output is put back when the function returns')
                    ctx.decide(not any(fails), 'restored', f.qual, f.where(), 'the standard output is put back when the function fails')
    if not found:
        ctx.unk('files', 'none')


def generator(fn):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn))
