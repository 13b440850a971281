"""C35: what is given to be read, measured, stored or scored is not changed, and nothing is remembered from one call to the next."""
import ast
from ..memo import judged
from ..purity import Purity, EMPTY, CHANGERS

ORDER = {'sort', 'reverse'}
# what may be done: (depth, kinds) under the object given
NOTHING = ()
SORTED = ((1, ORDER),)
SCORES = ((3, None), (2, 'score'))
MARKS = ((3, None), (2, 'score'), (2, 'ignore'))
MD, RU, SO, CO, IN = 'metadata', 'metadata.probabilistic_rules', 'solution', 'corruption', 'interleaver'
READ = [
    (MD + '.metadata_collector', 'MetadataCollector.collect', NOTHING),
    (MD + '.metadata_collector', 'CorruptedProgramMetadataCollector.collect', NOTHING),
    (RU + '.rules', 'from_instruction_dict_to_list', NOTHING),
    (RU + '.rules', 'from_instruction_list_to_dict', NOTHING),
    (RU + '.rules', 'from_functions_to_list_and_addr', NOTHING),
    (SO + '.solution_io', 'SolutionWriter.write_binary', NOTHING),
    (SO + '.solution_quality', 'SolutionQuality.evaluate', SORTED),
    (SO + '.solution_quality', 'SolutionQuality.report', SORTED),
    (SO + '.solution_quality', 'SolutionQuality.solution_size', SORTED),
    (SO + '.solution_quality', 'SolutionQuality.highest_depth', SORTED),
    (SO + '.solution_quality', 'SolutionQuality.solution_count', SORTED),
    (SO + '.solution_quality', 'SolutionQuality.solution_count_bins', SORTED),
    ('=recover_program', 'print_report', SORTED),
    (IN + '.interleaver2d', 'interleave', NOTHING),
    (IN + '.interleaver2d', 'deinterleave', ((2, None), (3, None), (4, None))),      # takes the bits out of the packets
    (IN + '.interleaver2d', 'sucesive_packing', NOTHING),
    (CO + '.corruption', 'predict_corruption', NOTHING),
    (CO + '.corruption', 'save_corrupted_program_to_json', NOTHING),
    (CO + '.corruption', 'corrupt_all_bits_tuples', NOTHING),
    (RU + '.rules', 'ControlFlowBehavior.recover', SCORES),
    (RU + '.counting_rules', 'CountingRule.recover', SCORES),
    (RU + '.distance_rule', 'RegisterReadDistance.recover', SCORES),
    (MD + '.recuperator', 'ProbabilisticRecuperator.recover', MARKS),
    (MD + '.recuperator', 'Recuperator.recover', MARKS),
    ('probability.probabilities', 'indep_intersection', NOTHING),
    ('probability.probabilities', 'indep_events_union', NOTHING),
    ('compressor.shiftcompressor', 'ShiftCompressor.compress', NOTHING),
    ('compressor.shiftcompressor', 'SwapCompressor.compress', NOTHING),
    ('static_analysis.cfg', 'ARMControlFlowGraph.build', NOTHING),
]
STRUCTURE = {'add_node', 'add_nodes', 'add_edge', 'del_node', 'del_edge'}
GRAPH = [('static_analysis.dominators', 'build_dominator_tree'), ('static_analysis.ssa', 'build_dominance_frontier'), ('static_analysis.ssa', 'place_phi_nodes')]


def run(ctx):
    P = Purity(ctx.prog)
    ctx.functions |= {(f.mod.rel, f.qual) for f in P.funcs}
    ctx.part(given, P)
    ctx.part(graphs, P)
    ctx.part(made, P)
    ctx.part(kept, P)
    ctx.part(loops, P)


def allowed(rules, depth, kind):
    for d, k in rules:
        if d == depth and (k is None or isinstance(k, set) and kind in k or isinstance(k, str) and kind.startswith('.') and k in kind):
            return True
    return False


def roots(P, f):
    """the roots that stand for what was given: parameters, and attributes that keep what the constructor was given"""
    out = {}
    a = f.node.args
    me = a.args[0].arg if f.cls is not None and not f.is_static and a.args else None
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg != me:
            out[('param', x.arg)] = x.arg
    if f.cls is not None:
        for c in f.cls.mro():
            for g in list(c.setters.values()) + [m for m in c.methods.values() if m.name == '__init__']:
                for k, v in P.sums[g].holds.items():
                    for r, d, b in v:
                        if r[0] == 'param' and r[1] != g.node.args.args[0].arg and d == 0 and d >= b:
                            out[('self', k)] = r[1]
    return out


SKIP = {'progress_bar', 'model', 'counter'}


def given(ctx, P):
    for mod, qual, rules in READ:
        f = ctx.func(mod, qual, required=False)
        if f is None:
            ctx.unk('given', qual, mod, 'not found')
            continue
        s = P.sums[f]
        for root, name in sorted(roots(P, f).items()):
            if name in SKIP:
                continue
            wrong = [(d, k, w) for (r, d), ks in s.muts.items() if r == root for k, w in ks if not allowed(rules, d, k)]
            if wrong:
                d, k, w = sorted(wrong)[0]
                ctx.decide(False, 'given', f.qual, w, '%s changes %s at level %d (%s) in %s' % (f.qual, name, d, k, w))
            else:
                ctx.ok('given', f.qual, f.where(), '%s leaves %s as it was' % (f.qual, name))


def graphs(ctx, P):
    for mod, qual in GRAPH:
        f = ctx.func(mod, qual, required=False)
        if f is None:
            ctx.unk('graph', qual, mod, 'not found')
            continue
        for root, name in sorted(roots(P, f).items()):
            wrong = [(k, w) for (r, d), ks in P.sums[f].muts.items() if r == root and d == 0 for k, w in ks if k in STRUCTURE]
            ctx.decide(not wrong, 'graph', f.qual, wrong[0][1] if wrong else f.where(), 'nodes and edges of %s stay (%s)' % (name, wrong[0][0] if wrong else 'no change'))


def made(ctx, P):
    """constructors keep what they are given and do not change it"""
    for f in P.funcs:
        if f.name != '__init__' or f.cls is None:
            continue
        wrong = [(r[1], k, w) for (r, d), ks in P.sums[f].muts.items() if r[0] == 'param' and r[1] != f.node.args.args[0].arg and r[1] not in SKIP for k, w in ks]
        held = P.sums[f].holds
        for (r, d), ks in P.sums[f].muts.items():
            if r[0] == 'self':
                vs = [x for x in held.get(r[1], EMPTY) if x[0][0] == 'param']
                if vs and len(held.get(r[1])) == len(vs):
                    for rr, dd, b in vs:
                        if dd + d >= b and rr[1] not in SKIP:
                            wrong += [(rr[1], k, w) for k, w in ks]
        ctx.decide(not wrong, 'made', f.qual, wrong[0][2] if wrong else f.where(), '%s changes %s (%s)' % ((f.qual,) + wrong[0][:2]) if wrong else '%s leaves its arguments as they were' % f.qual)


def remembered(P, r, d, kind, where):
    """a change of a table of the class or module: True when it only remembers results under all that decides them"""
    if kind != '[]' or d != 0 or r[0] not in ('class', 'module'):
        return False
    if any(k != '[]' or dd != 0 for g in P.funcs for (rr, dd), ks in P.sums[g].muts.items() if rr == r for k, _ in ks):
        return False
    rel, line = where.rsplit(':', 1)
    hold = [g for g in P.funcs if g.mod.rel == rel and g.node.lineno <= int(line) <= (g.node.end_lineno or 0)]
    if not hold:
        return False
    return judged(max(hold, key=lambda g: g.node.lineno), int(line), r[2])


def kept(ctx, P):
    """nothing is kept in default arguments, classes and modules"""
    n = 0
    for f in P.funcs:
        for (r, d), ks in sorted(P.sums[f].muts.items(), key=str):
            for k, w in sorted(ks):
                if r[0] in ('class', 'module') and k == 'count':
                    continue
                if r[0] in ('default', 'class', 'module'):
                    n += 1
                    what = 'the default of %s' % r[1] if r[0] == 'default' else '%s.%s' % (r[1], r[2])
                    if r[0] == 'default' and len(r) > 2:
                        continue
                    ctx.decide(remembered(P, r, d, k, w), 'kept', f.qual, w, '%s changes %s (%s): what one call leaves there the next one finds' % (f.qual, what, k))
        for r, d, b in P.sums[f].ret:
            if r[0] == 'default' and len(r) == 2 and d >= b:
                ctx.decide(False, 'kept', f.qual, f.where(), '%s hands out the default of %s: all callers get the same object' % (f.qual, r[1]))
        for k, v in P.sums[f].holds.items():
            for r, d, b in v:
                if (r[0] == 'default' and len(r) == 2 or r[0] in ('class', 'module')) and d == 0 and d >= b:
                    changed = any(rr == ('self', k) and dd == 0 for g in P.funcs if g.cls is not None and f.cls is not None and (g.cls is f.cls or f.cls in g.cls.mro() or g.cls in f.cls.mro())
                                  for (rr, dd) in P.sums[g].muts) or any(
                        isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in CHANGERS and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == k
                        for g in P.funcs for x in ast.walk(g.node))
                    ctx.decide(False if changed else None, 'kept', f.qual, f.where(), '%s keeps %s in self.%s, which is changed' % (
                        f.qual, 'the default of %s' % r[1] if r[0] == 'default' else '%s.%s' % r[1:3], k))
    ctx.ok('kept', 'all functions', '', '%d functions analysed for what they keep in defaults, classes and modules' % len(P.funcs))


REMOVE = {'remove', 'pop', 'popitem', 'clear', 'discard', 'insert', 'popleft', 'appendleft'}


def loops(ctx, P):
    """no loop takes elements out of what it goes through"""
    n = 0
    for f in P.funcs:
        for lp in ast.walk(f.node):
            if not isinstance(lp, ast.For):
                continue
            base = lp.iter
            while isinstance(base, ast.Call) and isinstance(base.func, ast.Attribute) and base.func.attr in ('items', 'keys', 'values') and not base.args:
                base = base.func.value
            if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id in ('enumerate', 'reversed') and base.args:
                if base.func.id == 'reversed':
                    continue
                base = base.args[0]
            if not isinstance(base, (ast.Name, ast.Attribute, ast.Subscript)):
                continue
            if isinstance(base, ast.Subscript) and isinstance(base.slice, ast.Slice):
                continue
            n += 1
            key = ast.dump(base).replace('Store()', 'Load()')
            names = {x.id for x in ast.walk(base) if isinstance(x, ast.Name)}
            if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in names for st in lp.body for x in ast.walk(st)):
                continue
            for st, rest in simple(lp.body):
                hit = None
                for x in ast.walk(st):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in REMOVE and ast.dump(x.func.value) == key:
                        hit = x
                if isinstance(st, ast.Delete):
                    for t in st.targets:
                        if isinstance(t, ast.Subscript) and ast.dump(t.value).replace('Del()', 'Load()') == key:
                            hit = t
                if hit is not None and not any(isinstance(r, (ast.Break, ast.Return, ast.Raise)) for r in rest):
                    ctx.decide(False, 'loop', f.qual, '%s:%d' % (f.mod.rel, hit.lineno), 'the loop over %s changes it: %s' % (ast.unparse(base), ast.unparse(hit)[:80]))
    ctx.ok('loop', 'all loops', '', '%d loops over collections' % n)


def simple(body):
    """the simple statements of a loop body with what follows each in its block"""
    for i, st in enumerate(body):
        subs = [getattr(st, k) for k in ('body', 'orelse', 'finalbody') if isinstance(getattr(st, k, None), list)] + [h.body for h in getattr(st, 'handlers', [])]
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            continue
        if subs:
            for b in subs:
                for s, rest in simple(b):
                    yield s, list(rest) + list(body[i + 1:])
        else:
            yield st, body[i + 1:]
