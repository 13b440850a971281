"""C32: the dominator tree of the control flow graph gives every reachable block its immediate dominator (Lengauer and Tarjan)."""
from ..terms import *
from ..prove import prove, inconsistent
from ..engine import LoopItem, V0
from ..walk import Walk, before, inside, attr, says, straight, flat
from ..shape import has
from ..trans import at_init

MOD = 'static_analysis.dominators'
CFG = 'static_analysis.cfg'
DFS, EVAL = 'dominator_tree_dfs', 'dominator_eval'


def run(ctx):
    for p in (fields, dfs, ancestors, semis, buckets, finishing, tree):
        ctx.part(p)


def canon(t):
    """dom_semi_idx is the index of dom_semi; a field after a loop is that field"""
    if t.op == 'attr' and t.args[1] == 'dom_semi_idx':
        return mk('attr', mk('attr', t.args[0], 'dom_semi'), 'dom_idx')
    if t.op in ('out', 'hav') and isinstance(t.args[1], tuple) and len(t.args[1]) == 2 and isinstance(t.args[1][0], T) and \
            isinstance(t.args[1][1], str) and t.args[1][1] not in ('#',):
        return canon(mk('attr', t.args[1][0], t.args[1][1]))
    return t


def semi(x):
    return canon(mk('attr', x, 'dom_semi_idx'))


def of(x, name):
    return mk('attr', x, name)


def walks(ctx, name, opaque=(), limit=60, mod=MOD):
    f = ctx.func(mod, name)
    eng, sts = ctx.run(f, limit=limit, opaque_funcs=opaque)
    if not sts:
        ctx.unk('budget', name, f.where())
        return f, []
    return f, [Walk(eng, s, canon) for s in sts if s.exit[0] != 'raise']


def result_of(t, name):
    return isinstance(t, T) and t.op == 'call' and t.args[0].op == 'fn' and t.args[0].args[0].split(':')[-1].split('.')[-1] == name


def named(g, name):
    return any(x.op == 'attr' and x.args[1] == name for x in walk(g))


# ------------------------------------------------------------------ what a block starts with
def fields(ctx):
    c = ctx.cls(CFG, 'CFGBlock')
    f = c.find('__init__')
    eng, sts = ctx.run(f, limit=20, selfcls=c)
    me = mk('sym', f.node.args.args[0].arg)
    for s in sts or []:
        if s.exit[0] == 'raise':
            continue
        for name, want in (('dom_semi', me), ('dom_ancestor', NONE), ('idom', NONE), ('dom_parent', NONE)):
            v = s.heap.get((me, name))
            ctx.decide(None if v is None else True if v is want else False if v is NONE or v is me or num_val(v) is not None else None, 'start',
                       'CFGBlock.' + name, f.where(), 'a block starts with %s = %s' % (name, show(v) if v else None))
        v = s.heap.get((me, 'dom_idx'))
        ctx.decide(None if v is None or num_val(v) is None else num_val(v) < 0, 'start', 'CFGBlock.dom_idx', f.where(),
                   'a block that was not visited has a negative index: %s' % (show(v) if v else None))
    f = c.find('dom_semi_idx')
    if f is None:
        return ctx.unk('semi index', 'CFGBlock')
    eng, sts = ctx.run(f, limit=20, selfcls=c)
    me = mk('sym', f.node.args.args[0].arg)
    for s in sts or []:
        if s.exit[0] == 'return':
            v = flat(s.exit[1], None, None, canon)
            ctx.decide(True if v is semi(me) else False if v.op == 'attr' and v.args[1] == 'dom_idx' else None, 'semi index', 'CFGBlock.dom_semi_idx',
                       f.where(), 'the index of the semidominator: %s' % show(v))


# ------------------------------------------------------------------ the depth first search
def dfs(ctx):
    f, ws = walks(ctx, DFS)
    ps = [mk('sym', a.arg) for a in f.node.args.args]
    if len(ps) < 4:
        return ctx.unk('parameters', DFS, f.where())
    graph, node, visited, index = ps[:4]
    for w in ws:
        # the index of the node, and that of the nodes below
        ss = w.find('SetAttr', node, 'dom_idx')
        calls = w.called(DFS)
        v = ss[-1].a[2] if ss else None
        depth = v is index
        ctx.decide(False if not ss else True if depth or v.op == 'len' and v.args[0] is visited else None, 'index', DFS, f.where(),
                   'a visited node gets its index: %s' % (show(v) if v else None))
        ctx.decide(False if not calls else True, 'descends', DFS, f.where(), 'the search goes on below the node')
        for sp, a in calls:
            if len(a) < 3:
                ctx.unk('descends', DFS, sp.ev.loc)
                continue
            x = w.t(a[1])
            nxt = w.t(a[3]) if len(a) > 3 else const(0)
            if depth:
                d = num_val(sub(nxt, index))
                ctx.decide(None if d is None else d > 0, 'index', DFS + ' (below)', sp.ev.loc, 'a node below has a greater index: %s' % show(nxt))
            ctx.decide(True if w.t(a[0]) is graph and w.t(a[2]) is visited else None, 'shared', DFS, sp.ev.loc, 'the search below is on the same graph')
            # only nodes that were not visited; their parent is the node
            new = any(g.op == 'not' and g.args[0].op == 'in' and g.args[0].args[0] is x and g.args[0].args[1] is visited for g in sp.facts) or any(
                prove(sp.facts, cmp_gt(neg(of(x, 'dom_idx')))) for _ in (0,))
            ctx.decide(True if new else False if not any(has(g, visited) or has(g, of(x, 'dom_idx')) for g in sp.facts if g.op != 'ge0') else None,
                       'once', DFS, sp.ev.loc, 'only nodes that were not visited are entered')
            l = w.over_of(x)
            q = l.over if l is not None else None
            nb = q is not None and (q is of(node, 'successors') or q.op == 'call' and q.args[0].op == 'attr' and q.args[0].args[1] == 'neighbors')
            inc = q is not None and (q is of(node, 'predecessors') or q.op == 'call' and q.args[0].op == 'attr' and q.args[0].args[1] == 'incidents')
            ctx.decide(True if nb else False if inc else None, 'descends', DFS + ' (over)', sp.ev.loc, 'the search follows the successors')
            par = w.find('SetAttr', x, 'dom_parent')
            good = [p for p in par if p.a[2] is node and before(p, sp)]
            ctx.decide(True if good else False if not par or all(p.a[2] is not node and (p.a[2] is x or p.a[2].op == 'sym') for p in par) or
                       all(before(sp, p) for p in par) else None, 'parent', DFS, sp.ev.loc, 'the node is the parent of what is found below it')
        for p in w.find('SetAttr', None, 'dom_parent'):
            x = p.a[0]
            new = any(g.op == 'not' and g.args[0].op == 'in' and g.args[0].args[0] is x and g.args[0].args[1] is visited for g in p.facts)
            ctx.decide(True if new else False if any(g.op == 'in' and g.args[0] is x and g.args[1] is visited for g in p.facts) or not any(
                has(g, visited) for g in p.facts) else None, 'parent kept', DFS, p.ev.loc, 'a visited node keeps its parent')
        # edges
        for name, meth, other in (('predecessors', 'incidents', 'neighbors'), ('successors', 'neighbors', 'incidents')):
            ss = w.find('SetAttr', node, name)
            v = ss[-1].a[2] if ss else None
            while v is not None and v.op in ('copy', 'list') and v.args:
                v = v.args[0]
            m = v.args[0].args[1] if v is not None and v.op == 'call' and v.args[0].op == 'attr' else None
            some = filtered(w, v, meth, node) if v is not None and v.op == 'obj' else None
            ctx.decide(some if some is not None else False if not ss else True if m == meth and v.args[1] is node else False if m == other else None, name, DFS, f.where(),
                       'the %s of the node: %s' % (name, show(v) if v else None))
        # marked before going below
        marks = w.find('Append', visited, node)
        ctx.decide(True if marks and all(before(m, sp) for m in marks for sp, a in calls) else False if not marks or any(
            before(sp, m) for m in marks for sp, a in calls) else None, 'marked', DFS, f.where(), 'the node is marked before the search goes below it')
        # preorder
        r = w.t(w.s.exit[1])
        ext = [p for p in w.spots if p.kind in ('Extend', 'Append', 'Insert') and p.a[0] is r]
        below = [p for p in ext if any(result_of(x, DFS) for x in p.a[1:])]
        first = lists_of(w, r)
        ok = None
        if r.op == 'obj':
            mine = [p for p in ext if p.kind in ('Append', 'Insert') and p.a[-1] is node]
            if below and first is not None:
                if first and first[0] is node or mine and all(before(m, b) for m in mine for b in below if m.kind == 'Append'):
                    ok = True if all(b.kind == 'Extend' for b in below) and not [m for m in mine if m.kind == 'Insert'] else None
                elif not first and (not mine or all(before(b, m) for m in mine for b in below if m.kind == 'Append')) and not any(m.kind == 'Insert' for m in mine):
                    ok = False
            elif not below and calls and first is not None and not ext:
                ok = False
        ctx.decide(ok, 'preorder', DFS, f.where(), 'the result has the node, then what is found below it')


def filtered(w, lst, meth, node):
    """a list of all (True) or some (False) of the neighbours of the node"""
    puts = w.find('Append', lst)
    for q in puts:
        e = q.a[1]
        le = w.over_of(e)
        if le is None or le.over is None or le.over.op != 'call' or le.over.args[0].op != 'attr' or le.over.args[0].args[1] != meth or le.over.args[1] is not node:
            return None
        for fs, b, tr in w.paths(le):
            if any(getattr(z, 'kind', None) == 'Append' and w.t(z.a[0]) is lst for z in tr):
                continue
            own_ = [g for g in w.fs(b.facts) if g.op != 'ge0' and not (g.op == 'in' and g.args[0] is e and g.args[1] is le.over)]
            if all((g.args[0] if g.op == 'not' else g).op in ('in', 'eq0', 'isnone') and not any(y.op in ('call', 'mcall', 'hav', 'out') and y is not le.over for y in walk(g)) for g in own_) and own_:
                return False
            return None
    return True if len(puts) == 1 else None


def lists_of(w, r):
    """the elements a new list starts with"""
    for e in w.spots:
        if e.kind == 'NewList' and e.a[0] is r:
            c = e.ev.a[1] if len(e.ev.a) > 1 else None
            if isinstance(c, T) and c.op == 'seq':
                return tuple(w.t(x) for x in c.args)
    c = w.s.heap.get((r, '#'))
    while c is not None and c.op in ('cat',) and c.args:
        c = c.args[0]
    if c is not None and c.op == 'seq':
        return tuple(w.t(x) for x in c.args)
    for l in w.loops:
        v = l.loop.inits.get(('heap', (r, '#'))) if isinstance(l.loop.inits, dict) else None
        if isinstance(v, T) and v.op == 'seq' and not l.nest:
            return tuple(w.t(x) for x in v.args)
    return None


# ------------------------------------------------------------------ eval
def ancestors(ctx):
    f, ws = walks(ctx, EVAL)
    v = mk('sym', f.node.args.args[0].arg)
    anc = of(v, 'dom_ancestor')
    for w in ws:
        r = w.t(w.s.exit[1])
        root = any(g is mk('isnone', anc) for g in w.base)
        if root and not w.loops:
            ctx.decide(True if r is v else False if r.op in ('attr', 'const') else None, 'eval of a root', EVAL, f.where(), 'a node without ancestor is its own value: %s' % show(r))
            continue
        if r is v and not root and len(w.loops) == 1 and all(b.kind == 'next' for b in w.loops[0].loop.bodies) and \
                mk('isnone', of(anc, 'dom_ancestor')) not in w.base and not w.find('SetAttr'):
            ctx.decide(False, 'eval', EVAL, f.where(), 'the node itself whatever the semidominators above it')
            continue
        if len(w.loops) != 1 or r.op != 'out':
            ctx.decide(False if not w.loops and r is v and not root and not any(named(g, 'dom_ancestor') for g in w.base) else None, 'eval', EVAL, f.where(), 'the value %s' % show(r)[:100])
            continue
        L = w.loops[0].loop
        hv = {w.eng.key_name(k): h for k, h in L.hav.items() if h is not None and h.op == 'hav'}
        best = hv.get(r.args[1])
        if best is not None and all(w.t(w.eng.get_key(b.state, key)) is of(w.t(best), 'dom_ancestor') for key, h in L.hav.items() if h is best for b in L.bodies if
                                    w.eng.get_key(b.state, key) is not None):
            ctx.decide(False, 'eval', EVAL, f.where(), 'the last ancestor whatever the semidominators on the way')
            continue
        run_ = [(k, h) for k, h in hv.items() if h is not best and any(
            w.t(w.eng.get_key(b.state, key)) is of(w.t(h), 'dom_ancestor') for key, hh in L.hav.items() if hh is h for b in L.bodies if w.eng.get_key(b.state, key) is not None)]
        if best is None or len(run_) != 1 or len([h for h in hv.values()]) != 2:
            ctx.unk('eval', EVAL, f.where())
            continue
        a = run_[0][1]
        key = {h: k for k, h in L.hav.items() if h is not None}
        a0, b0 = w.t(at_init(w.eng, L, a)), w.t(at_init(w.eng, L, best))
        ta, tb = w.t(a), w.t(best)
        ctx.decide(True if b0 is v else None, 'eval start', EVAL, f.where(), 'the node itself is the first candidate: %s' % show(b0))
        more = of(ta, 'dom_ancestor')
        for b in L.bodies:
            fs = w.fs(b.facts)
            goes = neg_lit(mk('isnone', more)) in fs
            wide = neg_lit(mk('isnone', ta)) in fs and not goes
            ctx.decide(True if goes and a0 is anc else False if wide and a0 is anc else None, 'eval path', EVAL, f.where(),
                       'every ancestor but the root of the forest is considered')
            nb, na = w.t(w.eng.get_key(b.state, key[best])), w.t(w.eng.get_key(b.state, key[a]))
            ctx.decide(True if na is more else None if na is not ta else False, 'eval step', EVAL, f.where(), 'on to the ancestor: %s' % show(na))
            smaller = cmp_gt(sub(semi(tb), semi(ta)))
            if nb is ta:
                k = says(fs, cmp_ge(sub(semi(tb), semi(ta))))
                ctx.decide(k if k is not None else False if any(own(g, ta, tb) for g in fs) or open_(fs, ta, tb) else None, 'eval minimum', EVAL, f.where(), 'taken because its semidominator is not lower: %s' % ', '.join(show(g)[:60] for g in fs))
            elif nb is tb:
                k = says(fs, neg_lit(smaller))
                ctx.decide(k if k is not None else False if any(own(g, ta, tb) for g in fs) or open_(fs, ta, tb) else None, 'eval minimum', EVAL, f.where(), 'kept because no other is lower')
            else:
                ctx.unk('eval minimum', EVAL, f.where(), show(nb)[:80])


def open_(fs, a, b):
    """the path is known to the last literal: nothing else than fields of the two nodes decides"""
    return all(x.op in ('attr', 'poly', 'ge0', 'eq0', 'not', 'isnone', 'gt0', 'const', 'v0') or x is a or x is b or x.op in ('elem', 'sym') for g in fs for x in walk(subst(g, {a: mk('sym', 'a'), b: mk('sym', 'b')})))


def own(g, a, b):
    """the nodes themselves are compared, not their semidominators"""
    return g.op in ('ge0', 'not') and has(g, of(a, 'dom_idx')) and has(g, of(b, 'dom_idx')) and not has(g, semi(a)) and not has(g, semi(b))


# ------------------------------------------------------------------ build
def build(ctx):
    return walks(ctx, 'build_dominator_tree', (DFS, EVAL))


def vertices(w):
    for sp, a in w.called(DFS):
        return w.t(a[1]) if len(a) > 1 else None
    return None


def is_vertex(t):
    return result_of(t, DFS)


def semis(ctx):
    """predecessors that were reached; semidominators from the last vertex to the second"""
    f, ws = build(ctx)
    for w in ws:
        ss = [p for p in w.find('SetAttr', None, 'dom_semi')]
        evals = [(sp, w.t(a[0])) for sp, a in w.called(EVAL)]
        root = mk('sym', f.node.args.args[1].arg)
        d = [w.t(x) for sp, a in w.called(DFS) for x in a]
        ctx.decide(True if len(d) >= 3 and d[1] is root else None, 'search', 'build_dominator_tree', f.where(), 'the search starts at the root')
        if not ss:
            ctx.decide(False if not any(p.kind in ('CallUnknown',) and not isinstance(p.a[0], str) and p.a[0].op != 'attr' for p in w.spots) else None, 'semidominator',
                       'build_dominator_tree', f.where(), 'no semidominator is computed')
            continue
        for p in ss:
            x, v = p.a[0], p.a[2]
            good = None
            u = None
            if v.op == 'attr' and v.args[1] == 'dom_semi':
                u = v.args[0]
            m = [e for e in evals if inside_same(e[0], p)]
            if u is not None and result_of(u, EVAL):
                c = says(p.facts, cmp_gt(sub(semi(x), semi(u))))
                e = says(p.facts, cmp_ge(sub(semi(x), semi(u))))
                good = True if c or e else False if e is False or not any(has(g, semi(u)) and (has(g, semi(x)) or not other(g, x)) for g in p.facts) else None
                pred = u.args[1]
                l = w.over_of(pred)
                ov = l.over if l is not None else None
                ctx.decide(True if ov is of(x, 'predecessors') else False if ov is of(x, 'successors') else None, 'over predecessors', 'build_dominator_tree', p.ev.loc,
                           'every predecessor of the node is asked: %s' % (show(ov)[:80] if ov else None))
                reach = reachable(w, p, pred, x)
                ctx.decide(reach, 'reached predecessors', 'build_dominator_tree', p.ev.loc, 'only predecessors the search reached are asked')
            elif u is not None and u.op == 'elem':
                good = False
            elif result_of(v, EVAL):
                good = False
            ctx.decide(good, 'semidominator', 'build_dominator_tree', p.ev.loc, 'the lowest semidominator of what the predecessors evaluate to: %s' % show(v)[:80])
            # the order
            outer = [l for l, b in p.nest]
            ctx.decide(backwards(w, outer, x), 'order', 'build_dominator_tree', p.ev.loc, 'from the last vertex to the second')


def other(g, x):
    """the comparison is with the index of the node itself"""
    return g.op in ('ge0', 'eq0', 'not') and has(g, of(x, 'dom_idx')) and not has(g, semi(x))


def inside_same(p, q):
    return before(p, q) is not False


def reachable(w, p, pred, x):
    facts = p.facts
    if says(facts, cmp_ge(of(pred, 'dom_idx'))):
        return True
    if any(g.op == 'in' and g.args[0] is pred and is_vertex(g.args[1]) for g in facts):
        return True
    # the predecessors were restricted before
    for s in w.find('SetAttr', None, 'predecessors'):
        if before(s, p) is not True:
            continue
        n, lst = s.a[0], s.a[2]
        if lst.op != 'obj':
            return None
        l = w.over_of(n)
        if l is None or not is_vertex(l.over):
            return None
        puts = [q for q in w.find('Append', lst)]
        if not puts:
            return None
        out = True
        for q in puts:
            e = q.a[1]
            le = w.over_of(e)
            if le is None or le.over is not of(n, 'predecessors'):
                return None
            if says(q.facts, cmp_ge(of(e, 'dom_idx'))) or any(g.op == 'in' and g.args[0] is e and is_vertex(g.args[1]) for g in q.facts):
                # and every such predecessor is kept
                for fs, b, tr in w.paths(le):
                    kept = any(z.kind == 'Append' and w.t(z.a[0]) is lst for z in tr if hasattr(z, 'kind'))
                    if not kept and says(fs, cmp_gt(neg(of(e, 'dom_idx')))) is not True and not any(
                            g.op == 'not' and g.args[0].op == 'in' and g.args[0].args[0] is e for g in fs):
                        out = False if any(has(g, of(e, 'dom_idx')) for g in fs) and (says(fs, cmp_gt(neg(of(e, 'dom_idx')))) is None or not any(
                            y.op in ('call', 'mcall', 'hav', 'out') for g in fs if g.op in ('ge0', 'gt0', 'eq0') for y in walk(g) if not is_vertex(y))) else None
                        if out is False:
                            return False
                continue
            return False
        return out
    return False if not any(named(g, 'dom_idx') and has(g, pred) for g in facts if not has(g, of(of(x, 'dom_semi'), 'dom_idx'))) else None


def backwards(w, outer, x):
    """the node runs over the vertices from the last to the second"""
    for l in outer:
        q = l.loop.seq
        if l.elem is None or q is None or not has(x, l.elem):
            continue
        if q.op != 'range':
            return True if x is l.elem and False else None
        if x.op != 'index' or not is_vertex(x.args[0]) and x.args[0].op != 'obj':
            return None
        n = mk('len', x.args[0], V0)
        args = [w.t(a) for a in q.args]
        if len(args) == 1:
            args = [const(0), args[0]]
        if len(args) == 2:
            args.append(const(1))
        i = x.args[1]
        st = num_val(args[2])
        if i is not l.elem:
            # vertex[len - 1 - i], vertex[-i]
            first = subst(i, {l.elem: args[0]})
            slope = num_val(sub(subst(i, {l.elem: add(l.elem, const(1))}), i))
            if slope is None or st is None:
                return None
            cnt = sub(args[1], args[0])
            if slope * st == -1 and st == 1:
                last = sub(first, sub(cnt, const(1)))
                if first is sub(n, const(1)) and last is const(1):
                    return True
                if num_val(first) == -1 and cnt is sub(n, const(1)):
                    return True
            return None
        if st is None:
            return None
        if st > 0:
            return False
        if st == -1 and args[0] is sub(n, const(1)) and args[1] is const(0):
            return True
        if num_val(sub(n, args[0])) is not None and num_val(args[1]) is not None:
            return False
        return None
    return None


def buckets(ctx):
    """into the bucket of the semidominator, linked to the parent, and the bucket of the parent answered"""
    f, ws = build(ctx)
    B = 'build_dominator_tree'
    for w in ws:
        ss = w.find('SetAttr', None, 'dom_semi')
        puts = w.find('Append', attr('dom_bucket')) + w.find('Insert', attr('dom_bucket'))
        if not puts:
            ctx.decide(False if not w.find('SetAttr', None, 'dom_bucket') else None, 'bucket', B, f.where(), 'nothing is put into a bucket')
        for p in puts:
            x = p.a[-1]
            o = p.a[0].args[0]
            semi_of = o is of(x, 'dom_semi')
            late = all(before(s, p) is not False for s in ss)
            ctx.decide(True if semi_of and late else False if semi_of and ss and all(before(p, s) for s in ss) or o is of(x, 'dom_parent') or o is x else None, 'bucket', B, p.ev.loc,
                       'the node is in the bucket of its semidominator: %s' % show(o)[:80])
            ctx.decide(backwards(w, [l for l, b in p.nest], x), 'bucket of every node', B, p.ev.loc, 'every vertex but the root')
        links = w.find('SetAttr', None, 'dom_ancestor')
        doms = w.find('SetAttr', None, 'idom')
        nodes = {p.a[-1] for p in puts}
        ctx.decide(False if not links else None if not nodes else True if any(k.a[0] in nodes for k in links) else None, 'linked', B, f.where(), 'the node joins the forest')
        pops = [p for p in w.find('Pop', attr('dom_bucket'))]
        for k in links:
            v = k.a[2]
            ctx.decide(True if v is of(k.a[0], 'dom_parent') else False if v.op == 'attr' and v.args[1] in ('dom_semi', 'idom') or v is NONE else None, 'linked', B, k.ev.loc,
                       'its ancestor is its parent: %s' % show(v)[:80])
            inner = [d for d in doms if any(l.nest and d.nest[:len(k.nest)] == k.nest for l, b in d.nest)]
            early = [d for d in inner if before(d, k)]
            ctx.decide(False if early else True, 'linked first', B, k.ev.loc, 'before the bucket of the parent is answered')
        # answers
        first = [d for d in doms if d.a[2] is not NONE and not (d.a[2].op == 'attr' and d.a[2].args[1] == 'idom')]
        ctx.decide(False if not first else True, 'answered', B, f.where(), 'the bucket of the parent is answered')
        for d in first:
            v, r = d.a[0], d.a[2]
            e = [x for x in walk(conj_(d.facts)) if result_of(x, EVAL) and x.args[1] is v]
            if r.op == 'out' and e and not any(result_of(x, EVAL) for x in walk(r)):
                ctx.decide(False, 'answer', B, d.ev.loc, 'what an earlier loop ended with: %s' % show(r)[:80])
                continue
            u = r if result_of(r, EVAL) else e[0] if e else None
            if v.op in ('sym',) or u is None:
                ctx.unk('answer', B, d.ev.loc, show(r)[:80])
                continue
            lower = says(d.facts, cmp_gt(sub(semi(v), semi(u))))
            if result_of(r, EVAL):
                ok = (lower if lower is not None else None) if u.args[1] is v else None
                ctx.decide(ok, 'answer', B, d.ev.loc, 'what it evaluates to, when its semidominator is lower')
            elif r.op == 'attr' and r.args[1] in ('dom_parent', 'dom_semi', 'dom_ancestor'):
                own = r.args[0] is v
                right = own if r.args[1] == 'dom_semi' else not own
                no = says(d.facts, cmp_ge(sub(semi(u), semi(v))))
                ctx.decide(False if no is False or own and r.args[1] != 'dom_semi' else True if no and right else None, 'answer', B, d.ev.loc, 'its semidominator otherwise: %s' % show(r)[:80])
            else:
                ctx.unk('answer', B, d.ev.loc, show(r)[:80])
            # all of the bucket
            k = [k for k in links if d.nest[:len(k.nest)] == k.nest]
            if k and len(d.nest) == len(k[-1].nest) and of_bucket(w, v, pops):
                ctx.decide(False, 'bucket emptied', B, d.ev.loc, 'only one node of the bucket is answered')
            if v.op == 'index' and num_val(v.args[1]) is not None and d.nest and any(
                    p.kind in ('DelSlice', 'Clear') and p.a[0] is v.args[0] and p.nest == d.nest for p in w.spots):
                ctx.decide(False, 'bucket emptied', B, d.ev.loc, 'the rest of the bucket is thrown away')
        # whose bucket
        for p in pops:
            o = p.a[0].args[0]
            good = [k for k in links if o is of(k.a[0], 'dom_parent') or o is of(k.a[0], 'dom_ancestor')]
            ctx.decide(True if good else False if any(o is k.a[0] or o is of(k.a[0], 'dom_semi') for k in links) else None, 'bucket answered', B, p.ev.loc, 'the bucket of the parent: %s' % show(o)[:80])


def of_bucket(w, v, pops):
    """one of what is in a bucket"""
    return any(y.op == 'attr' and y.args[1] == 'dom_bucket' for y in walk(v)) or any(p.ev.a[-1] is v or w.t(p.ev.a[-1]) is v for p in pops if isinstance(p.ev.a[-1], T))


def conj_(facts):
    return mk('and_', *facts)


def finishing(ctx):
    """the deferred answers, from the second vertex to the last; the root has none"""
    f, ws = build(ctx)
    B = 'build_dominator_tree'
    root = mk('sym', f.node.args.args[1].arg)
    for w in ws:
        doms = w.find('SetAttr', None, 'idom')
        later = [d for d in doms if d.a[2].op == 'attr' and d.a[2].args[1] == 'idom']
        firsts = [d for d in doms if d not in later and d.a[2] is not NONE]
        ctx.decide(False if not later else True, 'deferred', B, f.where(), 'the deferred answers are looked up')
        for d in later:
            x = d.a[0]
            v = d.a[2]
            right = v is of(of(x, 'idom'), 'idom')
            ctx.decide(True if right else False if v is of(x, 'idom') or v.args[0] is of(x, 'dom_semi') or v.args[0] is of(x, 'dom_parent') else None, 'deferred answer', B, d.ev.loc, 'the dominator of what it evaluated to: %s' % show(v)[:100])
            eq = same(of(x, 'idom'), of(x, 'dom_semi'))
            k = True if any(g is neg_lit(e) for g in d.facts for e in eq) else False if any(g is e for g in d.facts for e in eq) else None
            if k is None and not any(named(g, 'dom_semi') for g in d.facts):
                k = False
            ctx.decide(k, 'deferred nodes', B, d.ev.loc, 'when its dominator is not its semidominator')
            ctx.decide(False if any(before(d, e) or [l for l, b in e.nest] == [l for l, b in d.nest] for e in firsts) else True, 'deferred last', B, d.ev.loc, 'after every bucket was answered')
            inner = [l for i, (l, b) in enumerate(d.nest) if i and l.loop.seq is None and not has(x, l.loop.iota) and w.over_of(x) is not l and any(has(x, l2.elem) for l2, b2 in d.nest[:i] if l2.elem is not None)]
            if inner:
                ctx.decide(False if all(any(g is neg_lit(e) for e in eq for g in w.fs(b.facts)) for l in inner for b in l.loop.bodies) else None, 'deferred answer', B, d.ev.loc, 'looked up again and again')
            ctx.decide(forwards(w, d, x), 'deferred order', B, d.ev.loc, 'from the second vertex to the last')
        none = [d for d in doms if d.a[2] is NONE]
        ctx.decide(True, 'root', B, f.where(), 'the root keeps no dominator') if not none else None
        for d in none:
            x = d.a[0]
            ctx.decide(True if x is root or x.op == 'index' and num_val(x.args[1]) == 0 and is_vertex(x.args[0]) else False if x.op == 'index' and num_val(x.args[1]) is not None and is_vertex(x.args[0]) else None,
                       'root', B, d.ev.loc, 'only the root has no dominator: %s' % show(x)[:60])


def same(a, b):
    return [e for e in (cmp_eq(a, b), cmp_eq(b, a), mk('is', a, b), mk('eq', a, b), mk('eq', b, a)) if isinstance(e, T)]


def forwards(w, d, x):
    for l, b in d.nest:
        q = l.loop.seq
        if l.elem is None or q is None or not has(x, l.elem):
            continue
        if q.op == 'range' and x.op in ('index', 'elem') and (is_vertex(x.args[0]) or x.args[0].op == 'obj'):
            args = [w.t(a) for a in q.args]
            args = [const(0)] + args if len(args) == 1 else args
            st = num_val(args[2]) if len(args) > 2 else 1
            n = mk('len', x.args[0], V0)
            if st is not None and st < 0:
                return False
            if x.args[1] is l.elem or x.op == 'elem':
                if args[1] is not n and num_val(sub(n, args[1])) is not None and num_val(sub(n, args[1])) > 0:
                    return False
                if num_val(args[0]) is not None and num_val(args[0]) > 1:
                    return False
                return True if st == 1 and args[1] is n else None
            return None
        if x is l.elem and q.op == 'reversed':
            return False
        return True if x is l.elem and (is_vertex(q) or q.op == 'slice') else None
    return None


def tree(ctx):
    """a child below its dominator"""
    f, ws = build(ctx)
    B = 'build_dominator_tree'
    graph = mk('sym', f.node.args.args[0].arg)
    for w in ws:
        ss = w.find('Append', attr('dom_successors'))
        doms = w.find('SetAttr', None, 'idom')
        ctx.decide(False if not ss and not w.find('SetAttr', None, 'dom_successors') else True if ss else None, 'children', B, f.where(), 'the nodes below a dominator')
        for p in ss:
            x, o = p.a[1], p.a[0].args[0]
            ctx.decide(True if o is of(x, 'idom') else False if o is x or o.op == 'attr' and o.args[0] is x and o.args[1].startswith('dom_') else None, 'children', B, p.ev.loc,
                       'a node is below its dominator: %s' % show(o)[:60])
            l = w.over_of(x)
            if l is not None and (l.over is graph or is_vertex(l.over)):
                for fs, b, tr in w.paths(l):
                    put = any(getattr(z, 'kind', None) == 'Append' and w.t(z.a[0]) is p.a[0] for z in tr)
                    gone = mk('isnone', of(x, 'idom')) in fs or any(g.op == 'in' and g.args[0] is x and g.args[1] is p.a[0] for g in fs)
                    if not put and not gone and inconsistent(fs):
                        continue
                    ctx.decide(True if put or gone else False if not strange(fs, x, l) or not strange(fs, x, l, ('kind', '_kind', 'instructions', 'phi_functions', 'idx')) else None, 'every child', B, p.ev.loc, 'every node with a dominator is below it')
                    if put and gone and mk('isnone', of(x, 'idom')) in fs:
                        ctx.decide(False, 'every child', B, p.ev.loc, 'a node without dominator is below one')
            else:
                ctx.unk('every child', B, p.ev.loc)
            ctx.decide(False if any(before(p, d) for d in doms) else True, 'children last', B, p.ev.loc, 'once the dominators are known')
        flag = w.find('SetAttr', graph, '_has_computed_dominators')
        ctx.decide(None if not flag else True if flag[-1].a[2] is TRUE or flag[-1].a[2] is const(True) else False, 'done', B, f.where(), 'the graph says that its dominators were computed')
        # the tree that is returned
        r = w.t(w.s.exit[1])
        edges = [(p, a) for p, a in w.called('add_edge')]
        for p, a in edges:
            e = w.t(a[0]) if a else None
            if e is None or e.op != 'tuple' or len(e.args) != 2:
                ctx.unk('edge', B, p.ev.loc)
                continue
            u, v = e.args
            ctx.decide(True if u is of(v, 'idom') else False if v is of(u, 'idom') else None, 'edge', B, p.ev.loc, 'an edge from the dominator to the node: (%s, %s)' % (show(u)[:50], show(v)[:50]))
        ctx.decide(True if edges else False if w.called('add_node') else None, 'edge', B + ' (tree)', f.where(), 'the tree has its edges')


def strange(fs, x, l, plain=()):
    """something else than the loop and the dominator decides"""
    for g in fs:
        h = g.args[0] if g.op == 'not' else g
        if h.op == 'ge0' or h.op == 'in' and h.args[0] is x or h is mk('isnone', of(x, 'idom')):
            continue
        if h.op == 'truth' and named(h, 'has_edge'):
            continue
        if plain and h.op in ('eq0', 'truth') and all(y.op in ('poly', 'const', 'eq0', 'truth', 'v0') or y is x or has(x, y) or y.op == 'attr' and y.args[0] is x and y.args[1] in plain or y.op == 'len' for y in walk(h)):
            continue
        return True
    return False
