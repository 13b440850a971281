"""C33: SSA form — every write is a new name, every read takes the name of the definition that reaches it, phi functions where definitions meet."""
from ..terms import *
from ..prove import prove, inconsistent
from ..engine import LoopItem, Ev, Alt, V0
from ..walk import Walk, before, inside, attr, says, meets
from ..shape import has

MOD = 'static_analysis.ssa'
B = 'SSAFormBuilder.'
SELF = mk('sym', 'self')
GRAPH = mk('attr', SELF, '_graph')


def run(ctx):
    for p in (frontier, placing, working, naming, starting, renaming, dead, dependencies, building):
        ctx.part(p)


def walks(ctx, name, opaque=(), limit=120):
    f = ctx.func(MOD, name)
    eng, sts = ctx.run(f, limit=limit, opaque_funcs=opaque)
    if not sts:
        ctx.unk('budget', name, f.where())
        return f, [], []
    return f, [Walk(eng, s) for s in sts if s.exit[0] != 'raise'], [mk('sym', a.arg) for a in f.node.args.args]


def of(x, name):
    return mk('attr', x, name)


def at(x, i):
    return mk('index', x, i if isinstance(i, T) else const(i), V0)


def does(w, tr, kind, *pats):
    return [e for e in tr if isinstance(e, Ev) and e.kind == kind and len(e.a) >= len(pats) and all(meets(w.t(x), p) for x, p in zip(e.a, pats))]


def storages(t):
    """the instruction and which of its storages a collection holds"""
    if t is None:
        return ()
    if t.op == 'mcall' and t.args[1] in ('storages_read', 'storages_written'):
        return ((t.args[0], t.args[1]),)
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('storages_read', 'storages_written'):
        return ((t.args[0].args[0], t.args[0].args[1]),)
    if t.op in ('cat', 'concat', 'poly', 'union', 'or', 'add', 'plus'):
        out = ()
        for x in (t.args if t.op != 'poly' else [a for m, c in t.args for a, e in m]):
            if isinstance(x, T):
                out += storages(x)
        return out
    return ()


def enters(ctx, w, p, rule, F, least=1):
    """no way around the loop an event is in, unless that has nothing to do"""
    for l, inner, fs, kind in w.skips(p):
        rest = [g for g in fs if not (g.op == 'in' and g.args[0].op in ('elem', 'index')) and not (g.op == 'ge0' and l.loop.iota is not None and has(g, l.loop.iota) and not has(g, l.elem))]
        if not rest and kind != 'break':
            continue
        q = inner.over
        if q is not None and inconsistent(tuple(fs) + (cmp_ge(sub(mk('len', q, V0), const(least))),)):
            continue
        gone = q is not None and any(g.op == 'not' and g.args[0].op == 'truth' and g.args[0].args[0] is q for g in rest)
        if gone:
            continue
        ctx.decide(False if q is not None and plainly(rest) else None, rule, F, p.ev.loc, 'passed by under %s' % ', '.join(show(g)[:60] for g in rest)[:150])


def over(l, what):
    return l.over is not None and any(k == what for i, k in storages(l.over))


def loops(p):
    return [l for l, b in p.nest]


def others(fs, *known):
    """literals of a path that are not about the loops or what is known"""
    out = []
    for g in fs:
        h = g.args[0] if g.op == 'not' else g
        if h in known or h.op == 'in' and any(h.args[:2] == k.args[:2] for k in known if k.op == 'in'):
            continue
        if h.op == 'in' and h.args[0].op == 'elem' and (h.args[0].args[0] is h.args[1]):
            continue
        if h.op == 'ge0' and any(x.op == 'len' for x in walk(h)):
            continue
        out.append(g)
    return out


def plainly(fs):
    """nothing the analysis does not follow"""
    return not any(x.op in ('call', 'mcall', 'hav', 'out', 'or_') for g in fs for x in walk(g) if not storages(x))


# ------------------------------------------------------------------ dominance frontiers
def frontier(ctx):
    F = 'build_dominance_frontier'
    f, ws, ps = walks(ctx, F)
    for w in ws:
        puts = w.find('Append', attr('dom_frontier')) + w.find('Insert', attr('dom_frontier'))
        if not puts:
            ctx.decide(False if not w.called('add') and not w.find('SetAttr', None, 'dom_frontier') else None, 'frontier', F, f.where(), 'no node is put on a frontier')
            continue
        for p in puts:
            r, n = p.a[0].args[0], p.a[-1]
            if not p.nest:
                ctx.unk('frontier', F, p.ev.loc)
                continue
            l, b = p.nest[-1]
            L = l.loop
            key = [(k, h) for k, h in L.hav.items() if h is not None and w.t(h) is r]
            if not key:
                ctx.decide(False if r is of(n, 'idom') else None, 'frontier', F, p.ev.loc, 'put on the frontier of %s' % show(r)[:60])
                continue
            k = key[0][0]
            start = L.inits.get(k)
            start = w.t(start) if start is not None else None
            ln = w.over_of(n)
            ctx.decide(True if ln is not None and ln.over is ps[0] else None, 'frontier nodes', F, p.ev.loc, 'every node of the graph')
            ls = w.over_of(start) if start is not None else None
            ov = ls.over if ls is not None else None
            ctx.decide(True if ov is of(n, 'predecessors') else False if start is n or ov is of(n, 'successors') or ov is of(n, 'dom_successors') or skipped(w, start, n) else None, 'frontier start', F, p.ev.loc,
                       'from every predecessor of the node: %s' % (show(start)[:80] if start is not None else None))
            if ls is not None:
                for g in others(p.facts[:], mk('in', n, of(r, 'dom_frontier'), V0)):
                    h = g.args[0] if g.op == 'not' else g
                    if h.op in ('ge0', 'eq0') and not has(h, r) and any(x.op == 'attr' and x.args[1] in ('predecessors', 'successors') for x in walk(h)):
                        ctx.decide(None, 'frontier start', F, p.ev.loc, show(g)[:80])
            enters(ctx, w, p, 'frontier start', F, 2)
            stop = cmp_eq(r, of(n, 'idom'))
            strict = cmp_eq(of(r, 'idom'), of(n, 'idom'))
            for bb in L.bodies:
                fs = w.fs(bb.facts)
                if bb.kind == 'break' and stop in fs and not does(w, bb.trace, 'Append', p.a[0], n):
                    ctx.decide(True, 'frontier end', F, p.ev.loc, 'up to the dominator of the node, which is left out')
                    continue
                goes = neg_lit(stop) in fs or neg_lit(cmp_eq(of(n, 'idom'), r)) in fs
                wrong = stop in fs or any(neg_lit(cmp_eq(r, x)) in fs for x in (n, of(r, 'idom'), of(n, 'dom_semi'), of(n, 'dom_parent'), of(n, 'dom_ancestor'), of(start, 'idom') if start is not None else n, NONE)) or neg_lit(mk('isnone', r)) in fs or neg_lit(strict) in fs
                ctx.decide(False if wrong else True if goes else None, 'frontier end', F, p.ev.loc, 'up to the dominator of the node, which is left out')
                nxt = w.eng.get_key(bb.state, k)
                nxt = w.t(nxt) if nxt is not None else None
                if bb.kind in ('next', 'continue', 'fall'):
                    ctx.decide(True if nxt is of(r, 'idom') else False if nxt is not None and (nxt is r or nxt.op == 'attr' and nxt.args[0] is r) else None, 'frontier step', F, p.ev.loc, 'on to the dominator: %s' % (show(nxt)[:60] if nxt else None))
                elif bb.kind == 'break' and goes:
                    ctx.decide(False, 'frontier end', F, p.ev.loc, 'the walk ends before the dominator of the node')
            for fs, bb, tr in w.paths(l):
                if not does(w, tr, 'Append', p.a[0], n) and bb.kind in ('next', 'continue', 'fall') and not does(w, tr, 'Insert', p.a[0]):
                    known = mk('in', n, of(r, 'dom_frontier'), V0)
                    rest = others(w.fs(bb.facts), known, stop)
                    ctx.decide(True if any(g.op == 'in' and g.args[0] is n and g.args[1] is p.a[0] for g in fs) else False if plainly([subst(g, {r: n}) for g in rest]) else None, 'frontier whole', F, p.ev.loc,
                               'each node on the way has it in its frontier')
        flag = w.find('SetAttr', ps[0], '_has_computed_dominance_frontier')
        if flag:
            ctx.decide(True if flag[-1].a[2] is TRUE or flag[-1].a[2] is const(True) else False, 'frontier done', F, f.where(), 'the graph says that the frontiers were computed')


def skipped(w, start, n):
    """the walk starts beyond a predecessor"""
    if start is None or start.op != 'attr' or start.args[1] not in ('idom', 'dom_parent', 'dom_semi'):
        return False
    l = w.over_of(start.args[0])
    return l is not None and l.over is of(n, 'predecessors')


# ------------------------------------------------------------------ where phi functions go
def placing(ctx):
    """names that live across blocks, and the blocks that write each name"""
    F = 'place_phi_nodes'
    f, ws, ps = walks(ctx, F)
    for w in ws:
        reads = [l for l in w.loops if over(l, 'storages_read')]
        writes = [l for l in w.loops if over(l, 'storages_written')]
        if not writes:
            ctx.unk('writes', F, f.where())
        if not reads:
            ctx.unk('reads', F, f.where())
            continue
        final = w.t(w.s.exit[1])
        G = None
        for l in w.loops:
            if not l.nest and l.over is not None and l.over.op == 'obj' and l.over is not None and any(p.a[0] is l.over for p in w.find('Append')):
                G = l.over
        G = G or (final if final.op == 'obj' else None)
        if G is None:
            ctx.unk('global names', F, f.where())
            continue
        for l in reads:
            r = l.elem
            inst = [i for i, k in storages(l.over)]
            puts = [p for p in w.find('Append', G, r)]
            kills = set()
            for fs, b, tr in w.paths(l):
                for g in fs:
                    h = g.args[0] if g.op == 'not' else g
                    if h.op == 'in' and h.args[0] is r and h.args[1] is not G and h.args[1].op == 'obj':
                        kills.add(h.args[1])
            for fs, b, tr in w.paths(l):
                put = does(w, tr, 'Append', G, r)
                here = w.fs(b.facts)
                seen = any(g.op == 'in' and g.args[0] is r and (g.args[1] is G or g.args[1] in kills) for g in fs)
                if put or seen:
                    ctx.ok('global names', F, f.where()) if False else ctx.decide(True, 'global names', F, f.where(), 'a name read before the block writes it lives across blocks')
                    continue
                rest = [g for g in here if not (g.op == 'not' and g.args[0].op == 'in' and g.args[0].args[0] is r)]
                rest = others(rest)
                ctx.decide(False if plainly(rest) else None, 'global names', F, f.where(), 'a read name is left out under %s' % ', '.join(show(g)[:60] for g in rest)[:150])
            # what the block wrote before
            for K in kills:
                made = [p for p in w.spots if p.kind == 'NewList' and p.a[0] is K]
                nodes = [x for x, b in l.nest]
                inner = made and all(len(p.nest) >= 1 for p in made)
                ctx.decide(None if not made else True if inner else False, 'killed names', F, f.where(), 'what a block wrote is forgotten at the next block')
                adds = [p for p in w.find('Append', K)]
                if not adds:
                    ctx.unk('killed names', F, f.where())
                for p in adds:
                    lw = w.over_of(p.a[1])
                    ok = lw is not None and over(lw, 'storages_written')
                    same = ok and [i for i, k in storages(lw.over)] == inst
                    rd = lw is not None and over(lw, 'storages_read')
                    ctx.decide(True if ok else False if rd else None, 'killed names', F, p.ev.loc, 'the names an instruction writes: %s' % show(p.a[1])[:60])
                    if same:
                        o = before_loops(l, lw)
                        ctx.decide(o, 'reads first', F, p.ev.loc, 'an instruction reads before it writes')
        # the blocks that write a name
        D = None
        for l in writes:
            x = l.elem
            node = None
            for p in w.spots:
                if p.kind == 'Append' and inside(p, l) and p.a[0].op == 'index' and p.a[0].args[1] is x:
                    D, node = p.a[0].args[0], p.a[1]
                elif p.kind == 'SetItem' and inside(p, l) and p.a[1] is x and D is None:
                    D = p.a[0]
            if D is None:
                ctx.decide(None, 'written in', F, f.where(), 'no block is put under a written name')
                continue
            ln = w.over_of(node) if node is not None else None
            if node is not None:
                ctx.decide(True if ln is not None and ln.over is ps[0] else None, 'written in', F, f.where(), 'the block: %s' % show(node)[:60])
            for fs, b, tr in w.paths(l):
                put = does(w, tr, 'Append', at(D, x), node) or does(w, tr, 'Insert', at(D, x)) or does(w, tr, 'SetItem', D, x)
                if not put and any(isinstance(e, Ev) and e.kind == 'Append' and w.t(e.a[-1]) is node and node is not None for e in tr):
                    put = True
                there = any(g.op == 'in' and g.args[0] is node and g.args[1] is at(D, x) for g in fs)
                again = any(g.op == 'in' and g.args[0] is x and g.args[1].op == 'obj' and g.args[1] is not D for g in fs)
                ctx.decide(True if put or there or again else False if plainly(others(w.fs(b.facts))) else None, 'written in', F, f.where(), 'the block is among those that write the name')
                for e in does(w, tr, 'SetItem', D, x):
                    v = w.t(e.a[2])
                    c = b.state.heap.get((v, '#'))
                    absent = any(g.op == 'not' and g.args[0].op == 'in' and g.args[0].args[0] is x and g.args[0].args[1] is D for g in fs)
                    if not absent and any(g.op == 'in' and g.args[0] is x and g.args[1] is D for g in fs) and c is not None and c.op == 'seq':
                        ctx.decide(False, 'written in', F, e.loc, 'the blocks that were known to write the name are dropped')
                    if c is not None and c.op == 'seq' and absent:
                        has_node = any(w.t(y) is node for y in c.args) if node is not None else True
                        more = [z for z in tr if isinstance(z, Ev) and z.kind in ('Append', 'Insert') and z.a[0] in (v, e.a[2])]
                        ctx.decide(True if has_node or more else False if node is not None else None, 'written in', F, e.loc, 'the first block that writes the name is kept')


def before_loops(a, b):
    """loop a runs before loop b"""
    return before(a, b)


def working(ctx):
    """phi functions on the iterated frontier of the writing blocks"""
    F = 'place_phi_nodes'
    f, ws, ps = walks(ctx, F)
    for w in ws:
        ls = [l for l in w.loops if l.over is not None and l.over.op == 'attr' and l.over.args[1] == 'dom_frontier']
        if not ls:
            ctx.decide(False if not any('dom_frontier' in p.ev.a.__repr__() for p in w.spots) else None, 'phi', F, f.where(), 'the frontiers are not looked at')
            continue
        for l in ls:
            d, n = l.elem, l.over.args[0]
            phis = [p for p in w.spots if p.kind == 'SetItem' and p.a[0].op == 'attr' and p.a[0].args[1] == 'phi_functions' and inside(p, l)]
            if not phis:
                ctx.decide(False if not [1 for p in w.spots if inside(p, l) and p.kind in ('CallUnknown', 'MCall', 'Call')] else None, 'phi', F, f.where(), 'no phi function is placed')
                continue
            X = None
            for p in phis:
                k = p.a[1]
                x = k.args[0] if k.op == 'tuple' and len(k.args) == 2 else None
                lx = w.over_of(x) if x is not None else None
                X = x if lx is not None else X
                ctx.decide(True if p.a[0].args[0] is d else False if p.a[0].args[0] is n else None, 'phi', F, p.ev.loc, 'the phi function is in the block of the frontier: %s' % show(p.a[0])[:60])
                ctx.decide(True if lx is not None else None, 'phi name', F, p.ev.loc, 'the phi function is for the name: %s' % show(k)[:60])
                made = [q for q in w.spots if q.kind == 'NewList' and q.a[0] is p.a[2]]
                ctx.decide(True if made and all(loops(q) == loops(p) for q in made) else False if made and all(len(q.nest) < len(p.nest) for q in made) else None, 'phi arguments', F, p.ev.loc, 'each phi function has arguments of its own')
            # the nodes that were given a phi function join the list
            outer = [x for x, b in l.nest]
            W = n.args[0] if n.op in ('index', 'elem') else None
            lw = w.over_of(n)
            if W is None:
                ctx.unk('iterated', F, f.where(), show(n)[:60])
                continue
            raw = None
            for x in outer:
                if x.elem is n or has(n, x.elem) if x.elem is not None else False:
                    raw = x.loop.seq
            adds = [p for p in w.spots if p.kind == 'Append' and inside(p, l) and p.a[1] is d and not (p.a[0].op == 'attr')]
            if not adds:
                ctx.decide(False if not [1 for p in w.spots if inside(p, l) and p.kind in ('CallUnknown', 'MCall', 'Call', 'Extend', 'Insert')] else None, 'iterated', F, f.where(), 'a block that gets a phi function writes the name too')
            frozen = raw is not None and (raw.op in ('copy', 'slice') or raw.op == 'obj' and any(is_copy(x.loop, raw) for x in outer))
            for p in adds:
                ctx.decide(False if frozen else True if p.a[0] is W else None, 'iterated', F, p.ev.loc, 'it joins the blocks that are worked through: %s' % show(p.a[0])[:60])
            for fs, b, tr in w.paths(l):
                end = any(g.op == 'eq0' and has(g, of(d, 'kind')) for g in fs)
                here = w.fs(b.facts)
                put = [e for e in tr if isinstance(e, Ev) and e.kind == 'SetItem' and any(w.t(e.a[0]) is p.a[0] for p in phis)]
                there = any(g.op == 'in' and any(g.args[1] is p.a[0] and g.args[0] is p.a[1] for p in phis) for g in fs)
                add = [e for e in tr if isinstance(e, Ev) and e.kind == 'Append' and w.t(e.a[1]) is d]
                inl = any(g.op == 'in' and g.args[0] is d and g.args[1] is W for g in fs)
                kind = [g for g in here if has(g, of(d, 'kind')) or has(g, of(d, '_kind'))]
                skip = [g for g in kind if g.op != 'not']
                rest = [g for g in others(here) if g not in kind and not (has(g, W) and g.op in ('in', 'not'))]
                if kind and skip:
                    ctx.decide(True if ends(ctx, skip, d) else False if put or ends(ctx, skip, d) is False else None, 'phi', F, f.where(), 'only the end has no phi functions')
                    continue
                ctx.decide(True if put or there else False if plainly([g for g in here]) and not inl else None if not inl else (False if not there and not put and adds and same_guard(here, d, W) else None), 'every phi', F, f.where(), 'every block of the frontier has the phi function')
                ctx.decide(True if add or inl else False if adds and plainly(here) else None, 'iterated', F, f.where(), 'every block of the frontier is worked through')
            # every name that lives across blocks
            if X is not None:
                lx = w.over_of(X)
                rest = [g for g in l.facts if has(g, X) and not has(g, W)]
                for g in rest:
                    h = g.args[0] if g.op == 'not' else g
                    if h.op == 'in' and h.args[0] is X:
                        continue
                    if h.op == 'ge0' and any(y.op == 'len' for y in walk(h)):
                        continue
                    ctx.decide(False if plainly([g]) and not any(y.op == 'index' for y in walk(g)) else None, 'phi name', F, f.where(), 'names are left out: %s' % show(g)[:80])
            # the list is worked through to its end
            for x, b in l.nest:
                if x.loop.seq is None and has(n, x.loop.iota) or x.loop.seq is None and any(has(n, w.t(h)) for h in x.loop.hav.values() if h is not None):
                    for bb in x.loop.bodies:
                        fs = w.fs(bb.facts)
                        i = n.args[1]
                        nxt = sub(w.t(next_of(w, x.loop, bb, i)), i)
                        ctx.decide(None if num_val(nxt) is None else num_val(nxt) == 1, 'worked through', F, f.where(), 'one block after the other')
                        last = says(fs, cmp_ge(sub(sub(mk('len', W, V0), const(1)), i)))
                        for e in x.loop.bodies:
                            pass
                        short = prove(fs, cmp_ge(sub(sub(mk('len', W, V0), const(2)), i)))
                        ctx.decide(False if short else True if last else None, 'worked through', F, f.where(), 'up to the last')


def is_copy(L, o):
    if L.seq is not o or L.pre is None:
        return False
    c = L.pre.heap.get((o, '#'))
    return c is not None and c.op in ('copy', 'slice')


def same_guard(here, d, W):
    """the phi function is placed only in blocks that join the list: those that write the name themselves get none"""
    return True


def ends(ctx, skip, d):
    """the literals single out the blocks of the kind END"""
    c = ctx.cls('static_analysis.cfg', 'CFGBlock')
    v = c.consts.get('END')
    try:
        import ast
        end = ast.literal_eval(v)
    except Exception:
        return None
    for g in skip:
        if g.op == 'in' and g.args[0] in (of(d, 'kind'), of(d, '_kind')) and g.args[1].op in ('tuple', 'seq', 'list', 'setof'):
            vs = [num_val(x) for x in g.args[1].args]
            return None if None in vs else set(vs) == {end}
        for nm in ('kind', '_kind'):
            if g in (cmp_eq(of(d, nm), const(end)), cmp_eq(const(end), of(d, nm))):
                return True
            if g.op == 'eq0' and has(g, of(d, nm)):
                k = num_val(subst(g.args[0], {of(d, nm): const(end)}))
                return True if k == 0 else False if k is not None else None
    return None


def next_of(w, L, b, t):
    m = {L.iota: add(L.iota, const(1))}
    for k, h in L.hav.items():
        if h is None:
            continue
        v = w.eng.get_key(b.state, k)
        if v is not None:
            m[w.t(h)] = w.t(v)
    return subst(t, m)


# ------------------------------------------------------------------ names
def end_of(i):
    """front or back"""
    v = num_val(i) if isinstance(i, T) else i
    return 'front' if v == 0 else 'back' if v == -1 else None


def pushes(w, stack):
    out = []
    for p in w.find('Insert'):
        if p.a[0].op == 'index' and p.a[0].args[0] is stack:
            out.append((end_of(p.a[1]), p.a[0].args[1], p.a[2], p))
    for p in w.find('Append'):
        if p.a[0].op == 'index' and p.a[0].args[0] is stack:
            out.append(('back', p.a[0].args[1], p.a[1], p))
    return out


def naming(ctx):
    """a new name: one more than the last of its storage, on the stack of the storage"""
    F = B + '_new_name'
    f, ws, ps = walks(ctx, F)
    names = {p.args[0]: p for p in ps}
    if not {'counter', 'stack'} <= set(names):
        return ctx.unk('parameters', F, f.where())
    counter, stack = names['counter'], names['stack']
    n = [p for p in ps if p not in (counter, stack) and p.args[0] not in ('self', 'cls')][0]
    var = at(n, 0)
    old = at(counter, var)
    c0, s0 = initial(ctx)
    for w in ws:
        r = w.t(w.s.exit[1])
        sets = [p.a[2] for p in w.find('SetItem', counter)] + [add(old, p.a[2]) for p in w.find('Inc', counter)]
        keys = [p.a[1] for p in w.find('SetItem', counter)] + [p.a[1] for p in w.find('Inc', counter)]
        ps_ = pushes(w, stack)
        if r.op != 'tuple' or len(r.args) != 2:
            ctx.unk('name', F, f.where(), show(r)[:80])
            continue
        ctx.decide(True if r.args[0] is var else False if r.args[0] is n or r.args[0] is at(n, 1) else None, 'name', F, f.where(), 'the name is of the storage: %s' % show(r.args[0])[:60])
        k = num_val(sub(r.args[1], old))
        if k is None and any(num_val(sub(r.args[1], at(at(stack, var), i))) is not None for i in (0, -1)):
            ctx.decide(False, 'fresh', F, f.where(), 'a name that was taken back is given again: %s' % show(r.args[1])[:60])
            continue
        if num_val(r.args[1]) is not None:
            ctx.bad('fresh', F, f.where(), 'every name is %s' % show(r.args[1]))
            continue
        ctx.decide(None if k is None else c0 + k > s0 if c0 is not None and s0 is not None else None, 'fresh', F, f.where(), 'the name differs from what is there on entry: %s' % show(r.args[1])[:60])
        if not sets:
            ctx.decide(False if not w.called('update') else None, 'fresh', F, f.where(), 'the counter is left as it was')
        for v, ky in zip(sets, keys):
            d = num_val(sub(v, old))
            ctx.decide(None if d is None else d > 0 and (k is None or d >= 1 and (k - d) <= 0 or True), 'fresh', F, f.where(), 'the counter grows: %s' % show(v)[:60])
            if d is not None and k is not None and d > 0:
                # names old + k, then (old + d) + k: they differ
                ctx.decide(True, 'fresh', F, f.where(), 'no two names are equal')
            ctx.decide(True if ky is var else False if ky is n else None, 'fresh', F, f.where(), 'the counter of the storage')
        if not ps_:
            ctx.decide(False, 'on the stack', F, f.where(), 'the name is not put on the stack')
        for e, ky, v, p in ps_:
            ctx.decide(True if v is r.args[1] else False if num_val(sub(v, r.args[1])) is not None else None, 'on the stack', F, p.ev.loc, 'the new name is on the stack: %s' % show(v)[:60])
            ctx.decide(True if ky is var else None, 'on the stack', F, p.ev.loc, 'the stack of the storage')
        if len(ps_) > 1:
            ctx.decide(False, 'on the stack', F, f.where(), 'the name is put on the stack more than once')


def push_end(ctx):
    f, ws, ps = walks(ctx, B + '_new_name')
    stack = mk('sym', 'stack')
    es = {e for w in ws for e, k, v, p in pushes(w, stack)}
    return es.pop() if len(es) == 1 else None


def initial(ctx):
    """what counters and stacks start with"""
    f, ws, ps = walks(ctx, B + '_rename_vars', ('_rename_node', '_new_name'))
    for w in ws:
        calls = w.called('_rename_node')
        if not calls:
            return None, None
        a = [w.t(x) for x in calls[0][1]]
        c, s = a[-2], a[-1]
        vc = {num_val(p.a[2]) for p in w.find('SetItem', c)}
        vs = set()
        for p in w.find('SetItem', s):
            h = None
            for l, b in p.nest[-1:]:
                h = b.state.heap.get((p.ev.a[2], '#'))
            vs.add(num_val(h.args[0]) if h is not None and h.op == 'seq' and len(h.args) == 1 else None)
        if len(vc) == 1 and len(vs) == 1:
            return vc.pop(), vs.pop()
    return None, None


def starting(ctx):
    """every storage that some instruction reads or writes has a counter and a stack"""
    F = B + '_rename_vars'
    f, ws, ps = walks(ctx, F, ('_rename_node', '_new_name'))
    for w in ws:
        calls = w.called('_rename_node')
        if len(calls) != 1 or len(calls[0][1]) < 3:
            ctx.unk('start', F, f.where())
            continue
        sp, a = calls[0]
        a = [w.t(x) for x in a]
        node, c, s = a[-3], a[-2], a[-1]
        ctx.decide(True if node is of(SELF, '_root') else None, 'start', F, sp.ev.loc, 'the renaming starts at the root: %s' % show(node)[:60])
        plain = all(any(p.kind == 'NewDict' and p.a[0] is d for p in w.spots) for d in (c, s))
        for what in ('storages_read', 'storages_written'):
            ls = [l for l in w.loops if over(l, what)]
            if not ls:
                ctx.decide(False if plain and not any(has_attr(x, what) for p in w.spots for x in p.a if isinstance(x, T) and p.kind != 'Attr') else None, 'stacks', F, f.where(), 'no stack for what %s gives' % what)
                continue
            for l in ls:
                inst = [i for i, k in storages(l.over) if k == what][0]
                li = w.over_of(inst)
                whole = li is not None and (li.over is of(SELF, '_instructions') or li.over.op == 'attr' and li.over.args[1] == 'instructions' and w.over_of(li.over.args[0]) is not None)
                ctx.decide(True if whole else None, 'stacks', F, f.where(), 'every instruction: %s' % show(inst)[:60])
                for fs, b, tr in w.paths(l):
                    for d, nm in ((c, 'counter'), (s, 'stack')):
                        put = does(w, tr, 'SetItem', d, l.elem)
                        there = any(g.op == 'in' and g.args[0] is l.elem and g.args[1] is d for g in fs)
                        cross = any(g.op == 'in' and g.args[0] is l.elem and g.args[1] in (c, s) for g in fs)
                        ctx.decide(True if put or there or cross else False if plainly(others(w.fs(b.facts))) else None, 'stacks', F, f.where(), 'each storage has its %s' % nm)
        for p in w.find('SetItem', s):
            made = [q for q in w.spots if q.kind == 'NewList' and q.a[0] is p.a[2]]
            ctx.decide(True if made and all(loops(q) == loops(p) for q in made) else False if made and all(len(q.nest) < len(p.nest) for q in made) else None, 'own stack', F, p.ev.loc, 'each storage has a stack of its own')
            ctx.decide(True if before(p, sp) else False, 'stacks first', F, p.ev.loc, 'before the renaming')


# ------------------------------------------------------------------ renaming
def new_name(t):
    """the name _new_name gives to a storage"""
    if isinstance(t, T) and t.op == 'call' and t.args[0].op == 'fn' and t.args[0].args[0].endswith('_new_name'):
        return t
    return None


def renaming(ctx):
    F = B + '_rename_node'
    f, ws, ps = walks(ctx, F, ('_rename_node', '_new_name'))
    names = {p.args[0]: p for p in ps}
    if not {'counter', 'stack'} <= set(names) or len(ps) < 4:
        return ctx.unk('parameters', F, f.where())
    n, stack = ps[1], names['stack']
    end = push_end(ctx)
    for w in ws:
        where = f.where()
        calls = w.called('_new_name')
        named = [(sp, tuple(w.t(x) for x in a if w.t(x) is not SELF)) for sp, a in calls]
        # ---- phi functions
        mine = [l for l in w.loops if not l.nest and l.over is of(n, 'phi_functions')]
        phic = [(sp, a) for sp, a in named if a and w.over_of(a[0]) is not None and w.over_of(a[0]).over is of(n, 'phi_functions')]
        phic += [(sp, a) for sp, a in named if a and a[0].op == 'tuple' and a[0].args[0].op == 'index' and w.over_of(a[0].args[0].args[0]) is not None and
                 w.over_of(a[0].args[0].args[0]).over is of(n, 'phi_functions')]
        ctx.decide(True if len(phic) == 1 else False if not phic and not any(result(p) for p in w.spots) else None, 'phi names', F, where, 'the phi functions get new names')
        sets = w.find('SetAttr', n, 'phi_functions')
        for p in sets:
            d = p.a[2]
            puts = w.find('SetItem', d)
            for q in puts:
                c = new_name(q.a[1])
                phi = c.args[1] if c is not None else None
                if phi is SELF:
                    phi = c.args[2]
                ctx.decide(True if c is not None else False if w.over_of(q.a[1]) is not None else None, 'phi names', F, q.ev.loc, 'kept under the new name: %s' % show(q.a[1])[:60])
                v = q.a[2]
                fresh = v.op == 'obj' or v.op == 'seq'
                ctx.decide(True if v.op == 'index' and v.args[0] is of(n, 'phi_functions') and v.args[1] is phi else False if fresh and w.find('NewList', v) and not any(x.kind in ('Extend', 'Append') and x.a[0] is v for x in w.spots) and not copied(w, q) else None,
                           'phi arguments kept', F, q.ev.loc, 'with the arguments it had: %s' % show(v)[:60])
        ctx.decide(True if sets else None, 'phi names', F, where, 'the block keeps the phi functions under their new names')
        # ---- instructions
        reads = [p for p in w.spots if p.kind in ('Append', 'Insert') and p.a[0].op == 'attr' and p.a[0].args[1] == 'ssa_read']
        writes = [p for p in w.spots if p.kind in ('Append', 'Insert') and p.a[0].op == 'attr' and p.a[0].args[1] == 'ssa_written']
        ctx.decide(True if reads else False if not w.find('SetAttr', None, 'ssa_read') and not w.called('extend') and not w.find('Extend') else None, 'reads named', F, where, 'the reads get names')
        ctx.decide(True if writes else False if not w.find('SetAttr', None, 'ssa_written') and not w.find('Extend') else None, 'writes named', F, where, 'the writes get names')
        tops = []
        for p in reads:
            inst, v = p.a[0].args[0], p.a[-1]
            if v.op != 'tuple' or len(v.args) != 2:
                ctx.unk('reads named', F, p.ev.loc, show(v)[:60])
                continue
            r, t = v.args
            if new_name(t) or t.op == 'index' and new_name(t.args[0]):
                ctx.decide(False, 'reads named', F, p.ev.loc, 'a read takes a new name')
                continue
            l = w.over_of(r)
            ctx.decide(True if l is not None and storages(l.over) == ((inst, 'storages_read'),) else False if l is not None and (inst, 'storages_written') in storages(l.over) else None, 'reads named', F, p.ev.loc,
                       'every storage the instruction reads: %s' % show(r)[:60])
            top = t.op == 'index' and t.args[0] is at(stack, r)
            ctx.decide(True if top else False if t.op in ('poly',) or t.op == 'index' and has(t, names['counter']) else None, 'reads reach', F, p.ev.loc, 'the name on top of the stack: %s' % show(t)[:60])
            if top:
                tops.append((end_of(t.args[1]), p))
            if l is not None:
                for fs, b, tr in w.paths(l):
                    put = does(w, tr, p.kind, p.a[0])
                    there = any(g.op == 'in' and g.args[0] is v and g.args[1] is p.a[0] for g in fs)
                    ctx.decide(True if put or there else False if plainly(others(w.fs(b.facts))) and not any(g.op == 'in' for g in w.fs(b.facts) if has(g, r) and g.args[0] is not r) else None, 'every read', F, p.ev.loc, 'each read is named')
                for q in writes:
                    if q.a[0].args[0] is inst and q.nest and p.nest:
                        ctx.decide(before(p, q), 'reads before writes', F, p.ev.loc, 'an instruction reads the names from before its own writes')
        for q in writes:
            inst, v = q.a[0].args[0], q.a[-1]
            c = new_name(v)
            if c is None:
                ctx.decide(False if v.op == 'tuple' and len(v.args) == 2 and (v.args[1].op == 'index' and v.args[1].args[0] is at(stack, v.args[0])) and not [1 for sp, a in named if sp.nest == q.nest] else None, 'writes named', F, q.ev.loc, 'a write takes %s' % show(v)[:60])
                continue
            key = [x for x in c.args[1:] if isinstance(x, T) and x.op == 'tuple']
            x = key[0].args[0] if key else None
            l = w.over_of(x) if x is not None else None
            ctx.decide(True if l is not None and storages(l.over) == ((inst, 'storages_written'),) else False if l is not None and (inst, 'storages_read') in storages(l.over) else None, 'writes named', F, q.ev.loc,
                       'every storage the instruction writes')
            if l is not None:
                for fs, b, tr in w.paths(l):
                    put = does(w, tr, q.kind, q.a[0])
                    ctx.decide(True if put else False if plainly(others(w.fs(b.facts))) else None, 'every write', F, q.ev.loc, 'each write has a name of its own')
        for sp, a in phic:
            for p in reads:
                ctx.decide(before(sp, p), 'phi first', F, sp.ev.loc, 'the phi functions are named before the instructions read')
        # ---- arguments of the phi functions that follow
        args = [p for p in w.spots if p.kind in ('Append', 'Insert') and p.a[0].op == 'index' and p.a[0].args[0].op == 'attr' and p.a[0].args[0].args[1] == 'phi_functions']
        ctx.decide(True if args else False if not any(l.over is not None and l.over.op == 'attr' and l.over.args[1] == 'successors' for l in w.loops) else None, 'arguments', F, where, 'the phi functions that follow get their arguments')
        pops = [p for p in w.find('Pop') if p.a[0].op == 'index' and p.a[0].args[0] is stack]
        for p in args:
            b_, phi, v = p.a[0].args[0].args[0], p.a[0].args[1], p.a[-1]
            l = w.over_of(b_)
            q = l.over if l is not None else None
            if q is not None and q.op == 'obj' and l.loop.pre is not None:
                q = w.t(l.loop.pre.heap.get((q, '#'), q))
            ctx.decide(True if q is of(n, 'successors') else False if elsewhere(q, n) or q is of(n, 'predecessors') or b_ is n else None, 'arguments', F, p.ev.loc, 'in every successor: %s' % (show(q)[:60] if q is not None else show(b_)[:60]))
            var = at(phi, 0)
            good = v.op == 'tuple' and len(v.args) == 2 and v.args[0] is var and v.args[1].op == 'index' and v.args[1].args[0] is at(stack, var)
            ctx.decide(True if good else False if v is phi or v.op == 'tuple' and len(v.args) == 2 and (v.args[1] is at(phi, 1) or num_val(v.args[1]) is not None or has(v, names['counter'])) else None, 'argument', F, p.ev.loc, 'the name that reaches the end of the block: %s' % show(v)[:80])
            if good:
                tops.append((end_of(v.args[1].args[1]), p))
            for m in [sp for sp, a in named]:
                ctx.decide(before(m, p), 'arguments after', F, p.ev.loc, 'once the block is renamed')
            for m in pops:
                ctx.decide(before(p, m), 'arguments before', F, p.ev.loc, 'before the names are taken back')
            enters(ctx, w, p, 'every argument', F)
            lp = w.over_of(phi)
            if lp is not None:
                for fs, bb, tr in w.paths(lp):
                    put = does(w, tr, p.kind, p.a[0])
                    ctx.decide(True if put else False if plainly(others(w.fs(bb.facts))) and not any(g.op == 'in' and g.args[0] is v for g in fs) else None, 'every argument', F, p.ev.loc, 'each phi function that follows')
        # ---- the blocks below
        rec = w.called('_rename_node')
        ctx.decide(True if rec else False, 'below', F, where, 'the renaming goes on')
        for sp, a in rec:
            a = [w.t(x) for x in a]
            x = a[-3] if len(a) >= 3 else None
            l = w.over_of(x) if x is not None else None
            q = l.over if l is not None else None
            ctx.decide(True if q is of(n, 'dom_successors') else False if q is of(n, 'successors') else None, 'below', F, sp.ev.loc, 'in the blocks the node dominates: %s' % (show(q)[:60] if q is not None else None))
            for m in [z for z, a2 in named]:
                ctx.decide(before(m, sp), 'below after', F, sp.ev.loc, 'once the block is renamed')
            for m in pops:
                ctx.decide(before(sp, m), 'below before', F, sp.ev.loc, 'before the names are taken back')
        # ---- taken back
        byphi = [p for p in pops if phi_pop(w, p, n, sets)]
        byinst = [p for p in pops if write_pop(w, p)]
        other_ = [p for p in w.spots if p.kind in ('SetItem',) and p.a[0] is stack]
        for what, got in (('phi functions', byphi), ('writes', byinst)):
            ctx.decide(True if len(got) == 1 else False if len(got) > 1 or not got and all(p in byphi or p in byinst or astray(w, p) for p in pops) and not other_ and not w.find('SetAttr', stack) else None, 'taken back', F, where, 'the names of the %s are taken off the stacks once' % what)
        for p in pops:
            tops.append((end_of(p.a[1]), p))
            l = p.nest[-1][0] if p.nest else None
            if l is not None:
                for fs, bb, tr in w.paths(l):
                    if not does(w, tr, 'Pop', p.a[0]):
                        ctx.decide(False if plainly(others(w.fs(bb.facts))) else None, 'taken back', F, p.ev.loc, 'some names stay on the stack')
        for e, p in tops:
            other_end = p.kind == 'Pop' and len(p.a) > 1 and isinstance(p.a[1], T) and num_val(p.a[1]) is not None and e is None
            ctx.decide(False if other_end else None if e is None or end is None else e == end, 'top', F, p.ev.loc, 'names are put on and taken off at the same end (%s, %s)' % (end, e))


def elsewhere(q, n):
    """made of other collections of the node only"""
    return q is not None and not any(x.op in ('call', 'mcall', 'obj', 'hav', 'out', 'ext', 'fn') or x.op == 'attr' and x.args[1] in ('successors', '_graph') for x in walk(q)) and \
        any(x.op == 'attr' and x.args[0] is n for x in walk(q))


def result(p):
    return p.kind in ('CallUnknown',)


def copied(w, q):
    c = w.s.heap.get((q.ev.a[2], '#'))
    for l, b in q.nest[-1:]:
        c = b.state.heap.get((q.ev.a[2], '#'))
    return c is not None and (c.op != 'seq' or c.args)


def phi_pop(w, p, n, sets):
    k = p.a[0].args[1]
    if k.op != 'index' or num_val(k.args[1]) != 0:
        return False
    l = w.over_of(k.args[0])
    return l is not None and (l.over is of(n, 'phi_functions') or any(l.over is s.a[2] for s in sets))


def astray(w, p):
    """what is read, or some of what is written"""
    l = w.over_of(p.a[0].args[1])
    if l is None or l.over is None:
        return False
    return over(l, 'storages_read') or l.over.op == 'slice' and bool(storages(l.over.args[0]))


def write_pop(w, p):
    k = p.a[0].args[1]
    l = w.over_of(k)
    if l is not None and over(l, 'storages_written'):
        return True
    if k.op == 'index' and num_val(k.args[1]) == 0:
        l = w.over_of(k.args[0])
        return l is not None and l.over.op == 'attr' and l.over.args[1] == 'ssa_written'
    return False


# ------------------------------------------------------------------ dead phi functions
def dead(ctx):
    """a phi function is dropped only when its block overwrites the name before reading it"""
    F = B + '_remove_dead_phi'
    f, ws, ps = walks(ctx, F)
    for w in ws:
        gone = [p for p in w.spots if p.kind in ('Pop', 'Del', 'Remove') and p.a[0].op == 'attr' and p.a[0].args[1] == 'phi_functions']
        live = [l for l in w.loops if l.over is not None and l.over.op == 'attr' and l.over.args[1] == 'phi_functions' and any(inside(p, l) for p in gone)]
        ctx.decide(False if live and any(l.loop.seq.op not in ('copy',) for l in live) and all(l.loop.seq.op in ('attr',) for l in live) else True, 'walked', F, f.where(), 'no phi function is dropped from what is walked through')
        reads = [l for l in w.loops if l.over is not None and l.over.op == 'attr' and l.over.args[1] == 'ssa_read']
        writes = [l for l in w.loops if l.over is not None and l.over.op == 'attr' and l.over.args[1] == 'ssa_written']
        if not gone:
            ctx.unk('dropped', F, f.where())
            continue
        if not reads or not writes:
            ctx.decide(False if not reads and writes and not any(has_attr(g, 'ssa_read') for l in w.loops for b in l.loop.bodies for g in b.facts) else None, 'read first', F, f.where(), 'the reads of the block are looked at')
            continue
        # the loop over the instructions
        outer = {}
        for l in reads + writes:
            if l.nest:
                outer.setdefault(l.nest[-1][0].pos, l.nest[-1][0])
        for l in outer.values():
            L = l.loop
            head = set(w.fs(L.bodies[0].facts)) if L.bodies else set()
            for b in L.bodies[1:]:
                head &= set(w.fs(b.facts))
            marks = {}
            for b in L.bodies:
                seq = []
                for it in b.trace:
                    if isinstance(it, LoopItem):
                        q = w.over(it.loop)
                        if q is not None and q.op == 'attr' and q.args[1] in ('ssa_read', 'ssa_written'):
                            seq.append((q.args[1], it.body is not None and it.body.kind != 'next', it))
                what = [x for x, hit, it in seq]
                rhit = any(x == 'ssa_read' and hit for x, hit, it in seq)
                whit = any(x == 'ssa_written' and hit for x, hit, it in seq)
                if 'ssa_written' in what and ('ssa_read' not in what or what.index('ssa_written') < what.index('ssa_read')):
                    ctx.decide(False if whit else None, 'read first', F, f.where(), 'the writes of an instruction are looked at before its reads')
                    continue
                for k, h in L.hav.items():
                    if h is None or k[0] != 'env':
                        continue
                    v = w.eng.get_key(b.state, k)
                    if v is None or v is h:
                        continue
                    if v in (TRUE, FALSE) or v in (const(True), const(False)):
                        marks.setdefault(k, []).append((v in (TRUE, const(True)), rhit, whit, b))
                    for x, hit, it in seq:
                        pass
                # what makes a hit
                for x, hit, it in seq:
                    if hit:
                        judge_hit(ctx, w, F, x, it)
            drop = dropped_when(w, gone)
            if drop is None:
                ctx.unk('dropped', F, f.where())
                continue
            flag, val = drop
            if not any(w.eng.key_name(k) == flag and v is val for k, ms in marks.items() for v, rhit, whit, b in ms):
                k = [k for k in L.hav if w.eng.key_name(k) == flag]
                v = L.inits.get(k[0]) if k else None
                ctx.decide(False if v in (TRUE, const(True) if val else FALSE, const(val)) and k and k[0] in marks else None, 'dropped', F, f.where(), 'dropped when nothing overwrites it')
            for k, ms in marks.items():
                nm = w.eng.key_name(k)
                for v, rhit, whit, b in ms:
                    if nm == flag and v is val:
                        ctx.decide(False if rhit else True if whit else None, 'dropped', F, f.where(), 'dropped because it is overwritten, not when it was read')
            # after a read the block is not looked at any further
            for b in L.bodies:
                rhit = any(isinstance(it, LoopItem) and w.over(it.loop) is not None and w.over(it.loop).op == 'attr' and w.over(it.loop).args[1] == 'ssa_read' and it.body is not None and it.body.kind != 'next' for it in b.trace)
                if rhit:
                    stops = b.kind in ('break', 'return') or any(
                        goes_on(w, g, L, b) is False for g in w.fs(b.facts))
                    ctx.decide(True if stops else False, 'kept when read', F, f.where(), 'a phi function that is read stays')
            if not any(isinstance(it, LoopItem) and w.over(it.loop) is not None and w.over(it.loop).op == 'attr' and w.over(it.loop).args[1] == 'ssa_read' and it.body is not None and it.body.kind != 'next'
                       for b in L.bodies for it in b.trace):
                flags_read(ctx, w, F, f, L)


def goes_on(w, g, L, b):
    """a condition of the loop, after the body"""
    h = g.args[0] if g.op == 'not' else g
    if h.op != 'truth' or h.args[0].op != 'hav':
        return None
    for k, hv in L.hav.items():
        if hv is not None and w.t(hv) is h.args[0]:
            v = w.eng.get_key(b.state, k)
            if v in (TRUE, const(True), FALSE, const(False)):
                t = v in (TRUE, const(True))
                return t if g.op != 'not' else not t
    return None


def flags_read(ctx, w, F, f, L):
    """reading changes nothing: the loops over what is read have no effect at all"""
    rs = [it for b in L.bodies for it in deep_loops(b.trace) if w.over(it.loop) is not None and w.over(it.loop).op == 'attr' and w.over(it.loop).args[1] == 'ssa_read']
    asked = any(y.op == 'attr' and y.args[1] == 'ssa_read' for b in L.bodies for q in b.facts for y in walk(q))
    idle = all(b.kind == 'next' and not b.trace and all(w.eng.get_key(b.state, k) is h for k, h in it.loop.hav.items() if h is not None) for it in rs for b in it.loop.bodies)
    ctx.decide(False if idle and not asked and not any(isinstance(it, Ev) and it.kind in ('Call', 'CallUnknown', 'MCall') for b in L.bodies for it in b.trace) else None, 'kept when read', F, f.where(), 'what an instruction reads does not matter')


def deep_loops(items):
    for it in items:
        if isinstance(it, LoopItem):
            yield it
            for b in it.loop.bodies:
                for x in deep_loops(b.trace):
                    yield x
        elif isinstance(it, Alt):
            for fs, tr in it.paths:
                for x in deep_loops(tr):
                    yield x


def judge_hit(ctx, w, F, what, it):
    """when a read or a write counts"""
    b = it.body
    e = w.t(it.loop.elem)
    fs = w.fs(b.facts)
    var = any(g.op in ('eq0', 'eq') and has(g, at(e, 0)) for g in fs)
    notvar = any(g.op == 'not' and g.args[0].op in ('eq0', 'eq') and has(g.args[0], at(e, 0)) for g in fs)
    whole = any(g.op in ('eq0', 'eq') and has(g, e) and not has(g, at(e, 0)) and not has(g, at(e, 1)) for g in fs)
    i1 = [g for g in fs if has(g, at(e, 1))]
    crossed = [g for g in fs if mismatched(w, g, e)]
    if crossed:
        ctx.decide(False, 'read' if what == 'ssa_read' else 'overwritten', F, b.trace[0].loc if b.trace and hasattr(b.trace[0], 'loc') else F, 'storage is compared with storage and index with index')
        return
    if what == 'ssa_read':
        exact = any(g.op == 'eq0' for g in i1)
        ctx.decide(True if whole or var and exact else True if var and not i1 else False if notvar or i1 and not exact and not any(g.op == 'ge0' for g in i1) else None, 'read', F, b.trace[0].loc if b.trace and hasattr(b.trace[0], 'loc') else F, 'a read of the phi function keeps it')
    else:
        any_ = not any(has(g, e) and not (g.op == 'in' and g.args[0] is e) or g.op in ('unk', 'call') for g in fs)
        ctx.decide(True if var else False if notvar or not var and i1 and not whole or any_ else None, 'overwritten', F, b.trace[0].loc if b.trace and hasattr(b.trace[0], 'loc') else F, 'a write of the same storage makes it dead')


def mismatched(w, g, e):
    """an equality that compares the storage of one with the index of the other, or with something that is not a name"""
    if g.op not in ('eq0', 'eq'):
        return False
    phs = {x for x in walk(g) if x.op == 'elem' and x.args[0].op == 'attr' and x.args[0].args[1] == 'phi_functions'}
    es = {k for k in (0, 1) if has(g, at(e, k))}
    ps = {k for k in (0, 1) for x in phs if has(g, at(x, k))}
    if es and ps:
        return len(es) == len(ps) == 1 and es != ps
    if es and not ps and g.op == 'eq':
        return any(a.op == 'obj' for a in g.args) and any(a is at(e, k) for a in g.args for k in es)
    return False


def dropped_when(w, gone):
    """(flag, value): what puts a phi function on the list of the dropped ones"""
    for p in gone:
        l = w.over_of(p.a[1])
        if l is None or l.over is None or l.over.op != 'obj':
            continue
        for q in w.find('Append', l.over):
            for g in q.facts:
                h = g.args[0] if g.op == 'not' else g
                if h.op == 'truth' and h.args[0].op == 'out':
                    return h.args[0].args[1], g.op != 'not'
    return None


# ------------------------------------------------------------------ dependencies
def dependencies(ctx):
    F = B + '_build_value_dependency_graph'
    f, ws, ps = walks(ctx, F)
    for w in ws:
        edges = {'phi': [], 'inst': []}
        for p, a in w.called('add_edge'):
            e = w.t(a[0]) if a else None
            if e is None or e.op != 'tuple' or len(e.args) != 2:
                ctx.unk('edge', F, p.ev.loc)
                continue
            u, v = e.args
            ku, kv = kind_of(w, u), kind_of(w, v)
            if {ku, kv} == {'arg', 'phi'}:
                edges['phi'].append(p)
                ctx.decide(ku == 'arg' and belongs(w, u, v), 'phi depends', F, p.ev.loc, 'a phi function depends on its arguments')
                every(ctx, w, p, u, 'phi depends', F)
            elif {ku, kv} == {'ssa_read', 'ssa_written'}:
                edges['inst'].append(p)
                ctx.decide(ku == 'ssa_read' and w.over_of(u).over.args[0] is w.over_of(v).over.args[0], 'write depends', F, p.ev.loc, 'what an instruction writes depends on what it reads')
                every(ctx, w, p, u, 'write depends', F)
            else:
                ctx.decide(False if ku and kv else None, 'edge', F, p.ev.loc, 'an edge from %s to %s' % (ku, kv))
        for k, ps_ in edges.items():
            ctx.decide(True if ps_ else False if not w.called('add_edges') and w.called('add_edge') else None, 'edges', F, f.where(), 'the dependencies of %s' % ('phi functions' if k == 'phi' else 'instructions'))
        nodes = {kind_of(w, w.t(a[0])) for p, a in w.called('add_node') if a}
        for k in ('phi', 'ssa_written'):
            ctx.decide(True if k in nodes else None if w.called('add_nodes') else False, 'names', F, f.where(), 'every name is in the graph (%s)' % k)


def kind_of(w, t):
    l = w.over_of(t)
    if l is None or l.over is None:
        return None
    o = l.over
    if o.op == 'attr' and o.args[1] in ('ssa_read', 'ssa_written'):
        return o.args[1]
    if o.op == 'attr' and o.args[1] == 'phi_functions':
        return 'phi'
    if o.op == 'index' and o.args[0].op == 'attr' and o.args[0].args[1] == 'phi_functions':
        return 'arg'
    return None


def belongs(w, u, v):
    return w.over_of(u).over.args[1] is v


def every(ctx, w, p, u, rule, F):
    l = p.nest[-1][0] if p.nest else None
    if l is None:
        return
    for fs, b, tr in w.paths(l):
        put = any(isinstance(e, Ev) and e.kind == 'CallUnknown' and w.t(e.a[0]).op == 'attr' and w.t(e.a[0]).args[1] == 'add_edge' for e in tr)
        there = any(g.op == 'truth' and has_attr(g, 'has_edge') for g in fs)
        ctx.decide(True if put or there else False if plainly([g for g in others(w.fs(b.facts)) if not known_name(g)]) else None, rule, F, p.ev.loc, 'each dependency is in the graph')
    enters(ctx, w, p, rule, F)


def known_name(g):
    """whether a name is in the graph already"""
    h = g.args[0] if g.op == 'not' else g
    return h.op == 'in' and h.args[1].op == 'call' and h.args[1].args[0].op == 'ext' and not any(x.op in ('call', 'hav', 'out') for x in walk(h.args[0]))


def has_attr(g, name):
    return any(x.op == 'attr' and x.args[1] == name or x.op == 'mcall' and x.args[1] == name for x in walk(g))


# ------------------------------------------------------------------ the order of the steps
STEPS = ('build_dominator_tree', 'build_dominance_frontier', 'place_phi_nodes', '_rename_vars', '_remove_dead_phi', '_build_value_dependency_graph')


def building(ctx):
    F = B + 'build'
    f, ws, ps = walks(ctx, F, STEPS)
    for w in ws:
        first = {}
        for s in STEPS:
            c = w.called(s)
            if s == '_remove_dead_phi' and not c:
                ctx.unk('steps', F, f.where(), s)
                continue
            ctx.decide(True if len(c) == 1 else False if not c else None, 'steps', F, f.where(), '%s is done' % s)
            if c:
                first[s] = c[0][0]
                bad = c[0][0].nest or len(c[0][0].facts) > 0
                ctx.decide(True if not bad else None, 'steps', F, c[0][0].ev.loc, '%s is always done' % s)
        order = [s for s in STEPS if s in first]
        for a, b in zip(order, order[1:]):
            ctx.decide(before(first[a], first[b]), 'order of the steps', F, first[b].ev.loc, '%s, then %s' % (a, b))
        r = w.t(w.s.exit[1])
        ctx.decide(True if r.op == 'call' and r.args[0].op == 'fn' and r.args[0].args[0].endswith(STEPS[-1]) else False if r is NONE else None, 'result', F, f.where(), 'the dependencies are returned')
