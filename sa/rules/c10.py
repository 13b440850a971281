"""C10: the figures given for a set of candidate lists, and the bits of the answer.

Counts, sizes and bins are read as folds over loop summaries and compared with the product / sum over the
candidate lists they stand for; the answer builder is read as an effect trace per address.
"""
from ..terms import *
from ..prove import prove, inconsistent
from ..report import events, understood, loops_of, conj
from ..fold import steps, loop_index, counting, one, value_at
from ..shape import *
from ..engine import Ev, LoopItem, Alt

QUA, BLD = 'solution.solution_quality', 'solution.solution_builders'
SELF = mk('sym', 'self')


def run(ctx):
    ctx.part(figures)
    ctx.part(kept)
    ctx.part(initial)
    ctx.part(depth)
    ctx.part(answer)


def over(L, t):
    """the loop visits every entry of the table t once"""
    s = L.seq
    return s is not None and (s is t or s.op in ('values', 'items', 'keys') and s.args[0] is t)


def entry_len(x, t, L):
    """x is the number of elements of the entry of t the loop L is at"""
    if x.op != 'len':
        return False
    v = x.args[0]
    return v.op == 'index' and v.args[0] is t and at(v.args[1], t, L)


def at(k, t, L):
    return k.op == 'elem' and k.args[0] is t and k.args[1] is L.iota


def stop_free(ctx, L, name, what):
    for b in L.bodies:
        if b.kind == 'break':
            ctx.bad('complete', name, L.loc, '%s stops early under %s' % (what, conj(b.facts)[:160]))
            return False
    return True


def is_histogram(ctx, items, D, P, name):
    """D counts, for every entry of P, its number of elements: True / False (reported) / None"""
    r = counting(items, D)
    if r is None:
        return None
    res, found = True, False
    for loops, fs, b, path in r:
        if not b:
            continue
        if len(loops) != 1 or not over(loops[0][0], P):
            return None
    for L in {x[0][0][0] for x in r if x[0] and over(x[0][0][0], P)}:
        mine = [x for x in r if len(x[0]) == 1 and x[0][0][0] is L]
        if not any(x[2] for x in mine):
            continue
        if found:
            return None
        found = True
        if not stop_free(ctx, L, name, 'counting'):
            res = False
        for loops, fs, b, path in mine:
            if loops[0][1].kind not in ('next',):
                continue
            if len(b) > 1:
                return None
            if not b:
                c = inconsistent(fs)
                if not c:
                    ctx.decide(False if all(clear(f) for f in fs if f.op in ('ge0', 'eq0', 'not')) else None, 'bins', name, L.loc,
                               'an address is not counted under %s' % conj(fs)[-200:])
                    res = False
                continue
            (k, n), = b.items()
            good = entry_len(k, P, L) and num_val(n) == 1
            ctx.decide(True if good else (False if clear(k, tuple(h for h in L.hav.values() if h is not None)) else None), 'bins', name, L.loc,
                       'counted under %s, by %s' % (show(k)[:80], show(n)))
            res = res and good
    return res if found else None


def weight(x, op, P, L, hist):
    """the amount one round adds to the product / sum stands for its lists"""
    if over(L, P):
        return entry_len(x, P, L) if op == 'prod' else (x.op == 'log' and entry_len(x.args[0], P, L) and num_val(x.args[1]) == 2)
    D = table(L)
    if D is None or not hist(D):
        return None
    ks = [k for k in walk(x) if k.op == 'elem' and k.args[0] is D and k.args[1] is L.iota]
    ns = [k for k in walk(x) if k.op == 'index' and k.args[0] is D and at(k.args[1], D, L)]
    if not ks or not ns:
        return False if clear(x) else None
    if op == 'prod':
        return x.op == 'pow' and x.args[0] is ks[0] and x.args[1] is ns[0]
    return x is mul(ns[0], mk('log', ks[0], const(2)))


def table(L):
    s = L.seq
    if s is None:
        return None
    if s.op in ('keys', 'items'):
        return s.args[0]
    return s if s.op == 'obj' else None


def lists_size(L, P, hist, t):
    """the number of candidates one round is about"""
    if over(L, P):
        return lambda fs: next((x for f in fs for x in walk(f) if x.op == 'len' and entry_len(x, P, L)), None)
    D = table(L)
    return lambda fs: next((x for f in fs for x in walk(f) if x.op == 'elem' and x.args[0] is D and x.args[1] is L.iota), None)


def left_over(init):
    """what an earlier count left in the attribute"""
    if init.op == 'attr':
        return init.args[0].op == 'sym'
    if init.op == 'phi':
        return all(left_over(x) or num_val(x) is not None for x in init.args[2:] if isinstance(x, T)) and any(isinstance(x, T) and left_over(x) for x in init.args[2:])
    return init.op == 'out' and len(init.args) > 1 and isinstance(init.args[1], tuple) and len(init.args[1]) == 2 and isinstance(init.args[1][1], str) and isinstance(init.args[1][0], T)


def fold_is(ctx, eng, items, t, op, P, name, what, hist):
    if t.op == 'const' or num_val(t) is not None:
        return ctx.bad('fold', name, '', '%s is always %s' % (what, show(t)))
    r = steps(eng, t, loop_index(items))
    if r is None or r[0] is None:
        return ctx.unk('fold', name, '', '%s: %s' % (what, show(t)[:120]))
    init, st = r
    unit = 1 if op == 'prod' else 0
    ctx.decide(True if num_val(init) == unit else (False if num_val(init) is not None or left_over(init) else None), 'fold-start', name, '', '%s starts at %s' % (what, show(init)[:60]))
    lp = {s.chain[0][0] for s in st}
    if len(lp) != 1 or any(len(s.chain) != 1 for s in st):
        return ctx.unk('fold', name, '', '%s: nested' % what)
    L, = lp
    if not over(L, P) and table(L) is None:
        return ctx.unk('fold', name, L.loc, '%s runs over %s' % (what, show(L.seq)[:80] if L.seq is not None else '?'))
    if not over(L, P) and hist(table(L)) is None:
        return ctx.unk('fold', name, L.loc, '%s runs over a table the rule does not know' % what)
    stop_free(ctx, L, name, what)
    for s in st:
        if s.op == 'keep':
            k = lists_size(L, P, hist, t)(s.facts)
            if inconsistent(s.facts):
                continue
            if k is None:
                ctx.unk('fold', name, L.loc, '%s skips a round' % what)
            elif op == 'prod':
                ctx.decide(prove(s.facts, cmp_eq(k, const(1))), 'fold', name, L.loc, '%s leaves out lists under %s' % (what, conj([f for f in s.facts if has(f, k)])[:200]))
            else:
                ctx.decide(prove(s.facts, cmp_ge(sub(const(1), k))), 'fold', name, L.loc, '%s leaves out lists under %s' % (what, conj([f for f in s.facts if has(f, k)])[:200]))
            continue
        if s.op != op:
            ctx.decide(False if s.amount is not None and clear(s.amount, tuple(x for x in walk(s.amount) if x.op in ('hav', 'out'))) else None, 'fold', name, L.loc,
                       '%s: a round does %s %s' % (what, s.op, show(s.amount)[:120]))
            continue
        w = weight(s.amount, op, P, L, hist)
        ctx.decide(True if w else (False if w is False else None), 'fold', name, L.loc, '%s: a round contributes %s' % (what, show(s.amount)[:160]))
        if op == 'sum' and w:
            k = lists_size(L, P, hist, t)(s.facts + (s.amount,))
            ctx.decide(True if prove(s.facts, cmp_ge(sub(k, const(1)))) else False, 'log-domain', name, L.loc, 'the logarithm of an empty list is taken')


def figures(ctx):
    for prop, op in (('solution_count', 'prod'), ('solution_count_bins', 'bins'), ('solution_size', 'sum')):
        f = ctx.func(QUA, 'SolutionQuality.' + prop)
        eng, sts = ctx.run(f)
        name = 'SolutionQuality.' + prop
        if sts is None:
            ctx.unk('budget', name)
            continue
        fresh = False
        for s in sts:
            if s.exit[0] != 'return':
                ctx.decide(None, 'figures', name, f.where(), 'ends with %s' % show(s.exit[1])[:80])
                continue
            v, items = s.exit[1], list(s.items())
            if not any(True for _ in loops_of(items)):
                # a figure kept from before
                if v.op == 'attr' or num_val(v) == 0:
                    continue
                ctx.unk('figures', name, f.where(), 'gives %s' % show(v)[:80])
                continue
            P = program_of(eng, s)
            if P is None:
                ctx.unk('figures', name, f.where(), 'no table')
                continue
            memo = {}

            def hist(D):
                if D not in memo:
                    memo[D] = is_histogram(ctx, items, D, P, name)
                return memo[D]
            fresh = True
            if op == 'bins':
                h = hist(v) if v.op == 'obj' else None
                if h is None:
                    ctx.unk('bins', name, f.where(), show(v)[:80])
                continue
            if op == 'sum':
                cnt = [x for x in s.facts if (x.op == 'eq0' or x.op == 'not' and x.args[0].op == 'eq0') and any(y.op == 'out' for y in walk(x))]
                zero = any(x.op == 'eq0' for x in cnt)
                for x in cnt:
                    p = x.args[0] if x.op == 'eq0' else x.args[0].args[0]
                    o = [y for y in walk(p) if y.op == 'out']
                    k = num_val(sub(p, o[0])) if len(o) == 1 else None
                    if k:
                        ctx.bad('no-solution', name, f.where(), 'the size is zero for %s solutions' % show(neg(const(k))))
                if zero or num_val(v) == 0 and cnt:
                    ctx.decide(num_val(v) == 0, 'no-solution', name, f.where(), 'with no solution the size is %s' % show(v)[:60])
                    continue
            fold_is(ctx, eng, items, v, op, P, name, prop, hist)
            if op == 'sum':
                plain = not any(y.op == 'out' for q in s.facts for y in walk(q)) and v.op == 'out'
                ctx.decide(True if any(x.op == 'not' for x in cnt) else False if plain else None, 'no-solution', name, f.where(), 'the size does not depend on whether there is a solution')
        if not fresh:
            ctx.bad('figures', name, f.where(), 'never computed from the candidate lists')


def initial(ctx):
    """nothing is given that was not computed: with the fields as the constructor leaves them every figure is worked out"""
    cls = ctx.cls(QUA, 'SolutionQuality')
    eng, sts = ctx.run(ctx.func(QUA, 'SolutionQuality.__init__'))
    ends = [s for s in sts or () if s.exit[0] == 'return']
    if len(ends) != 1:
        return
    init = {mk('attr', SELF, k[1]): v for k, v in ends[0].heap.items() if k[0] is SELF and (v.op == 'const' or num_val(v) is not None)}
    for prop in ('solution_count', 'solution_count_bins', 'solution_size', 'highest_depth'):
        f = cls.find(prop)
        if f is None:
            continue
        eng, sts = ctx.run(f)
        name = 'SolutionQuality.' + prop
        for s in sts or ():
            v = s.exit[1]
            if s.exit[0] != 'return' or v.op != 'attr' or v.args[0] is not SELF or v not in init:
                continue
            can = True
            for q in s.facts:
                h = initially(q, init)
                if h is False:
                    can = False
                elif h is None and can:
                    can = None
            ctx.decide(not can if can is not None else None, 'figures', name, f.where(), 'gives %s that was never computed' % show(init[v]))


def initially(q, init):
    if q.op == 'not':
        h = initially(q.args[0], init)
        return None if h is None else not h
    if q.op in ('isnone', 'truth') and q.args[0] in init:
        v = init[q.args[0]]
        return v is NONE if q.op == 'isnone' else bool(num_val(v) if v.op != 'const' else v.args[0])
    if q.op in ('eq0', 'ge0', 'gt0'):
        k = num_val(subst(q.args[0], {a: v for a, v in init.items() if num_val(v) is not None}))
        if k is not None:
            return k == 0 if q.op == 'eq0' else k >= 0 if q.op == 'ge0' else k > 0
    return None


def kept(ctx):
    """the other operations leave a figure as it was, not computed yet, or right"""
    cls = ctx.cls(QUA, 'SolutionQuality')
    cached = {}
    for prop, op in (('solution_count', 'prod'), ('solution_count_bins', 'bins'), ('solution_size', 'sum')):
        eng, sts = ctx.run(ctx.func(QUA, 'SolutionQuality.' + prop))
        for s in sts or ():
            v = s.exit[1]
            if s.exit[0] == 'return' and v.op == 'attr' and v.args[0] == SELF:
                cached.setdefault(v.args[1], []).append((prop, op, s, v))
    for m in [x for x in ('evaluate', 'report') if cls.find(x) is not None]:
        f = ctx.func(QUA, 'SolutionQuality.' + m)
        eng, sts = ctx.run(f)
        for s in sts or ():
            P = program_of(eng, s)
            items = list(s.items())
            for field, uses in cached.items():
                v = s.heap.get((SELF, field))
                if v is None or any(v is a for _, _, _, a in uses):
                    continue
                for prop, op, g, a in uses:
                    name = 'SolutionQuality.%s:%s' % (m, prop)
                    if v.op == 'const' or num_val(v) is not None:
                        fs = tuple(subst(x, {a: v}) for x in g.facts)
                        ctx.decide(True if inconsistent(fs) or FALSE in fs else (False if fs == tuple(g.facts) or all(x is TRUE or x.op in ('eq0', 'not', 'ge0') for x in fs) else None), 'kept', name, f.where(),
                                   'after %s the figure is %s' % (m, show(v)))
                    elif P is not None and op != 'bins':
                        fold_is(ctx, eng, items, v, op, P, name, prop, lambda D: is_histogram(ctx, items, D, P, name))


def program_of(eng, s):
    """the table given to the constructor: what the outer loops run over"""
    for l in loops_of(s.items()):
        q = l.loop.seq
        if q is None:
            continue
        q = q.args[0] if q.op in ('values', 'items', 'keys') else q
        if q.op == 'attr' and q.args[1] == '_program' or q.op == 'attr' and q.args[0].op == 'sym':
            return q
    return None


# ------------------------------------------------------------------- depth
def rounds(n, idx):
    """the loop whose number of rounds n is"""
    if n.op == 'sym' and len(n.args) > 1 and n.args[1] == 'iter' and n.args[0].startswith('n_'):
        return idx.get(n.args[0][2:])
    return None


def depth(ctx):
    f = ctx.func(QUA, 'SolutionQuality.evaluate')
    name = 'SolutionQuality.evaluate'
    eng, sts = ctx.run(f)
    if sts is None:
        return ctx.unk('budget', name)
    for s in sts:
        items = list(s.items())
        idx = loop_index(items)
        hk = [(ev, ls) for ev, ls in events(items) if ev.kind == 'SetAttr' and ev.a[1] == '_highest_depth']
        v = next((x for k, x in s.heap.items() if k[1] == '_highest_depth'), None)
        if v is None:
            return ctx.bad('depth', name, f.where(), 'the highest depth is not computed')
        if num_val(v) is not None:
            return ctx.bad('depth', name, f.where(), 'the highest depth is always %s' % show(v))
        r = steps(eng, v, idx)
        if r is None or r[0] is None:
            return ctx.unk('depth', name, f.where(), show(v)[:80])
        init, st = r
        ctx.decide(True if num_val(init) == 0 else (False if num_val(init) is not None else None), 'depth-start', name, f.where(), 'starts at %s' % show(init)[:60])
        for x in st:
            L, b = x.chain[-1]
            if len(x.chain) != 1 or L.seq is None:
                ctx.unk('depth', name, x.loc, 'nested')
                continue
            if b.kind == 'break':
                ctx.bad('complete', name, L.loc, 'the search for the highest depth stops early')
            if L.seq.op == 'range' and num_val(L.seq.args[2]) == 1:
                lo, n = L.seq.args[0], L.seq.args[1]
                short = n if n.op == 'len' else next((y for y in walk(n) if y.op == 'len'), None)
                gap = None if short is None else num_val(sub(short, n))
                if num_val(lo) and num_val(lo) > 0 or gap is not None and gap > 0:
                    ctx.bad('complete', name, L.loc, 'only the instructions %s to %s are looked at' % (show(lo), show(n)[:80]))
            hv = v_hav(L, v)
            ign = ignored(x.facts)
            if inconsistent(x.facts):
                continue
            if ign is None and x.op != 'keep' and not mentions(items, 'ignore'):
                ctx.bad('depth-ignored', name, L.loc, 'ignored instructions are not left out')
            if ign is True:
                ctx.decide(x.op == 'keep', 'depth-ignored', name, L.loc, 'an ignored instruction changes the depth')
                continue
            d = [ev.a[2] for ev in b.trace if isinstance(ev, Ev) and ev.kind == 'SetAttr' and ev.a[1] == '_highest_depth']
            if x.op == 'keep':
                # either no candidates, or the depth is not above the highest so far
                q = not_above(x.facts, hv, idx)
                if q is None:
                    ctx.decide(True if empty_list(x.facts) else False if sized(x.facts, L) else None, 'depth', name, L.loc, 'an instruction does not count under %s' % conj(x.facts)[-200:])
                else:
                    ctx.decide(rank_ok(ctx, q, idx, name, L, b, eng), 'depth', name, L.loc, 'compared %s' % show(q)[:120])
                continue
            val = x.amount if x.op == 'set' else None
            if val is None and x.op == 'sum':
                val = add(hv, x.amount)
            if val is None:
                ctx.unk('depth', name, L.loc, x.op)
                continue
            if val.op == 'max' and hv in val.args:
                val = [y for y in val.args if y is not hv][0]
                up = True
            else:
                up = prove(x.facts, cmp_ge(sub(val, hv)))
                if not up and any(lit_sign(fa, val, hv) for fa in x.facts):
                    up = True
            ctx.decide(True if up else False if clear(val, (hv,)) and not has(val, hv) else None, 'depth-max', name, L.loc, 'the highest depth becomes %s under %s' % (show(val)[:80], conj([fa for fa in x.facts if has(fa, hv)])[:160]))
            ctx.decide(rank_ok(ctx, val, idx, name, L, b, eng), 'depth', name, L.loc, 'the depth of an instruction is %s' % show(val)[:140])


def v_hav(L, v):
    for k, h in L.hav.items():
        if h is not None and h.op == 'hav' and h.args[1:] == v.args[1:]:
            return h
    return mk('hav', L.lid, v.args[1])


def lit_sign(f, val, hv):
    """the fact says val >= hv (in some strictness)"""
    if f.op in ('ge0', 'gt0'):
        p = f.args[0]
        d = sub(val, hv)
        return p is d or num_val(sub(p, d)) is not None and num_val(sub(p, d)) <= 0
    return f.op == 'not' and f.args[0].op in ('ge0', 'gt0') and lit_sign(mk('ge0', neg(f.args[0].args[0])), val, hv)


def not_above(facts, hv, idx):
    for f in facts:
        p, s = (f.args[0], 1) if f.op in ('ge0', 'gt0') else (f.args[0].args[0], -1) if f.op == 'not' and f.args[0].op in ('ge0', 'gt0') else (None, 0)
        if p is None or not has(p, hv):
            continue
        p = p if s == 1 else neg(p)
        l = linear(p, hv)
        if l is not None and num_val(l[0]) == 1:
            return neg(l[1])
    return None


def ignored(facts):
    for f in facts:
        g = f.args[0] if f.op == 'not' else f
        if g.op == 'truth' and g.args[0].op == 'attr' and g.args[0].args[1] == 'ignore':
            return f.op != 'not'
    return None


def mentions(items, attr):
    """some value or condition of the trace reads the attribute"""
    for ev, ls in events(items):
        ts = [a for a in flat(ev.a) if isinstance(a, T)] + list(ev.facts) + [f for l, b in ls for f in b.facts]
        if any(x.op == 'attr' and x.args[1] == attr for t in ts for x in walk(t)):
            return True
    return False


def empty_list(facts):
    return any(prove(facts, cmp_ge(neg(x))) for f in facts for x in walk(f) if x.op == 'len')


def sized(facts, L):
    """candidates are there, and nothing but their number and whether the instruction is ignored is asked"""
    for f in facts:
        g = f.args[0] if f.op == 'not' else f
        if g.op == 'truth' and g.args[0].op == 'attr' and g.args[0].args[1] == 'ignore':
            continue
        if g.op in ('ge0', 'gt0', 'eq0'):
            lens = [x for x in walk(g) if x.op == 'len']
            if lens and all(x in (L.iota,) or x.op in ('poly', 'const', 'len', 'v0') or any(has(y, x) for y in lens) for x in walk(g.args[0])):
                continue
        if g.op == 'in' and any(x is L.elem or x.op == 'len' for x in walk(g.args[0])):
            continue
        return False
    return True


def rank_ok(ctx, val, idx, name, L, b, eng):
    """val = (first position of the original + 1) / number of candidates"""
    lens = [x for x in walk(val) if x.op == 'len']
    ns = [x for x in walk(val) if rounds(x, idx) is not None]
    if not ns and not any(x.op in ('out', 'hav', 'unk', 'agg', 'mapseq', 'exists', 'find', 'call', 'mcall', 'count', 'ite') for x in walk(val)):
        return False
    if len(set(ns)) == 1:
        for x in set(walk(val)):
            if x.op in ('len', 'out') and val is div(add(ns[0], const(1)), x):
                if x.op == 'len' and x.args[0].op == 'obj' and 'dict' in x.args[0].args:
                    # the length of a table made here
                    return False
                r = steps(eng, x, idx) if x.op == 'out' else None
                if r is not None and r[1] and all(y.op in ('keep', 'set') and clear(y.amount, (x,)) for y in r[1] if y.op != 'keep') and any(y.op == 'set' and any(z.op == 'attr' for z in walk(y.amount)) for y in r[1]):
                    return False
    if len(set(lens)) != 1 or len(set(ns)) != 1:
        return None
    ln, n = lens[0], ns[0]
    if val is not div(add(n, const(1)), ln):
        return False if clear(val) else None
    S = rounds(n, idx)
    lst = ln.args[0]
    for sb in S.bodies:
        fs = [f for f in sb.facts if f.op == 'not' and f.args[0].op == 'eq0' and any(y.op == 'strof' for y in walk(f))]
        if sb.kind != 'next' or len(fs) != 1:
            return None
        st = {y.args[0] for y in walk(fs[0]) if y.op == 'strof'}
        more = [f for f in sb.facts if f is not fs[0] and any(has(f, y) for y in st if y.op == 'index' and y.args[0] is lst)]
        if more:
            # the search for the original stops at something else, too
            return False if all(y.op in ('attr', 'mcall', 'index', 'ge0', 'gt0', 'eq0', 'not', 'truth', 'poly', 'const', 'sym', 'v0', 'mut', 'len', 'strof', 'elem') for f in more for y in walk(f)) else None
        c = [y for y in st if y.op == 'index' and y.args[0] is lst and y.args[1] is S.iota]
        o = [y for y in st if y not in c]
        if len(c) != 1 or len(o) != 1:
            return None
        if not (o[0].op in ('elem', 'index') and has(o[0], L.iota)):
            return None
        key = lst.args[1] if lst.op == 'index' else None
        if key is None or not (key.op == 'attr' and key.args[1] == 'address' and key.args[0] is o[0]):
            return False if key is not None and clear(key) else None
    # ranked by score, the best first
    so = [ev for ev in b.trace if isinstance(ev, Ev) and ev.kind == 'Sort' and ev.a[0] is lst]
    if not so:
        return False if not any(isinstance(ev, Ev) and ev.kind in ('Call', 'CallUnknown', 'Havoc') and any(isinstance(y, T) and has(y, lst) for y in flat(ev.a)) for ev in b.trace) else None
    ev = so[-1]
    d = sort_direction(eng, ev)
    if d is not None:
        ctx.decide(d, 'rank-order', name, ev.loc, 'candidates are not ranked by score, best first')
    return True


def flat(a):
    for x in a:
        if isinstance(x, tuple):
            for y in flat(x):
                yield y
        else:
            yield x


def sort_direction(eng, ev):
    """True when the key grows with the score and the order is reversed, or the other way round"""
    rev, res = ev.a[2], ev.a[3]
    if rev not in (TRUE_(), FALSE_()):
        return None
    if not res:
        return None if ev.a[1].op != 'const' else False
    out = []
    for fs, v in res:
        sc = [y for y in walk(v) if y.op == 'mcall' and 'score' in y.args[:3] or y.op == 'call' and y.args[0].op == 'fn' and y.args[0].args[0].endswith('.score') or y.op == 'mcall' and any(z == 'score' for z in y.args)]
        if not sc:
            out.append(False if v.op == 'const' or num_val(v) is not None else None)
            continue
        y = sc[0]
        if v.op == 'tuple':
            v = v.args[0]
        l = linear(v, y)
        c = num_val(l[0]) if l is not None else None
        if c is None:
            out.append(None)
        else:
            out.append((c > 0) == (rev is TRUE_()))
    if any(o is False for o in out):
        return False
    return None if any(o is None for o in out) else True


def TRUE_():
    return const(True)


def FALSE_():
    return const(False)


# ------------------------------------------------------------------- answer
def answer(ctx):
    cls = ctx.cls(BLD, 'ForwardConstraintSolutionBuilder')
    f = ctx.func(BLD, 'AbstractForwardConstraintSolutionBuilder.build')
    name = 'ForwardConstraintSolutionBuilder.build'
    own = ctx.func(BLD, 'ForwardConstraintSolutionBuilder.build', required=False)
    f = own or f
    eng, sts = ctx.run(f, selfcls=cls)
    if sts is None:
        return ctx.unk('budget', name)
    for s in sts:
        items = list(s.items())
        idx = loop_index(items)
        outer = [l for l in items if isinstance(l, LoopItem) and any(ev.kind == 'SetAttr' and ev.a[1] == 'word_size' or ev.kind in ('CallUnknown', 'Call') and method_call(ev, 'enqueue')
                                                                       for b in l.loop.bodies for ev, ls in events(b.trace))]
        if not outer:
            ctx.unk('answer', name, f.where(), 'no loop stores an answer')
            continue
        for l in outer:
            L = l.loop
            for b in L.bodies:
                if inconsistent(b.facts):
                    continue
                round_of(ctx, eng, L, b, idx, name)


def round_of(ctx, eng, L, b, idx, name):
    evs = [(ev, ls) for ev, ls in events(b.trace)]
    en = [(ev, ls, method_call(ev, 'enqueue')) for ev, ls in evs if method_call(ev, 'enqueue')]
    ign = ignored(b.facts)
    lens = {x for f in b.facts if f.op in ('ge0', 'eq0', 'not') for x in walk(f) if x.op == 'len' and x.args[0].op == 'index' and x.args[0].args[0].op == 'attr'}
    if len(lens) != 1:
        return ctx.unk('answer', name, L.loc, 'no candidate list')
    ln, = lens
    if b.kind == 'raise' or b.kind == 'return':
        return
    if b.kind == 'break':
        return ctx.decide(None, 'answer', name, L.loc, 'stops early')
    work_list(ctx, b, ln.args[0].args[1], name, L)
    sz = [k for k in L.hav if k[0] == 'heap' and k[1][1] == '_solution_size']
    v = eng.get_key(b.state, sz[0]) if sz else None
    grown = shift_form(v, L.hav[sz[0]]) if v is not None else None
    if not en:
        need = prove(b.facts, cmp_ge(sub(const(1), ln))) or ign is True
        lf = tuple(f for f in b.facts if has(f, ln))
        some = ign is False and all(f.op == 'ge0' or f.op in ('eq0', 'not') for f in lf) and \
            not inconsistent(tuple(b.facts) + (cmp_ge(sub(ln, const(2))),))
        ctx.decide(True if need else (False if some else None), 'answer', name, L.loc,
                   'no answer bits for an address with candidates under %s' % conj(b.facts)[-200:])
        if grown is not None:
            ctx.decide(num_val(grown) == 0 if num_val(grown) is not None else None, 'answer-size', name, L.loc, 'the size grows by %s without bits stored' % show(grown)[:80])
        return
    if len(en) > 1 or en[0][1]:
        return ctx.decide(False if all(not e[1] for e in en) else None, 'answer', name, en[0][0].loc, 'several answers for one address')
    ctx.decide(ign is False if ign is not None else (None if mentions(b.trace, 'ignore') else False), 'answer-ignored', name, en[0][0].loc, 'an answer is stored for an instruction that is ignored')
    ev, _, (q, a) = en[0]
    pos = b.trace.index(ev) if ev in b.trace else None
    ws = [e for e, ls in evs if e.kind == 'SetAttr' and e.a[1] == 'word_size' and e.a[0] is q]
    if not ws or pos is None:
        return ctx.unk('answer', name, ev.loc, 'chunk size')
    w = ws[-1].a[2]
    if b.trace.index(ws[-1]) > pos if ws[-1] in b.trace else False:
        ctx.bad('answer-bits', name, ev.loc, 'the chunk size is set after the answer is stored')
    bl = mk_bitlen(sub(ln, const(1)))
    okw = w is bl
    ctx.decide(True if okw else {True: False, False: True, None: None}[bit_formula(w, ln, b.facts)], 'answer-bits', name, ws[-1].loc, '%s bits for one of %s candidates' % (show(w)[:100], show(ln)[:60]))
    if grown is None:
        ctx.decide(False if v is not None and sz and not has(v, L.hav[sz[0]]) and (v is w or clear(v, (w,))) else None, 'answer-size', name, L.loc, 'the size becomes %s' % (show(v)[:80] if v is not None else '?'))
    else:
        ctx.decide(True if grown is w else (False if clear(grown, (w,)) or num_val(grown) is not None else None), 'answer-size', name, L.loc, 'the size grows by %s, the answer takes %s bits' % (show(grown)[:80], show(w)[:80]))
    if len(a) >= 2:
        ctx.decide(True if num_val(a[1]) == 0 else (False if num_val(a[1]) is not None else None), 'answer-bits', name, ev.loc, 'bits are taken from position %s' % show(a[1])[:60])
    i = a[0]
    S = rounds(i, idx)
    leave = False
    if S is None:
        S = next((x for x in idx.values() if x.iota is i), None)
        leave = True
    if S is None:
        return ctx.decide(False if clear(i) else None, 'answer-index', name, ev.loc, 'the answer stored is %s' % show(i)[:100])
    if leave and not any(f.op == 'eq0' and any(y.op == 'strof' and has(y, i) for y in walk(f)) for f in b.facts):
        return ctx.unk('answer-index', name, S.loc, 'search left under another condition')
    for sb in S.bodies:
        fs = [f for f in sb.facts if f.op == 'not' and f.args[0].op == 'eq0' and any(y.op == 'strof' for y in walk(f))]
        if leave and sb.kind in ('return', 'break'):
            continue
        if sb.kind != 'next' or len(fs) != 1:
            on = [f for f in sb.facts if f.op == 'eq0' and any(y.op == 'strof' and y.args[0].op in ('index', 'elem') and y.args[0].args[0] is ln.args[0] and y.args[0].args[1] is S.iota for y in walk(f))]
            return ctx.decide(False if sb.kind == 'next' and on and not fs else None, 'answer-index', name, S.loc, 'goes on behind the original')
        st = {y.args[0] for y in walk(fs[0]) if y.op == 'strof'}
        c = [y for y in st if y.op in ('index', 'elem') and y.args[0] is ln.args[0] and y.args[1] is S.iota]
        o = [y for y in st if y not in c]
        good = len(c) == 1 and len(o) == 1 and o[0].op == 'index' and has(o[0], ln.args[0].args[1])
        ctx.decide(True if good else None, 'answer-index', name, S.loc, 'search condition %s' % show(fs[0])[:160])
    ctx.decide(True if prove(b.facts, cmp_ge(sub(sub(ln, const(1)), i))) else None, 'answer-range', name, ev.loc, 'the answer may lie outside the candidates')


def work_list(ctx, b, key, name, L):
    """the address handled leaves the list of addresses still to do"""
    if key.op != 'index' or key.args[0].op != 'obj':
        return
    w, i = key.args[0], key.args[1]
    ps = [(ev, ls) for ev, ls in events(b.trace) if ev.kind in ('Pop', 'Remove', 'DelItem', 'DelSlice') and ev.a[0] is w]
    if len(ps) == 1 and not ps[0][1] and ps[0][0].kind == 'Pop':
        j = ps[0][0].a[1]
        if any(ev.kind == 'Sort' and ev.a[0] is w for ev in b.trace[:b.trace.index(ps[0][0])] if isinstance(ev, Ev)):
            return ctx.unk('each-address', name, ps[0][0].loc, 'reordered before it is taken out')
        same = j is i
        ctx.decide(True if same else (False if num_val(j) is not None and num_val(i) is not None else None), 'each-address', name, ps[0][0].loc,
                   'address %s is handled, address %s is taken out' % (show(i), show(j)))
    elif not ps:
        ctx.decide(None, 'each-address', name, L.loc, 'no address is taken out')
    else:
        ctx.decide(None, 'each-address', name, L.loc, 'several')


def mk_bitlen(x):
    r = mk('mcall', x, 'bit_length')
    return r


def bit_formula(w, ln, facts):
    """does an expression of the number of candidates differ from the fewest bits? None when that is not known"""
    known = None
    for n in list(range(1, 70)) + [127, 128, 129, 1000]:
        v = value_at(w, {ln: n})
        if v is None or inconsistent(tuple(facts) + (cmp_eq(ln, const(n)),)):
            continue
        if v != (n - 1).bit_length():
            return True
        known = False
    return known
