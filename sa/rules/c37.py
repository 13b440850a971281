"""C37: probabilities of independent events — product, inclusion and exclusion over every subset, uniform density."""
from ..terms import *
from ..prove import prove, inconsistent
from ..engine import LoopItem, Ev, V0
from ..fold import loop_index, steps, init_of, out_key
from ..shape import linear, has
from ..sample import apart
from ..report import events

MOD = 'probability.probabilities'


def run(ctx):
    ctx.part(density)
    ctx.part(intersection)
    ctx.part(union)


def results(ctx, name):
    f = ctx.func(MOD, name)
    eng, sts = ctx.run(f)
    if not sts:
        ctx.unk('budget', name, f.where())
    return f, eng, sts or [], [mk('sym', a.arg) for a in f.node.args.args]


def clear(t, *known):
    return all(x in known or x.op in ('poly', 'const', 'inv', 'v0', 'len', 'elem', 'index', 'out', 'hav') for x in walk(t))


def density(ctx):
    f, eng, sts, ps = results(ctx, 'uniform')
    for s in sts:
        if s.exit[0] != 'return' or len(ps) != 2:
            ctx.unk('uniform', f.qual, f.where(), 'ends with %s' % s.exit[0])
            continue
        want = div(const(1), sub(ps[1], ps[0]))
        v = s.exit[1]
        ctx.decide(True if v is want else False if clear(v, *ps) or apart(s.facts, v, want, ()) else None, 'uniform', f.qual, f.where(), 'the density between a and b is `%s`' % show(v)[:100])


def elem_of(L, t, seq):
    """t is the element of the sequence at this iteration"""
    return t is L.elem and L.seq is seq or t.op in ('elem', 'index') and t.args[0] is seq and t.args[1] is L.iota


def whole(L, seq):
    """the loop goes over every element of the sequence: True / False / None"""
    q = L.seq
    if q is None or q is False:
        return None
    while q.op in ('enumerate', 'list', 'tuple') and q.args and isinstance(q.args[0], T):
        q = q.args[0]
    if q is seq:
        return True
    if q.op == 'range' and len(q.args) >= 2:
        n = [x for x in walk(q.args[1]) if x.op == 'len' and x.args[0] is seq]
        st = q.args[2] if len(q.args) > 2 else const(1)
        if n:
            a, b, c = num_val(q.args[0]), num_val(sub(q.args[1], n[0])), num_val(st)
            if None not in (a, b, c):
                return (a, b, c) == (0, 0, 1)
    if q.op == 'slice' or q.op == 'index':
        return None
    return None


def product(eng, t, index, seq, pick=None):
    """(True / False / None, why): t is the product over all elements of seq of pick(element) (the element itself)"""
    if t.op in ('prod', 'product') and t.args and t.args[0] is seq:
        return True, 'the product'
    if t.op == 'call' and 'prod' in show(t.args[0]) and len(t.args) == 2 and t.args[1] is seq and pick is None:
        return True, 'math.prod'
    if t.op == 'call' and t.args[0].op == 'builtin' and t.args[0].args[0] in ('round', 'int') and any(y.op == 'out' for y in walk(t)):
        return False, 'the product is rounded'
    r = steps(eng, t, index)
    if r is None:
        return None, 'not an accumulated product: %s' % show(t)[:80]
    init, st = r
    i = None if init is None else num_val(init)
    if i is None:
        e = init if init is not None and init.op in ('index', 'elem') and init.args[0] is seq else None
        if e is not None and whole(index[t.args[0]], seq) is True and all(x.op == 'prod' and elem_of(index[t.args[0]], x.amount, seq) for x in st):
            return False, 'an event is taken before the loop over all of them takes it again'
        return None, 'where it starts is not followed'
    if i != 1:
        return False, 'starts at %s' % i
    L = index[t.args[0]]
    w = whole(L, seq)
    if w is None and L.seq is not None and L.seq is not False and L.seq.op == 'obj' and len(L.seq.args) > 1 and L.seq.args[1] == 'set':
        return False, 'goes over a set, where equal probabilities are one'
    if w is not True:
        return w, 'goes over %s' % show(L.seq)[:80]
    if any(b.kind in ('break', 'return') for b in L.bodies):
        return None, 'the loop is left early'
    for x in st:
        if x.op == 'keep':
            own = [g for g in x.facts if any(elem_of(L, y, seq) for y in walk(g)) and g.op != 'in']
            one = any(prove([g], cmp_eq(y, const(1))) for g in own for y in walk(g) if elem_of(L, y, seq))
            plain = own and all(y.op in ('truth', 'eq0', 'ge0', 'gt0', 'not', 'poly', 'const', 'v0') or elem_of(L, y, seq) for g in own for y in walk(g) if y not in (seq, L.iota))
            return (False if plain and not one else None), 'an element is left out when %s' % ' and '.join(show(g)[:60] for g in own)
        if x.op != 'prod':
            return (False if x.op == 'sum' else None), 'an element is %s' % x.op
        a = x.amount
        e = pick(a, L) if pick else elem_of(L, a, seq)
        if e is not True:
            return (e if e is None else False), 'multiplied by `%s`' % show(a)[:80]
    return True, 'the product over all'


def intersection(ctx):
    f, eng, sts, ps = results(ctx, 'indep_intersection')
    for s in sts:
        if s.exit[0] != 'return':
            ctx.unk('intersection', f.qual, f.where(), 'ends with %s' % s.exit[0])
            continue
        v = s.exit[1]
        if num_val(v) == 1 and any(x.op == 'not' and x.args[0].op == 'truth' and x.args[0].args[0] is ps[0] or x.op == 'eq0' and any(y.op == 'len' for y in walk(x)) for x in s.facts):
            ctx.ok('intersection', f.qual, f.where(), 'nothing to intersect')
            continue
        early = [it for it in s.items() if isinstance(it, LoopItem) and it.body is not None]
        if early and num_val(v) is not None:
            fs = [g for g in s.facts if any(y.op in ('hav', 'elem') for y in walk(g))]
            zero = any(g.op == 'eq0' for g in fs)
            plain = fs and not any(y.op in ('call', 'mcall', 'unk', 'fn', 'attr') for g in fs for y in walk(g))
            ctx.decide(None if zero or not plain else False, 'intersection', f.qual, f.where(), 'given up with %s when %s' % (num_val(v), ' and '.join(show(g)[:60] for g in fs)))
            continue
        ok, why = product(eng, v, loop_index(s.items()), ps[0])
        ctx.decide(ok, 'intersection', f.qual, f.where(), why)


def parity(fs, n):
    """True: n odd, False: even, None: not told"""
    out = None
    for f in fs:
        pos, h = (False, f.args[0]) if f.op == 'not' else (True, f)
        if h.op != 'eq0':
            continue
        p = h.args[0]
        if not any(x is n for x in walk(p)):
            continue
        for k, odd in ((0, False), (1, True)):
            # n mod 2 == k
            if cmp_eq(mod(n, const(2)), const(k)) is h:
                out = odd if pos else not odd
    return out


def union(ctx):
    f, eng, sts, ps = results(ctx, 'indep_events_union')
    P = ps[0]
    for s in sts:
        empty = [x for x in s.facts if any(y.op in ('len', 'truth') and y.args[0] is P for y in walk(x))]
        if s.exit[0] == 'raise':
            n = [x for x in walk_all(s.facts) if x.op == 'len' and x.args[0] is P]
            z = {x: const(1) for x in n}
            some = [subst(x, z) for x in s.facts]
            only = not n and any(x.op == 'not' and x.args[0].op == 'truth' and x.args[0].args[0] is P for x in s.facts) or n and FALSE in some
            if n and not only and not any(x.op not in ('eq0', 'ge0', 'not', 'len', 'poly', 'const', 'v0') and x is not P for f_ in s.facts for x in walk(f_)):
                ctx.bad('refused', f.qual, f.where(), 'a list with probabilities is refused when %s' % ' and '.join(show(x)[:80] for x in s.facts))
            else:
                ctx.decide(True if only else None, 'refused', f.qual, f.where(), 'only the empty list is refused')
            continue
        if s.exit[0] != 'return':
            ctx.unk('union', f.qual, f.where(), 'ends with %s' % s.exit[0])
            continue
        v, index = s.exit[1], loop_index(s.items())
        if num_val(v) is not None:
            zero = [subst(x, {y: const(1) for y in walk(x) if y.op == 'len' and y.args[0] is P}) for x in s.facts]
            ctx.decide(False if not empty else None, 'union', f.qual, f.where(), 'the union is always %s' % num_val(v)) if FALSE not in zero else \
                ctx.bad('refused', f.qual, f.where(), 'the union of no events is %s instead of being refused' % num_val(v))
            continue
        # 1 - prod(1 - p)
        outs = [x for x in walk(v) if x.op == 'out' and x.args[0] in index]
        if len(outs) == 1 and linear(v, outs[0]) is not None and num_val(linear(v, outs[0])[0]) == -1 and num_val(linear(v, outs[0])[1]) == 1:
            ok, why = product(eng, outs[0], index, P, lambda a, L: True if num_val(add(a, elem(L, a, P))) == 1 else None)
            ctx.decide(ok, 'union', f.qual, f.where(), why)
            continue
        if len(outs) == 1 and v.op in ('min', 'max') and any(x is outs[0] for x in v.args):
            c = [num_val(x) for x in v.args if x is not outs[0]]
            if c and None not in c and (v.op == 'min' and min(c) < 1 or v.op == 'max' and max(c) > 0):
                ctx.bad('union', f.qual, f.where(), 'the result is cut: %s' % show(v)[:80])
                continue
        if not (len(outs) == 1 and v is outs[0]):
            ctx.unk('union', f.qual, f.where(), 'the result is not followed: %s' % show(v)[:100])
            continue
        L = index[v.args[0]]
        if L.seq is not None and L.seq is not False:
            ctx.part(one_by_one, f, eng, L, v, P)
        else:
            ctx.part(subsets, f, eng, L, v, P, s)


def walk_all(ts):
    for t in ts:
        for x in walk(t):
            yield x


def elem(L, a, P):
    e = [x for x in walk(a) if elem_of(L, x, P)]
    return e[0] if e else const(0)


def one_by_one(ctx, f, eng, L, v, P):
    """result = result + p - result * p"""
    k = out_key(v)
    hv, i = L.hav.get(k), init_of(eng, L, k)
    if hv is None or i is None or num_val(i) is None:
        return ctx.unk('union', f.qual, L.loc, 'where it starts is not followed')
    w = whole(L, P)
    for b in L.bodies:
        a = eng.get_key(b.state, k)
        l = a is not None and linear(a, hv)
        if not l or b.kind != 'next' or w is not True:
            return ctx.unk('union', f.qual, L.loc, 'what is added is not followed')
        e = elem(L, l[1], P)
        good = l[1] is e and num_val(add(l[0], e)) == 1 and num_val(i) == 0
        ctx.decide(True if good else None, 'union', f.qual, L.loc, 'r + p - r p for every event')


def subsets(ctx, f, eng, L, v, P, s):
    """every non-empty subset once: the places of a subset in ascending order on a stack"""
    k = out_key(v)
    hv, i = L.hav.get(k), init_of(eng, L, k)
    if hv is None:
        return ctx.unk('union', f.qual, L.loc, 'the sum is not followed')
    ctx.decide(None if i is None or num_val(i) is None else num_val(i) == 0, 'union', f.qual, L.loc, 'the sum starts at %s' % (show(i) if i is not None else '?'))
    stacks = {x.args[0] for b in L.bodies for g in b.facts for x in walk(g) if x.op == 'truth' and x.args[0].op == 'obj'} | \
             {x.args[0] for b in L.bodies for g in b.facts for x in walk(g) if x.op == 'len' and x.args[0].op == 'obj'}
    if len(stacks) != 1:
        return ctx.unk('subsets', f.qual, L.loc, 'the stack of places is not recognised')
    E = stacks.pop()
    pre = [e for e in s.items() if isinstance(e, Ev) and e.kind in ('Append', 'NewList', 'Extend', 'Insert') and e.a[0] is E]
    first = [e.a[1] for e in pre if e.kind == 'Append']
    listed = [e.a[1] for e in pre if e.kind == 'NewList' and len(e.a) > 1]
    if len(first) == 1 and len(pre) == 2:
        n = num_val(first[0])
        ctx.decide(None if n is None else n == 0, 'subsets', f.qual, L.loc, 'the first subset begins with place %s' % n)
    else:
        ctx.unk('subsets', f.qual, L.loc, 'the first subset is not followed')
    n = mk('len', P, V0)
    for b in L.bodies:
        if b.kind not in ('next', 'break') or inconsistent(tuple(b.facts)):
            continue
        if b.kind == 'break':
            ctx.unk('subsets', f.qual, L.loc, 'the enumeration may be left early')
            continue
        index = loop_index(b.trace)
        after = eng.get_key(b.state, k)
        d = sub(after, hv)
        lens = [x for g in b.facts for x in walk(g) if x.op == 'len' and x.args[0] is E and is_head(x, L)]
        odd = parity(b.facts, lens[0]) if lens else None
        outs = [x for x in walk(d) if x.op == 'out']
        if len(outs) != 1 or odd is None:
            c = num_val(div(d, outs[0])) if len(outs) == 1 else None
            wrong = sized(b.facts, lens[0], c) if lens and c is not None else None
            if wrong:
                ctx.bad('union', f.qual, L.loc, 'a subset of %d events is added %s times' % (wrong, c))
            elif not outs and d.op in ('const', 'poly'):
                ctx.bad('union', f.qual, L.loc, 'a subset adds `%s`' % show(d)[:80])
            elif len(outs) == 1 and num_val(div(d, outs[0])) is not None and not any(x.op in ('floordiv', 'mod', 'unk', 'hav') and not is_ver(x) for x in walk_all(b.facts)):
                ctx.bad('union', f.qual, L.loc, 'subsets of odd and of even size are added with the same sign')
            else:
                ctx.unk('union', f.qual, L.loc, 'what a subset adds is not followed: %s' % show(d)[:80])
        else:
            c = num_val(div(d, outs[0]))
            ctx.decide(None if c is None else c == (1 if odd else -1), 'union', f.qual, L.loc, 'a subset of %s size is added %s times' % ('odd' if odd else 'even', c))
            ok, why = product(eng, outs[0], index, E, lambda a, I: picks(a, I, E, P))
            ctx.decide(ok, 'union', f.qual, L.loc, 'of the events of the subset: ' + why)
        advance(ctx, f, L, b, E, P, n)


def sized(fs, n, c):
    """a size of subset that takes this path although it is to be added the other way"""
    fs = [g for g in fs if any(x is n for x in walk(g)) and subst(g, {n: const(1)}) in (TRUE, FALSE)]
    if not fs:
        return None
    for k in range(1, 9):
        gs = [subst(g, {n: const(k)}) for g in fs]
        if all(g is TRUE for g in gs) and c != (1 if k % 2 else -1):
            return k
    return None


def picks(a, I, E, P):
    if a.op in ('index', 'elem') and a.args[0] is P:
        return True if elem_of(I, a.args[1], E) else False if a.args[1] is I.iota else None
    return False if elem_of(I, a, E) else None


def is_ver(x):
    return x.op == 'hav' and len(x.args) > 1 and isinstance(x.args[1], tuple) and x.args[1][:1] == ('ver',)


def is_head(x, L):
    """the stack as it was at the head of the iteration"""
    return x.args[-1].op == 'hav' if isinstance(x.args[-1], T) else False


def last(x, E):
    """x is the last place on the stack: 0 as found, 1 after one was taken off"""
    if x.op not in ('index', 'elem') or x.args[0] is not E:
        return None
    pops = sum(1 for y in walk(x.args[2]) if y.op == 'mut' and 'pop' in y.args[1:]) if len(x.args) > 2 and isinstance(x.args[2], T) else 0
    i = x.args[1]
    if num_val(i) == -1:
        return pops
    if any(y.op == 'len' and y.args[0] is E and num_val(sub(i, y)) == -1 for y in walk(i)):
        return pops
    return None


def neither(fs, top, P):
    """what is known compares the last place with the number of events by a plain bound, or not at all"""
    rel = [g for g in fs if any(x is top for x in walk(g))]
    return all(g.op in ('ge0', 'gt0', 'eq0', 'in') for g in rel)


def advance(ctx, f, L, b, E, P, n):
    """the next subset: one place more while there is one, otherwise the last one goes and the one before moves on"""
    evs = [e for e in b.trace if isinstance(e, Ev) and e.a and e.a[0] is E and e.kind in ('Append', 'Pop', 'SetItem', 'Insert', 'Extend', 'Remove', 'DelItem', 'Clear', 'Update', 'Havoc')]
    kinds = tuple(e.kind for e in evs)
    tops = [x for x in walk_all(b.facts) if last(x, E) == 0] + [x for e in evs for a in e.a[1:] if isinstance(a, T) for x in walk(a) if last(x, E) == 0]
    if not tops:
        return ctx.unk('subsets', f.qual, L.loc, 'the last place of the subset is not followed')
    top = tops[0]
    more = cmp_gt(sub(n, add(top, const(1))))
    can, cannot = prove(b.facts, more), prove(b.facts, neg_lit(more))
    left = None
    for g in b.facts:
        pos, h = (False, g.args[0]) if g.op == 'not' else (True, g)
        if h.op == 'truth' and h.args[0] is E and len(h.args) > 1 and any(y.op == 'mut' and 'pop' in y.args[1:] for y in walk(h.args[1])):
            left = pos
    if kinds == ('Append',):
        by = num_val(sub(evs[0].a[1], top))
        if by is None:
            return ctx.unk('subsets', f.qual, evs[0].loc, 'the place put on is not followed')
        if by != 1:
            return ctx.bad('subsets', f.qual, evs[0].loc, 'the subset goes on with the place %+d after its last' % by)
        return ctx.decide(True if can else False if cannot or neither(b.facts, top, P) else None, 'subsets', f.qual, evs[0].loc, 'a place is added %s' % ('while there is one' if can else 'past the last event'))
    if kinds in (('Pop',), ('Pop', 'SetItem')):
        if num_val(evs[0].a[1]) != -1:
            return ctx.decide(False if num_val(evs[0].a[1]) is not None else None, 'subsets', f.qual, evs[0].loc, 'place %s is taken off' % show(evs[0].a[1]))
        if not cannot:
            return ctx.decide(False if can or neither(b.facts, top, P) else None, 'subsets', f.qual, evs[0].loc, 'a subset is left although an event after its last is there')
        if len(evs) == 1:
            return ctx.decide(True if left is False else False if left is True else None, 'subsets', f.qual, evs[0].loc, 'the last subset' if left is False else 'the place before does not move on')
        st = evs[1]
        if num_val(st.a[1]) is not None and num_val(st.a[1]) >= 0:
            return ctx.bad('subsets', f.qual, st.loc, 'place %s of the subset moves on, not its last' % show(st.a[1]))
        d = [x for x in walk(st.a[2]) if last(x, E) == 1]
        by = num_val(sub(st.a[2], d[0])) if d else None
        at = mk('index', E, st.a[1], d[0].args[2]) if d else None
        place = last(at, E) if at is not None else None
        return ctx.decide(None if by is None or place is None else by == 1 and left is True, 'subsets', f.qual, st.loc, 'the place before moves on by %s' % by)
    if kinds[:2] == ('Pop', 'Pop') and 'Append' not in kinds and 'Insert' not in kinds and 'Extend' not in kinds:
        return ctx.bad('subsets', f.qual, evs[1].loc, 'two places are taken off at once, the subsets in between are left out')
    if not kinds:
        return ctx.bad('subsets', f.qual, L.loc, 'the same subset stays, when %s' % ' and '.join(show(x)[:60] for x in b.facts))
    ctx.unk('subsets', f.qual, L.loc, 'how the next subset is found is not followed: %s' % (kinds,))
