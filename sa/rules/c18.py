"""C18: the distance score of a candidate searches exactly the addresses the metadata allows for the writer of what it reads."""
from ..terms import *
from ..prove import prove, inconsistent
from ..report import events, loops_of, conj
from ..fold import loop_index, steps, init_of
from ..shape import *
from ..tally import Reader, atom, relations, plain, clear_all
from ..engine import LoopItem
from .c11 import seq_of
from .c12 import cell
from .c14 import writer, filed, fact

MOD = 'metadata.recuperator'
WORD = 4


def run(ctx):
    ctx.part(distance)


def table(t, name):
    return t.op == 'attr' and t.args[1] == name


def method_of(t, name, recv=None):
    return t.op == 'mcall' and t.args[1] == name and (recv is None or t.args[0] is recv)


def distance(ctx):
    f = writer(ctx, '_compute_register_distance', 'prd')
    if f is None:
        return ctx.unk('filed', 'prd', '', 'no method files this score')
    params = [a.arg for a in f.node.args.args]
    if 'inst' not in params or 'addr' not in params:
        return ctx.unk('shape', 'prd', f.where(), 'parameters %s' % ', '.join(params))
    I, A = mk('sym', 'inst'), mk('sym', 'addr')
    P, M = mk('attr', mk('sym', 'self'), '_program'), mk('attr', mk('sym', 'self'), '_model')
    eng, sts = ctx.run(f, limit=120)
    if not sts:
        return ctx.unk('budget', 'prd')
    seen = set()
    for s in sts:
        fs = tuple(s.facts)
        if inconsistent(fs):
            continue
        skip = fact(fs, 'is_branch') is True or fact(fs, 'is_push_pop') is True
        put = filed(s, 'prd')
        where = put[-1][1].loc if put else f.where()
        clearly = clear_all([q for q in fs if not has_op(q, 'out')])
        if fact(fs, 'ignore') is True:
            continue
        if s.exit[0] == 'raise':
            ctx.decide(False if clear_all(fs) else None, 'total', 'prd', f.where(), 'fails under %s' % conj(fs)[-200:])
            continue
        if skip:
            ctx.decide(True if not put else (False if clearly else None), 'optional', 'prd', where, 'a branch, push or pop gets a distance score')
            continue
        if not put:
            ctx.decide(False if clear_all(fs) else None, 'filed', 'prd', f.where(), 'no score under %s' % conj(fs)[-200:])
            continue
        if fact(fs, 'is_branch') is None or fact(fs, 'is_push_pop') is None:
            ctx.decide(False if clearly else None, 'optional', 'prd', where, 'a branch, push or pop gets a distance score')
        if put[-1][2]:
            ctx.unk('filed', 'prd', where, 'filed in a loop')
            continue
        items = list(s.items())
        outer = [it.loop for it in items if isinstance(it, LoopItem) and any(method_of(y, 'storages_read', I) for y in (walk(it.loop.seq) if it.loop.seq is not None else ()))]
        other = [it.loop for it in items if isinstance(it, LoopItem) and it.loop not in outer]
        if len(outer) != 1:
            wrong = [l for l in other if l.seq is not None and l.seq.op == 'mcall' and l.seq.args[0] is I and l.seq.args[1].startswith(('storages', 'registers'))]
            if not outer and len(wrong) == 1:
                ctx.bad('reads', 'prd', wrong[0].loc, 'runs over %s, not what the instruction reads' % show(wrong[0].seq))
            else:
                ctx.unk('reads', 'prd', where, 'the storages read are not searched in one loop')
            continue
        L = outer[0]
        if not method_of(seq_of(L), 'storages_read', I):
            ctx.unk('reads', 'prd', L.loc, 'runs over %s' % show(L.seq)[:80])
            continue
        it = next(x for x in items if isinstance(x, LoopItem) and x.loop is L)
        stop = {eng.get_key(it.body.state, k) for k in L.hav if k[0] == 'env'} - {None} if it.body is not None and it.body.kind == 'break' else set()
        final(ctx, eng, s, put[-1][0], where, L, M, fs, stop)
        if id(L) in seen:
            continue
        seen.add(id(L))
        storage(ctx, eng, L, A, P, M)


def outs_of(t, lid):
    return [y for y in walk(t) if y.op == 'out' and y.args[0] == lid]


def final(ctx, eng, s, v, where, L, M, fs, stop):
    """the score is one minus what the loop left, the low probability when that is nothing"""
    low = mk('attr', M, 'low_probability')
    if stop:
        if v is low:
            good = any(prove(fs, cmp_ge(sub(x, const(1)))) is True for x in stop)
        else:
            good = any(v is sub(const(1), x) for x in stop)
        xs = {y for q in fs for y in walk(q) if y.op in ('hav', 'out')}
        return ctx.decide(True if good else (False if plain_but(v, xs) and all(plain_but(q, xs) for q in fs) else None), 'complement', 'prd', where, 'the score is %s' % show(v)[:120])
    if v is low:
        xs = {y for q in fs for y in outs_of(q, L.lid)}
        good = any(prove(fs, cmp_ge(sub(x, const(1)))) is True for x in xs)
        ctx.decide(True if good else (False if all(plain_but(q, xs) for q in fs) else None), 'low', 'prd', where, 'the low probability is given under %s' % conj(fs)[-160:])
        return
    xs = set(outs_of(v, L.lid))
    if len(xs) != 1:
        ctx.decide(False if plain(v) else None, 'complement', 'prd', where, 'the score is %s' % show(v)[:120])
        return
    x = list(xs)[0]
    l = linear(v, x)
    if v.op == 'max' and set(v.args) == {low, sub(const(1), x)}:
        return ctx.ok('complement', 'prd', where)
    ok = l is not None and num_val(l[0]) == -1 and num_val(l[1]) == 1
    ctx.decide(True if ok else (False if l is not None and plain(l[0]) and plain(l[1]) else None), 'complement', 'prd', where, 'the score is %s' % show(v)[:120])
    if ok:
        pos = prove(fs, cmp_gt(sub(const(1), x))) is True
        ctx.decide(True if pos else (False if all(plain_but(q, xs) for q in fs) else None), 'low', 'prd', where, 'nothing found gives the score zero, not the low probability')


def plain_but(q, xs):
    return plain(subst(q, {x: mk('sym', 'the product', 'iter') for x in xs}))


def storage(ctx, eng, L, A, P, M):
    r = L.elem
    for b in L.bodies:
        fs = tuple(b.facts)
        if inconsistent(fs):
            continue
        if b.kind not in ('next', 'break'):
            ctx.unk('shape', 'prd', L.loc, 'a search that ends with %s' % b.kind)
            continue
        have = {n: next((q.op != 'not' for q in fs for h in ((q.args[0] if q.op == 'not' else q),) if h.op == 'in' and h.args[0] is r and table(h.args[1], n)), None)
                for n in ('storage_min_dist', 'storage_max_dist')}
        known = all(have.values())
        lk = [(y, n) for q in fs + tuple(x.loop.seq for x in b.trace if isinstance(x, LoopItem) and x.loop.seq is not None) for y in vwalk(q) for n in have
              if y.op == 'index' and y.args[1] is r and table(y.args[0], n) and have[n] is not True]
        if lk:
            ctx.bad('total', 'prd', L.loc, 'the distance of a storage the metadata does not have is looked up')
            continue
        inner = [it.loop for it in b.trace if isinstance(it, LoopItem)]
        if len(inner) != 1:
            ctx.decide(False if not inner and clear_all(fs) and not any(v is False for v in have.values()) else None, 'search', 'prd', L.loc, 'no addresses searched under %s' % conj(fs)[-160:])
            continue
        W = inner[0]
        lo = hi = const(0)
        if any(have.values()) and not any(v is False for v in have.values()):
            ds = {n: next((y for y in vwalk(W.seq if W.seq is not None else A) if y.op == 'index' and y.args[1] is r and table(y.args[0], n)), None) for n in have}
            if None in ds.values():
                missing = [n for n in ds if ds[n] is None]
                if W.seq is not None and W.seq.op == 'range' and all(plain(x) for x in W.seq.args):
                    ctx.bad('window', 'prd', W.loc, 'the addresses searched do not depend on %s' % ' and '.join(missing))
                else:
                    ctx.unk('window', 'prd', W.loc, 'addresses %s' % (show(W.seq)[:120] if W.seq is not None else '?'))
                continue
            lo, hi = ds['storage_min_dist'], ds['storage_max_dist']
        elif all(v is None for v in have.values()):
            ctx.unk('window', 'prd', W.loc, 'distances looked up in another way')
            continue
        addr = address(W, P)
        window(ctx, W, addr, sub(A, scale(add(hi, const(1)), WORD)), sub(A, scale(add(lo, const(1)), WORD)))
        wi = next(x for x in b.trace if isinstance(x, LoopItem))
        if wi.body is not None and wi.body.kind == 'break':
            for k in W.hav:
                v = eng.get_key(wi.body.state, k)
                if v is not None and k[0] == 'env' and has(v, W.hav[k]) and v is not W.hav[k]:
                    use(ctx, eng, L, b, W, v, M, fs)
        else:
            product(ctx, eng, L, b, W, addr, P, M, r, fs)


def address(W, P):
    """the address a round of the search looks at"""
    ks = []
    for b in W.bodies:
        for q in tuple(b.facts) + tuple(x.loop.seq for x in b.trace if isinstance(x, LoopItem) and x.loop.seq is not None):
            for y in vwalk(q):
                k = y.args[1] if y.op == 'index' and y.args[0] is P else y.args[0] if y.op == 'in' and y.args[1] is P else None
                if k is not None and k not in ks:
                    ks.append(k)
    return ks[0] if len(ks) == 1 else W.elem


def window(ctx, W, addr, first, last):
    """the addresses are those from first to last, a word apart"""
    S = W.seq
    if S is not None and S.op == 'range' and addr is not W.elem:
        i = next((y for y in walk(W.elem) if y.op == 'sym'and y.args[0] == 'i_' + W.lid), None)
        l, m = (linear(addr, i), linear(W.elem, i)) if i is not None else (None, None)
        c = None if not l or not m or num_val(l[0]) is None or num_val(m[0]) in (None, 0) else num_val(l[0]) / num_val(m[0])
        if c is None:
            return ctx.unk('window', 'prd', W.loc, 'addresses %s' % show(addr)[:120])
        d = sub(l[1], scale(m[1], c))
        S = mk('range', *(add(scale(x, c), d) for x in S.args[:2]), scale(S.args[2], c))
    if S is None or S.op != 'range':
        return ctx.unk('window', 'prd', W.loc, 'addresses %s' % (show(S)[:120] if S is not None else '?'))
    a, b, st = S.args[:3]
    n = num_val(st)
    if n in (-1, -WORD):
        # the same addresses upwards
        if n == -1:
            a, b, n = add(b, const(1)), add(a, const(1)), 1
        else:
            k = num_val(sub(a, last))
            if k is None:
                return ctx.decide(False if plain(sub(a, last)) else None, 'window', 'prd', W.loc, 'searches down from %s' % show(a)[:80])
            d = num_val(sub(b, first))
            good = k == 0 and d is not None and -WORD <= d < 0
            return ctx.decide(True if good else (False if plain(b) else None), 'window', 'prd', W.loc, 'searches from %s down to before %s' % (show(a)[:80], show(b)[:80]))
    if n not in (1, WORD):
        return ctx.decide(False if n is not None else None, 'window', 'prd', W.loc, 'searches every %s' % show(st))
    d1, d2 = num_val(sub(a, first)), num_val(sub(b, last))
    if d1 is None or d2 is None:
        for y in set(x for x in walk(a) if x.op in ('min', 'max') and len(x.args) == 2):
            k, o = sorted(y.args, key=lambda t: num_val(t) is None)
            if num_val(k) is not None and o.op == 'index' and num_val(sub(subst(a, {y: o}), first)) is not None and num_val(k) > 0:
                return ctx.bad('window', 'prd', W.loc, 'the farthest distance is bounded: %s' % show(y)[:100])
        return ctx.decide(False if plain(sub(a, first)) and plain(sub(b, last)) and not has_op(a, 'min', 'max', 'ite') and not has_op(b, 'min', 'max', 'ite') else None,
                          'window', 'prd', W.loc, 'searches from %s to before %s' % (show(a)[:80], show(b)[:80]))
    good = (-WORD < d1 <= 0 if n == 1 else d1 == 0) and 1 <= d2 <= WORD
    ctx.decide(good, 'window', 'prd', W.loc, 'searches from %d bytes off the farthest to before %d bytes off the nearest address' % (d1, d2))


def product(ctx, eng, L, b, W, addr, P, M, r, fs):
    idx = loop_index(b.trace)
    # what enters the score: the accumulator of the search
    ps = set()
    for k in L.hav:
        v = eng.get_key(b.state, k)
        if v is not None:
            ps |= set(outs_of(v, W.lid))
    for q in fs:
        ps |= set(outs_of(q, W.lid))
    acc = {}
    for p in ps:
        st = steps(eng, p, idx)
        if st is None or st[0] is None:
            continue
        if any(x.op == 'prod' for x in st[1]) or num_val(st[0]) == 1:
            acc[p] = st
    def idle(b):
        return all(isinstance(t, LoopItem) and all(idle(y) for y in t.loop.bodies) or getattr(t, 'kind', '') not in ('Append', 'Extend', 'SetItem', 'SetAttr', 'Insert', 'CallUnknown', 'Inc')
                   for t in b.trace)
    if not ps and W.bodies and all(b.kind != 'return' and idle(b) for b in W.bodies):
        return ctx.bad('product', 'prd', W.loc, 'what the addresses before hold does not matter')
    if len(acc) != 1:
        return ctx.unk('product', 'prd', W.loc, 'the share without a writer is not accumulated as a product')
    (p, (init, st)), = acc.items()
    if num_val(init) != 1:
        ctx.decide(False if num_val(init) is not None or init.op == 'hav' else None, 'product', 'prd', W.loc, 'the product starts at %s' % show(init)[:60])
        return
    def source(s):
        c = cell(s)
        return 'there' if c is not None and c[0] is P and c[1] is addr else None
    feats = {
        'valid': lambda h, x: -1 if h.op == 'truth' and h.args[0].op == 'attr' and h.args[0].args == (x, 'ignore') else 0,
        'writes': lambda h, x: 1 if h.op == 'in' and h.args[0] is r and method_of(h.args[1], 'storages_written', x) else 0,
    }
    rel = tuple(relations('there', ('valid', 'writes')))
    for q in st:
        wb = q.chain[-1][1]
        rd = Reader(eng, list(wb.trace), feats, source)
        g = tuple(rd.canonical(x) for x in q.facts)
        if any(x is FALSE for x in g):
            continue
        g = tuple(x for x in g if x is not TRUE) + rel
        if inconsistent(g):
            continue
        absent = any(x.op == 'not' and x.args[0].op == 'in' and x.args[0].args[0] is addr and x.args[0].args[1] is P for x in q.facts)
        T, C = atom('there', ('valid',)), atom('there', ('valid', 'writes'))
        if absent:
            ctx.decide(q.op == 'keep' or None, 'product', 'prd', W.loc, 'an address that is not there changes the product')
        elif not any(x.op == 'in' and x.args[0] is addr and x.args[1] is P for x in q.facts) and not over(W, P):
            ctx.decide(False if settled(g) else None, 'total', 'prd', W.loc, 'an address that may not be there is looked up')
        if not absent:
            amount = const(1) if q.op == 'keep' else rd.canonical(q.amount) if q.amount is not None else None
            for text, loc in rd.why:
                ctx.bad('count', 'prd', loc, text)
            if q.op in ('keep', 'prod'):
                none = prove(g, cmp_ge(neg(T))) is True
                if none:
                    good = num_val(amount) == 1
                else:
                    good = amount is sub(const(1), div(C, T)) or num_val(amount) == 1 and prove(g, cmp_ge(neg(C))) is True
                    if not good and q.op == 'keep' and wb.kind == 'next':
                        good = False if settled(g) else None
                ctx.decide(True if good else (False if plain(amount) and settled(g) else None), 'product', 'prd', W.loc, 'multiplies by %s under %s' % (show(amount)[:160], conj(g)[-120:]))
            else:
                ctx.decide(False if plain(rd.canonical(q.amount)) and settled(g) else None, 'product', 'prd', W.loc, 'not a product: %s' % show(q.amount)[:120])
            for ev in wb.trace:
                if not isinstance(ev, LoopItem) and getattr(ev, 'kind', '') == 'Div':
                    d = rd.canonical(ev.a[0])
                    h = tuple(rd.canonical(x) for x in tuple(q.facts)) + rel
                    nz = num_val(d) not in (None, 0) or prove(h, cmp_ge(sub(d, const(1)))) is True
                    ctx.decide(True if nz else (False if plain(d) and settled(h) else None), 'division', 'prd', ev.loc, 'division by %s' % show(d)[:80])
        if wb.kind == 'break':
            hv = W.hav.get(next((k for k in W.hav if eng.get_key(wb.state, k) is not None and p.args[1] in (k, k[1])), None))
            new = eng.get_key(wb.state, next((k for k in W.hav if p.args[1] in (k, k[1])), None)) if hv is not None else None
            done = new is not None and (prove(q.facts, cmp_eq(new, const(0))) is True or prove(q.facts, cmp_ge(neg(new))) is True)
            ctx.decide(True if done else (False if settled(g) else None), 'complete', 'prd', W.loc, 'the search stops early under %s' % conj(q.facts)[-160:])
    use(ctx, eng, L, b, W, p, M, fs)


def settled(fs):
    """clear but for the values accumulated so far, which may be anything"""
    return clear_all([subst(x, {y: mk('sym', 'so far', 'iter') for y in walk(x) if y.op == 'hav'}) for x in fs])


def over(W, P):
    S = W.seq
    return S is not None and (S is P or S.op in ('keys', 'sorted') and S.args and S.args[0] is P)


def use(ctx, eng, L, b, W, p, M, fs):
    """for the first storage the loop leaves exactly the product (or the high probability when nothing was found)"""
    one = mk('sym', 'product', 'iter')
    pos = {}
    for k, hv in L.hav.items():
        if k[0] != 'env':
            continue
        i = init_of(eng, L, k)
        if i is not None and num_val(i) is not None:
            pos[hv] = i
    for k, hv in L.hav.items():
        v = eng.get_key(b.state, k)
        if v is None or v is hv or v is p or not (has(v, p) or any(has(q, p) and has(q, hv) for q in fs)) or k[0] != 'env':
            continue
        m = dict(pos)
        v = subst(v, m)
        g = tuple(subst(q, m) for q in fs)
        if any(q is FALSE for q in g):
            continue
        g = tuple(q for q in g if q is not TRUE) + (cmp_ge(sub(const(1), p)),)
        if inconsistent(g):
            continue
        if v is p or v is tmin(p, const(1)):
            good = True
        else:
            sure = prove(g, cmp_ge(sub(p, const(1)))) is True
            good = sure and (v is mk('attr', M, 'high_probability') or num_val(v) == 1)
        w = subst(v, {y: one for y in walk(v) if y is p or y.op in ('hav', 'out')})
        ctx.decide(True if good else (False if plain(w) else None), 'use', 'prd', L.loc, 'the product of one storage enters the score as %s' % show(w)[:120])
