"""C11: the metadata counters are exact.

Every counter is followed through the summaries: one round per instruction (or address), what it adds, under which
conditions, and over which values.
"""
from ..terms import *
from ..prove import prove, inconsistent
from ..report import events, understood, loops_of, conj
from ..fold import counting, loop_index, flat_paths
from ..shape import *
from ..engine import Ev, LoopItem, Alt

MOD = 'metadata.metadata_collector'
FIELDS = {'condition_count': 'conditional_field', 'instruction_count': 'opcode_field', 'storage_count': 'storages_used'}
ADDR = {'address_with_cond': 'conditional_field', 'address_with_op': 'opcode_field', 'address_with_reg': 'storages_used'}


def run(ctx):
    ctx.part(collector)
    ctx.part(addresses)


def table_of(ctx, cls, prop, state):
    """the container a property shows, after the run"""
    g = ctx.func(MOD, cls + '.' + prop, required=False)
    selfs = mk('sym', 'self')
    name = prop
    if g is not None:
        eng, sts = ctx.run(g)
        v = sts[0].exit[1] if sts and len(sts) == 1 else None
        if v is None or v.op != 'attr':
            return None
        base, name = v.args[0], v.args[1]
        t = state.heap.get((base, name))
        return t if t is not None else v
    for k, v in state.heap.items():
        if len(k) == 2 and k[1] == name and k[0].op in ('sym', 'param'):
            return v
    return mk('attr', selfs, name)


def fresh(ctx, D, prop, state, f):
    """the table starts empty in every collection"""
    if D.op == 'obj':
        return ctx.ok('fresh', prop, f.where())
    if D.op != 'attr':
        return ctx.unk('fresh', prop, f.where(), show(D)[:80])
    evs = [ev for ev, ls in events(list(state.items())) if ev.a and any(isinstance(x, T) and has(x, D) for x in ev.a)]
    known = evs and all(ev.kind in ('SetItem', 'Inc', 'Index', 'Get', 'Div') for ev in evs)
    ctx.decide(False if known else None, 'fresh', prop, f.where(), 'what an earlier collection counted is kept')


def ignore_of(facts, x):
    for f in facts:
        g = f.args[0] if f.op == 'not' else f
        if g.op == 'truth' and g.args[0].op == 'attr' and g.args[0].args[1] == 'ignore' and (x is None or g.args[0].args[0] is x):
            return f.op != 'not'
    return None


def mentions_ignore(ts):
    return any(y.op == 'attr' and y.args[1] == 'ignore' for t in ts for y in walk(t))


def method(t, name):
    """receiver when t is x.name()"""
    if t.op == 'mcall' and t.args[1] == name:
        return t.args[0]
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == name:
        return t.args[0].args[0]
    if t.op == 'call' and t.args[0].op == 'fn' and t.args[0].args[0].endswith('.' + name) and len(t.args) > 1:
        return t.args[1]
    return None


def seq_of(L):
    s = L.seq
    while s is not None and s.op in ('copy', 'perm', 'keys') and isinstance(s.args[0], T):
        s = s.args[0]
    return s


def collector(ctx):
    f = ctx.func(MOD, 'MetadataCollector.collect')
    eng, sts = ctx.run(f)
    if sts is None:
        return ctx.unk('budget', 'MetadataCollector.collect')
    for s in sts:
        if s.exit[0] != 'return':
            continue
        items = list(s.items())
        insts = s.env.get('instructions')
        if insts is None or insts.op != 'sym':
            insts = next((l.loop.seq for l in loops_of(items) if l.loop.seq is not None and l.loop.seq.op == 'sym'), None)
        for prop, field in FIELDS.items():
            D = table_of(ctx, 'MetadataCollector', prop, s)
            if D is None:
                ctx.unk('table', prop)
                continue
            fresh(ctx, D, prop, s, f)
            count_table(ctx, items, D, field, prop, lambda L: seq_of(L) is insts, None, f)


def top_filter(items, D):
    """entries grouped by the outermost loop"""
    r = counting(items, D)
    if r is None:
        return None
    g = {}
    for e in r:
        if e[0]:
            g.setdefault(e[0][0][0], []).append(e)
        elif e[2]:
            return None
    return {L: es for L, es in g.items() if any(e[2] for e in es)}


def count_table(ctx, items, D, field, prop, is_source, group, f):
    g = top_filter(items, D)
    if g is None:
        return ctx.unk('count', prop, f.where(), 'written in another way')
    if not g:
        return ctx.decide(None if written_at_all(items, D) else False, 'count', prop, f.where(), 'never counted')
    if len(g) > 1:
        return ctx.unk('count', prop, f.where(), 'several passes')
    (L, es), = g.items()
    if not is_source(L):
        s = seq_of(L)
        if s is not None and s.op == 'slice' and s.args[0].op in ('sym', 'param'):
            lo, hi = s.args[1], s.args[2]
            if num_val(lo) or num_val(hi) is not None:
                return ctx.bad('complete', prop, L.loc, 'only %s is counted' % show(s)[:80])
        return ctx.unk('count', prop, L.loc, 'runs over %s' % (show(L.seq)[:80] if L.seq is not None else '?'))
    for b in L.bodies:
        if b.kind == 'break':
            ctx.bad('complete', prop, L.loc, 'stops early under %s' % conj(b.facts)[:200])
    mine = [e for e in es if len(e[0]) == 1]
    for loops, fs, bump, path in mine:
        body = loops[0][1]
        if body.kind != 'next' or inconsistent(fs):
            continue
        inner = [it.loop for it in path if isinstance(it, LoopItem) and any(e[2] for e in es if len(e[0]) > 1 and e[0][1][0] is it.loop)]
        x = L.elem
        for k in list(bump) + [i.seq for i in inner if i.seq is not None]:
            y = base_of(k, field)
            if y is not None:
                x = y
        ign = ignore_of(fs, x)
        if ign is True:
            ctx.decide(not bump and not inner, 'ignored', prop, L.loc, 'an ignored instruction is counted')
            continue
        if ign is None and (bump or inner):
            ctx.decide(None if mentions_ignore(list(fs) + [x]) or x is not L.elem else False, 'ignored', prop, L.loc, 'ignored instructions are counted too')
        if field == 'storages_used':
            if bump:
                ctx.decide(None, 'count', prop, L.loc, 'counted directly')
            if not inner:
                ctx.decide(False if ign is False and all(understood(q) for q in fs) else None, 'count', prop, L.loc, 'nothing counted for an instruction under %s' % conj(fs)[-200:])
            elif len(inner) > 1:
                ctx.decide(None, 'count', prop, L.loc, 'counted in several loops')
            else:
                count_all(ctx, inner[0], es, field, prop, x)
            continue
        if inner:
            ctx.unk('count', prop, L.loc, 'counted in a loop')
            continue
        if not bump:
            ctx.decide(False if ign is False and all(understood(q) for q in fs) else None, 'count', prop, L.loc, 'nothing counted for an instruction under %s' % conj(fs)[-200:])
            continue
        key_ok(ctx, bump, field, prop, x, L)


def written_at_all(items, D):
    return any(ev.a and ev.a[0] is D for ev, ls in events(items))


def base_of(k, field):
    if k.op == 'attr' and k.args[1] == field:
        return k.args[0]
    return method(k, field)


def key_ok(ctx, bump, field, prop, x, L):
    if len(bump) > 1:
        return ctx.decide(False if all(clear(k) for k in bump) else None, 'count', prop, L.loc, 'several entries counted for one value: %s' % ', '.join(show(k)[:60] for k in bump))
    (k, n), = bump.items()
    good = k.op == 'attr' and k.args[1] == field and k.args[0] is x
    ctx.decide(True if good else (False if clear(k) else None), 'count-key', prop, L.loc, 'counted under %s' % show(k)[:120])
    ctx.decide(True if num_val(n) == 1 else (False if num_val(n) is not None or n.op == 'reset' else None), 'count-by', prop, L.loc, 'counted by %s' % show(n)[:60])


def count_all(ctx, M, es, field, prop, x):
    s = seq_of(M)
    good = s is not None and method(s, field) is x
    ctx.decide(True if good else (False if s is not None and s.op in ('mcall', 'call', 'attr') and not mentions_ignore([s]) and (s.op != 'call' or s.args[0].op == 'attr' or s.args[0].op == 'fn' and
               s.args[0].args[0].split('.')[-1] in ('storages_read', 'storages_written', 'registers_used', 'registers_read', 'registers_written')) else None), 'count-values', prop, M.loc, 'counts the values of %s' % (show(s)[:120] if s is not None else '?'))
    for b in M.bodies:
        if b.kind == 'break':
            ctx.bad('complete', prop, M.loc, 'stops early under %s' % conj(b.facts)[:160])
    for loops, fs, bump, path in es:
        if len(loops) != 2 or loops[1][0] is not M or loops[1][1].kind != 'next' or inconsistent(fs):
            continue
        if not bump:
            ctx.decide(False if all(understood(q) for q in fs) else None, 'count', prop, M.loc, 'a value is not counted under %s' % conj(fs)[-160:])
            continue
        if len(bump) > 1:
            ctx.unk('count', prop, M.loc, 'several')
            continue
        (k, n), = bump.items()
        ctx.decide(True if k is M.elem else (False if clear(k) else None), 'count-key', prop, M.loc, 'counted under %s' % show(k)[:100])
        ctx.decide(True if num_val(n) == 1 else (False if num_val(n) is not None or n.op == 'reset' else None), 'count-by', prop, M.loc, 'counted by %s' % show(n)[:60])


# ---------------------------------------------------------------- addresses
def addresses(ctx):
    f = ctx.func(MOD, 'CorruptedProgramMetadataCollector.collect')
    eng, sts = ctx.run(f)
    if sts is None:
        return ctx.unk('budget', 'CorruptedProgramMetadataCollector.collect')
    for s in sts:
        if s.exit[0] != 'return':
            continue
        items = list(s.items())
        for prop, field in ADDR.items():
            D = table_of(ctx, 'CorruptedProgramMetadataCollector', prop, s)
            if D is None:
                ctx.unk('table', prop)
                continue
            fresh(ctx, D, prop, s, f)
            address_table(ctx, eng, items, D, field, prop, f)


def address_table(ctx, eng, items, D, field, prop, f):
    g = top_filter(items, D)
    if g is None or len(g) > 1:
        return ctx.unk('address-count', prop, f.where(), 'written in another way')
    if not g:
        return ctx.decide(None if written_at_all(items, D) else False, 'address-count', prop, f.where(), 'never counted')
    (L, es), = g.items()
    P = L.seq
    if P is not None and P.op in ('keys', 'values', 'items'):
        P = P.args[0]
    if P is None or P.op not in ('sym', 'param'):
        return ctx.unk('address-count', prop, L.loc, 'runs over %s' % (show(L.seq)[:80] if L.seq is not None else '?'))
    for b in L.bodies:
        if b.kind == 'break':
            ctx.bad('complete', prop, L.loc, 'stops early under %s' % conj(b.facts)[:200])
    for loops, fs, bump, path in es:
        if len(loops) != 1 or loops[0][1].kind != 'next' or inconsistent(fs):
            continue
        inner = [it.loop for it in path if isinstance(it, LoopItem) and any(e[2] for e in es if len(e[0]) > 1 and e[0][1][0] is it.loop)]
        for q in inner:
            if q.seq is not None and entry(q.seq, P, L):
                for e in es:
                    guard = any(x.op == 'not' and (x.args[0].op == 'in' or x.args[0].op == 'truth' and ignore_of((x,), None) is None) for x in e[1])
                    if len(e[0]) == 2 and e[0][1][0] is q and e[2] and not guard:
                        ctx.bad('address-once', prop, q.loc, 'counted once per candidate and not once per address')
        if bump or len(inner) > 1:
            ctx.unk('address-count', prop, L.loc, 'another way of counting')
            continue
        if not inner:
            plain = fs and all(y.op in ('poly', 'not', 'num', 'const', 'eq0', 'ge0', 'gt0', 'len', 'index', 'elem', 'keys', 'v0', 'sym', 'param', 'iota', 'in', 'perm') or y in (P, L.iota) for g in fs for y in walk(g))
            ctx.decide(False if plain and not inconsistent(tuple(fs) + tuple(cmp_ge(sub(y, const(1))) for g in fs for y in walk(g) if y.op == 'len')) else None,
                       'address-count', prop, L.loc, 'nothing counted under %s' % conj(fs)[-160:])
            continue
        M = inner[0]
        S = seq_of(M)
        mb = [e for e in es if len(e[0]) == 2 and e[0][1][0] is M and e[0][1][1].kind == 'next']
        for b in M.bodies:
            if b.kind == 'break':
                ctx.bad('complete', prop, M.loc, 'stops early under %s' % conj(b.facts)[:160])
        for _, fs2, bump2, _ in mb:
            if inconsistent(fs2):
                continue
            if len(bump2) != 1:
                ctx.decide(False if not bump2 and all(understood(q) for q in fs2) else None, 'address-count', prop, M.loc, 'a value is not counted under %s' % conj(fs2)[-160:])
                continue
            (k, n), = bump2.items()
            ctx.decide(True if k is M.elem else (False if clear(k) else None), 'count-key', prop, M.loc, 'counted under %s' % show(k)[:100])
            ctx.decide(True if num_val(n) == 1 else (False if num_val(n) is not None or n.op == 'reset' else None), 'count-by', prop, M.loc, 'counted by %s' % show(n)[:60])
        deep = [e for e in es if len(e[0]) > 2 and e[2]]
        if deep:
            ctx.unk('address-count', prop, M.loc, 'nested counting')
            continue
        if S is None or S.op != 'obj':
            if M.seq is not None and entry(M.seq, P, L):
                ctx.bad('address-once', prop, M.loc, 'counted once per candidate and not once per address')
            else:
                ctx.unk('address-count', prop, M.loc, 'values from %s' % (show(M.seq)[:80] if M.seq is not None else '?'))
            continue
        distinct(ctx, eng, path, S, M, P, L, field, prop)


def entry(t, P, L):
    """the candidate list the round is about"""
    t = t.args[0] if t.op in ('copy', 'perm') else t
    return t.op == 'index' and t.args[0] is P and t.args[1].op == 'elem' and t.args[1].args[1] is L.iota


FILL = {'SetItem': 1, 'Append': 1, 'Add': 1, 'Inc': 1}


def distinct(ctx, eng, path, S, M, P, L, field, prop):
    """S holds each value of the address once"""
    made = [it for it in path if isinstance(it, Ev) and it.kind in ('NewDict', 'NewSet', 'NewList') and it.a[0] is S]
    if not made:
        return ctx.decide(False if any(k[0] == 'ver' and k[1] is S for k in L.hav) else None, 'address-fresh', prop, M.loc,
                          'the values of one address are mixed with those of the ones before')
    ctx.ok('address-fresh', prop, M.loc, 'values of one address')
    is_list = any(it.kind == 'NewList' for it in made) and S.args[1:2] == ('list',)
    filled = [it.loop for it in path if isinstance(it, LoopItem) and any(ev.kind in FILL and ev.a[0] is S for b in it.loop.bodies for ev, ls in events(b.trace))]
    if len(filled) != 1:
        return ctx.unk('address-values', prop, M.loc, 'filled in another way')
    F = filled[0]
    good = F.seq is not None and entry(F.seq, P, L)
    ctx.decide(True if good else None, 'address-values', prop, F.loc, 'values of %s' % (show(F.seq)[:100] if F.seq is not None else '?'))
    if not good:
        return
    for b in F.bodies:
        if b.kind == 'break':
            ctx.bad('complete', prop, F.loc, 'stops early under %s' % conj(b.facts)[:160])
    for b in F.bodies:
        if b.kind != 'next' or inconsistent(tuple(b.facts)):
            continue
        ign = ignore_of(b.facts, F.elem)
        for p in flat_paths(b.trace) or []:
            put = [(it, None) for it in p if isinstance(it, Ev) and it.kind in FILL and it.a[0] is S]
            lps = [it.loop for it in p if isinstance(it, LoopItem) and any(ev.kind in FILL and ev.a[0] is S for c in it.loop.bodies for ev, ls in events(c.trace))]
            if ign is True:
                ctx.decide(not put and not lps, 'ignored', prop, F.loc, 'an ignored candidate is counted')
                continue
            if ign is None and (put or lps):
                ctx.decide(None if mentions_ignore(b.facts) else False, 'ignored', prop, F.loc, 'ignored candidates are counted too')
            if field == 'storages_used':
                if len(lps) != 1 or put:
                    ctx.decide(False if not lps and not put and ign is False and all(understood(q) for q in b.facts) and not indirect(p, S) else None, 'address-values', prop, F.loc, 'no value taken under %s' % conj(b.facts)[-160:])
                    continue
                N = lps[0]
                s = seq_of(N)
                okv = s is not None and method(s, field) is F.elem
                ctx.decide(True if okv else (False if s is not None and s.op == 'mcall' else None), 'address-values', prop, N.loc, 'values of %s' % (show(s)[:100] if s is not None else '?'))
                for c in N.bodies:
                    if c.kind == 'break':
                        ctx.bad('complete', prop, N.loc, 'stops early under %s' % conj(c.facts)[:160])
                    if c.kind != 'next':
                        continue
                    ks = [ev.a[1] for ev, ls in events(c.trace) if ev.kind in FILL and ev.a[0] is S]
                    seen = any(f.op == 'in' and f.args[0] is N.elem and f.args[1] is S for f in c.facts)
                    ctx.decide(True if all(k is N.elem for k in ks) and (ks or seen) else (False if all(clear(k) for k in ks) and (ks or all(understood(q) for q in c.facts)) else None),
                               'address-values', prop, N.loc, 'takes %s' % ', '.join(show(k)[:60] for k in ks))
                    if is_list and ks:
                        ctx.decide(True if any(f.op == 'not' and f.args[0].op == 'in' and f.args[0].args[1] is S for f in c.facts) else False, 'address-once', prop, N.loc, 'a value met twice is counted twice')
                continue
            seen = any(f.op == 'in' and f.args[1] is S for f in b.facts)
            if not put:
                ctx.decide(True if seen else (False if ign is False and all(understood(q) for q in b.facts) and not indirect(p, S) and not lps else None), 'address-values', prop, F.loc, 'no value taken under %s' % conj(b.facts)[-160:])
                continue
            ks = [it.a[1] for it, _ in put]
            ctx.decide(True if all(k.op == 'attr' and k.args[1] == field and k.args[0] is F.elem for k in ks) else (False if all(clear(k) for k in ks) else None),
                       'address-values', prop, F.loc, 'takes %s' % ', '.join(show(k)[:80] for k in ks))
            if is_list:
                ctx.decide(True if any(f.op == 'not' and f.args[0].op == 'in' and f.args[0].args[1] is S for f in b.facts) else False, 'address-once', prop, F.loc, 'a value met twice is counted twice')


def indirect(p, S):
    return any(isinstance(it, Ev) and it.kind not in FILL and any(a is S for a in it.a if isinstance(a, T)) for it in p)
