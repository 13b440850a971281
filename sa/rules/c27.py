"""C27: building a solution by forward constraints."""
import ast
from ..terms import *
from ..prove import inconsistent
from ..report import conj, understood, events
from ..fold import loop_index, counting, flat_paths, grown, init_of
from ..engine import Ev, LoopItem, Alt
from ..shape import has, clear

MOD = 'solution.solution_builders'
BASE = 'AbstractForwardConstraintSolutionBuilder'
SELF = mk('sym', 'self')
PARTS = ('_comply_constraints', '_remove_invalid_instructions', '_update_constraints', '_find_address_correct_index', '_on_index_found')
FIELD = {'instruction_count': 'opcode_field', 'condition_count': 'conditional_field'}
WHAT = {'instruction_count': 'opcode', 'condition_count': 'condition', 'storage_count': 'register'}


def run(ctx):
    c = ctx.cls(MOD, BASE)
    ctx.part(comply, c)
    ctx.part(update, c)
    ctx.part(remove, c)
    ctx.part(build, c)
    ctx.part(enumerator)
    ctx.part(counts_of, c)
    ctx.part(bits)


def table(t):
    return t.args[1] if t.op == 'attr' and t.args[1] in WHAT else None


def signed(q):
    return (False, q.args[0]) if q.op == 'not' else (True, q)


def count_of(t):
    """(table, key) of the count read"""
    if t.op == 'index' and table(t.args[0]):
        return table(t.args[0]), t.args[1]
    return None


def left(h):
    """(table, key, True when something is left under the literal) of a comparison of a count with zero"""
    if h.op not in ('eq0', 'ge0'):
        return None
    xs = [x for x in walk(h.args[0]) if count_of(x)]
    if len(xs) != 1:
        return None
    x = xs[0]
    T, K = count_of(x)
    p, m = num_val(sub(h.args[0], x)), num_val(add(h.args[0], x))
    if h.op == 'eq0':
        return (T, K, False) if p == 0 or m == 0 else None
    if p is not None:
        return (T, K, True) if p == -1 else None
    if m is not None:
        return (T, K, False) if m == 0 else None
    return None


def says(q, inst, regs):
    """[(what, good)] of a literal: what in ignore / opcode / condition / register; None when it is of another kind"""
    pos, h = signed(q)
    if h.op == 'truth' and h.args[0].op == 'attr' and h.args[0].args[0] is inst and h.args[0].args[1] == 'ignore':
        return [('ignore', not pos)]
    if h.op == 'in' and table(h.args[1]):
        T, K = table(h.args[1]), h.args[0]
        r = key_of(T, K, inst, regs)
        return [((r, 'in'), pos)] if r else None
    l = left(h)
    if l:
        r = key_of(l[0], l[1], inst, regs)
        return [((r, 'left'), pos == l[2])] if r else None
    if h.op == 'exists' and of_regs(h.args[0], inst):
        inner = h.args[1]
        ps = inner.args if inner.op == 'and_' else (inner,)
        out = []
        for p in ps:
            ip, ih = signed(p)
            if ih.op == 'in' and table(ih.args[1]) == 'storage_count':
                out.append((('register', 'in'), pos == ip))
                continue
            l = left(ih)
            if not l or l[0] != 'storage_count':
                return None
            out.append((('register', 'left'), (pos == ip) == l[2]))
        return out if len(out) == 1 else None
    return None


def of_regs(t, inst):
    return t.op == 'mcall' and t.args[0] is inst and t.args[1] in ('registers_used', 'storages_used')


def key_of(T, K, inst, regs):
    if T in FIELD:
        return WHAT[T] if K.op == 'attr' and K.args[0] is inst and K.args[1] == FIELD[T] else None
    return 'register' if K.op == 'elem' and of_regs(K.args[0], inst) or K is BOUND else None


NEEDED = ['ignore'] + [(w, k) for w in ('opcode', 'condition', 'register') for k in ('in', 'left')]


def about(q, inst):
    """a literal about the loop only"""
    pos, h = signed(q)
    return h.op == 'ge0' and not any(count_of(x) for x in walk(h)) or h.op == 'in' and of_regs(h.args[1], inst)


USES = ('registers_used', 'registers_read', 'registers_written', 'storages_used', 'storages_read', 'storages_written')


def counts_only(q, inst):
    """a literal about the candidate, its fields and storages and the counts alone"""
    for x in walk(q):
        if x.op == 'mcall' and not (x.args[0] is inst and x.args[1] in USES) or x.op in ('call', 'unk', 'out', 'hav', 'rand', 'after'):
            return False
        if x.op == 'attr' and not (table(x) or x.args[1] == '_metadata' or x.args[0] is inst and x.args[1] in ('opcode_field', 'conditional_field', 'ignore')):
            return False
    return True


def comply(ctx, c):
    f = c.find('_comply_constraints')
    name = 'solution builder'
    inst = mk('sym', f.node.args.args[1].arg)
    eng, sts = ctx.run(f, limit=60, selfcls=c)
    if not sts:
        return ctx.unk('budget', name)
    for s in sts:
        fs = tuple(s.facts)
        if inconsistent(fs):
            continue
        v = s.exit[1] if s.exit[0] == 'return' else None
        if v is not TRUE and v is not FALSE:
            # an answer kept from before, which nothing forgets when the counts go down
            kept = v is not None and v.op == 'index' and v.args[0].op == 'attr' and v.args[0].args[0] is SELF and not table(v.args[0])
            g = c.find('_update_constraints')
            kept = kept and g is not None and not any(isinstance(x, ast.Attribute) and (x.attr == v.args[0].args[1] or isinstance(x.value, ast.Name) and isinstance(x.ctx, ast.Load) and x.value.id == 'self' and x.attr != '_metadata')
                                                      for x in ast.walk(g.node))
            ctx.decide(False if kept else None, 'complies', name, f.where(), 'gives %s' % (show(v)[:80] if v is not None else s.exit[0]))
            continue
        have, clean = {}, True
        for q in fs:
            if about(q, inst):
                continue
            r = says(q, inst, None)
            if r is None:
                clean = clean and counts_only(q, inst)
                continue
            for w, good in r:
                have[w] = good
        if v is TRUE:
            for w in NEEDED:
                what = w if w == 'ignore' else '%s %s' % w
                ok = have.get(w)
                if ok is None and w != 'ignore' and w[1] == 'in' and have.get((w[0], 'left')) is True:
                    ok = True
                if ok is None and clean:
                    ok = False
                ctx.decide(ok, 'complies', name, f.where(), 'a candidate complies whatever its %s' % ('validity' if w == 'ignore' else what) if w not in have else 'a candidate complies against its ' + what)
        else:
            bad = [w for w in have if have[w] is False]
            ctx.decide(True if bad else False if clean else None, 'refused', name, f.where(), 'a candidate is refused when ' + conj(fs)[:200])


def update(ctx, c):
    f = c.find('_update_constraints')
    name = 'solution builder'
    inst = mk('sym', f.node.args.args[1].arg)
    eng, sts = ctx.run(f, limit=60, selfcls=c)
    if not sts:
        return ctx.unk('budget', name)
    for s in sts:
        fs = tuple(s.facts)
        if inconsistent(fs) or s.exit[0] not in ('return', None) and s.exit[0] == 'raise':
            continue
        ignored = any(q.op == 'truth' and q.args[0].op == 'attr' and q.args[0].args == (inst, 'ignore') for q in fs)
        tabs = {}
        for e, ls in events(s.items()):
            if e.a and isinstance(e.a[0], T) and table(e.a[0]) and e.kind in ('SetItem', 'Inc', 'DelItem', 'Pop', 'Remove', 'Update', 'Clear'):
                tabs.setdefault(table(e.a[0]), set()).add(e.a[0])
        for T_ in WHAT:
            Ds = tabs.get(T_, set())
            if len(Ds) > 1:
                ctx.decide(None, 'spent', name, f.where(), 'several tables')
                continue
            es = counting(s.items(), next(iter(Ds))) if Ds else []
            if es is None:
                bent = [e for e, ls in events(s.items()) if e.kind == 'SetItem' and e.a[0] in Ds and isinstance(e.a[2], T) and e.a[2].op in ('max', 'min') and len(e.a[2].args) == 2 and
                        any(num_val(y) is not None for y in e.a[2].args) and any(count_of(y) for z in e.a[2].args for y in walk(z))]
                ctx.decide(False if bent else None, 'spent', name, f.where(), 'the %s counts change in an unknown way' % WHAT[T_])
                continue
            if ignored:
                ctx.decide(not any(b for l, q, b, p in es) and not Ds, 'ignored-spends-nothing', name, f.where(), 'an ignored candidate lowers the %s counts' % WHAT[T_])
                continue
            if not any(q.op == 'not' and q.args[0].op == 'truth' and q.args[0].args[0].op == 'attr' and q.args[0].args[0].args == (inst, 'ignore') for q in fs) and Ds:
                ctx.decide(False, 'ignored-spends-nothing', name, f.where(), 'an ignored candidate lowers the %s counts' % WHAT[T_])
            if T_ in FIELD:
                if any(l and b for l, q, b, p in es):
                    ctx.decide(None, 'spent', name, f.where(), 'the %s counts change in a loop' % WHAT[T_])
                    continue
                key = [x for q in fs for x in walk(q) if x.op == 'attr' and x.args == (inst, FIELD[T_])]
                absent = any(q.op == 'not' and q.args[0].op == 'in' and table(q.args[0].args[1]) == T_ and q.args[0].args[0].op == 'attr' and q.args[0].args[0].args == (inst, FIELD[T_]) for q in fs)
                tops = [b for l, q, b, p in es if not l] or [{}]
                for b in tops:
                    one_spent(ctx, name, f, T_, b, lambda k: k.op == 'attr' and k.args == (inst, FIELD[T_]), absent, fs)
            else:
                if any(not l and b for l, q, b, p in es):
                    ctx.decide(None, 'spent', name, f.where(), 'the storage counts change outside a loop')
                    continue
                loops = {}
                for it in s.items():
                    if isinstance(it, LoopItem) and it.loop.seq is not None and it.loop.seq is not False and it.loop.seq.op == 'mcall' and it.loop.seq.args[0] is inst:
                        loops[it.loop.lid] = it.loop
                good = [L for L in loops.values() if L.seq.args[1] == 'storages_used']
                if len(good) != 1:
                    once = [it.loop.seq for it in s.items() if isinstance(it, LoopItem) and it.loop.seq not in (None, False) and single(eng, s, it.loop.seq, inst)]
                    if once and not good:
                        ctx.bad('spent', name, f.where(), 'a storage used twice is spent once')
                        continue
                    others = [L.seq.args[1] for L in loops.values()]
                    ctx.decide(False if not Ds or others and all(o in ('registers_used', 'storages_read', 'storages_written', 'registers_read', 'registers_written') for o in others) else None,
                               'spent', name, f.where(), 'the storages spent are not those used')
                    continue
                L = good[0]
                for b in L.bodies:
                    if inconsistent(b.facts):
                        continue
                    if b.kind not in ('next',):
                        ctx.decide(False if all(clear(q) or has(q, L.elem) for q in b.facts) else None, 'spent', name, L.loc, 'not all storages are spent')
                        continue
                    bs = [bb for l, q, bb, p in es if l and l[-1][1] is b] or [{}]
                    absent = any(q.op == 'not' and q.args[0].op == 'in' and table(q.args[0].args[1]) == T_ and q.args[0].args[0] is L.elem for q in b.facts)
                    for bb in bs:
                        one_spent(ctx, name, f, T_, bb, lambda k: k is L.elem, absent, b.facts)


def one_spent(ctx, name, f, T_, b, mine, absent, fs):
    wrong = [k for k in b if not mine(k)]
    amount = [num_val(a) for k, a in b.items() if mine(k)]
    if not b:
        extra = [q for q in fs if not understood(q)]
        ctx.decide(True if absent else False if not extra else None, 'spent', name, f.where(), 'the %s count is not lowered when %s' % (WHAT[T_], conj(fs)[:160]))
        return
    if wrong:
        ctx.decide(False if all(understood(k) for k in wrong) else None, 'spent', name, f.where(), 'the %s counts of %s change' % (WHAT[T_], show(wrong[0])[:60]))
        return
    if amount[0] is None:
        a = [a for k, a in b.items() if mine(k)][0]
        ctx.decide(False if a.op == 'reset' and num_val(a.args[0]) is not None else None, 'spent', name, f.where(), 'the %s count changes by %s' % (WHAT[T_], show(a)[:60]))
        return
    ctx.decide(amount[0] == -1, 'spent', name, f.where(), 'the %s count changes by %s' % (WHAT[T_], amount[0]))


def asks(q):
    """the candidate judged by a literal and the answer"""
    pos, h = signed(q)
    if h.op == 'truth' and h.args[0].op == 'call' and show(h.args[0].args[0]).rstrip(')').endswith('_comply_constraints') and len(h.args[0].args) == 3:
        return h.args[0].args[2], pos
    return None


def remove(ctx, c):
    f = c.find('_remove_invalid_instructions')
    name = 'solution builder'
    addresses = mk('sym', f.node.args.args[1].arg)
    eng, sts = ctx.run(f, limit=60, selfcls=c, opaque_funcs=('_comply_constraints',))
    if not sts:
        return ctx.unk('budget', name)
    for s in sts:
        if inconsistent(tuple(s.facts)):
            continue
        outer = [it.loop for it in s.items() if isinstance(it, LoopItem)]
        ls = [L for L in outer if any(e.kind == 'Call' and e.a[0].endswith('_comply_constraints') for b in L.bodies for e, l in events(b.trace))]
        if len(ls) != 1:
            ctx.decide(False if not ls and not outer else None, 'filters', name, f.where(), 'no candidate is judged')
            continue
        L = ls[0]
        covers(ctx, name, L, addresses)
        for b in L.bodies:
            if inconsistent(b.facts):
                continue
            if b.kind != 'next':
                ctx.decide(None, 'filters', name, L.loc, 'the pass ends early')
                continue
            inner = [it.loop for it in b.trace if isinstance(it, LoopItem)]
            if not inner and not any(isinstance(it, Alt) or it.kind in ('SetItem', 'SetSlice', 'Append', 'Extend', 'NewList', 'Call', 'CallUnknown', 'MCall') for it in b.trace):
                ns = set(x for q in b.facts for x in walk(q) if x.op == 'len')
                lens = all(signed(q)[1].op in ('ge0', 'eq0', 'gt0') and all(x.op == 'len' or x is L.iota for m in pd(signed(q)[1].args[0]) for x, e in m) for q in b.facts)
                mine = [n for n in ns if n.args[0].op == 'index']
                if lens and len(mine) == 1 and not inconsistent(tuple(b.facts) + (cmp_ge(sub(mine[0], const(2))),)):
                    ctx.bad('filters', name, L.loc, 'the candidates of an address are not judged under %s' % conj(b.facts)[-120:])
                    continue
            if len(inner) != 1:
                ctx.decide(None, 'filters', name, L.loc, 'an address is filtered in an unknown way')
                continue
            I = inner[0]
            every_candidate(ctx, eng, name, I)
            for bb in I.bodies:
                if inconsistent(bb.facts):
                    continue
                ps = flat_paths(bb.trace)
                js = [asks(q) for q in bb.facts if asks(q)]
                if ps is None or len(js) != 1:
                    kill = any(e.kind in ('Pop', 'Remove', 'DelItem') for e, l in events(bb.trace))
                    ctx.decide(False if kill and not js and all(understood(q, allow=()) for q in bb.facts) else None, 'filters', name, I.loc, 'a candidate is treated without being judged')
                    continue
                x, good = js[0]
                for p in ps:
                    gone = [e for e in p if isinstance(e, Ev) and e.kind in ('Pop', 'Remove', 'DelItem')]
                    kept = [e for e in p if isinstance(e, Ev) and e.kind in ('Append',)]
                    if kept and not gone:
                        # a new list of the complying candidates
                        ctx.decide(True if good and len(kept) == 1 and kept[0].a[1] is x else False if not good and kept[0].a[1] is x else None, 'filters', name, kept[0].loc, 'a candidate that does not comply is kept')
                    elif gone and not kept:
                        same = len(gone) == 1 and gone[0].kind == 'Pop' and gone[0].a[2] is x
                        if good:
                            ctx.decide(False if same else None, 'filters', name, gone[0].loc, 'a complying candidate is removed')
                        elif same:
                            ctx.ok('filters', name, gone[0].loc)
                        else:
                            i = gone[0].a[1] if gone[0].kind == 'Pop' else None
                            j = x.args[1] if x.op == 'index' else None
                            off = num_val(sub(i, j)) if i is not None and j is not None and x.args[0] is gone[0].a[0] else None
                            ctx.decide(False if off else None, 'filters', name, gone[0].loc, 'another candidate is removed than the one that does not comply')
                    elif not gone and not kept:
                        lists = any(isinstance(e, Ev) and e.kind == 'Append' for b2 in I.bodies for e in b2.trace)
                        if good and not lists or not good and lists:
                            ctx.ok('filters', name, I.loc)
                        else:
                            ctx.decide(False, 'filters', name, I.loc, 'a candidate that %s is %s' % (('complies', 'dropped') if good else ('does not comply', 'kept')))
                    else:
                        ctx.decide(None, 'filters', name, I.loc, 'an unknown treatment')


def every_candidate(ctx, eng, name, I):
    """walking a list by position while removing from it: no candidate is passed over"""
    moves, starts, lst = {}, set(), None
    for bb in I.bodies:
        if inconsistent(bb.facts) or bb.kind != 'next':
            continue
        js = [asks(q) for q in bb.facts if asks(q)]
        if len(js) != 1 or js[0][0].op != 'index':
            return
        x = js[0][0]
        lst, j = x.args[0], x.args[1]
        gone = [e for e, l in events(bb.trace) if e.kind in ('Pop', 'DelItem', 'Remove') and e.a[0] is lst]
        if I.iota is not None and has(j, I.iota):
            d = num_val(sub(subst(j, {I.iota: add(I.iota, const(1))}), j))
            start = subst(j, {I.iota: const(0)})
        else:
            d = start = None
            for key, hv in I.hav.items():
                if has(j, hv) and num_val(sub(j, hv)) is not None:
                    v, z = eng.get_key(bb.state, key), init_of(eng, I, key)
                    d = num_val(sub(v, hv)) if v is not None else None
                    start = add(z, sub(j, hv)) if z is not None else None
        starts.add(start)
        moves.setdefault(bool(gone), set()).add(d)
    if not moves.get(True):
        return
    kept, gone = moves.get(False, set()), moves[True]
    start = starts.pop() if len(starts) == 1 else None
    if None in kept | gone or start is None or len(kept) != 1:
        return ctx.decide(None, 'every-candidate', name, I.loc, 'the walk over the candidates is unknown')
    up = kept == {1}
    ctx.decide(gone == {0} if up else gone == {-1} if kept == {-1} else False, 'every-candidate', name, I.loc,
               'the candidate next to a removed one is passed over or met again')
    if up and num_val(start) is not None:
        ctx.decide(num_val(start) == 0, 'every-candidate', name, I.loc, 'the first candidates are not judged')
    elif kept == {-1}:
        n = [t for t in walk(start) if t.op == 'len']
        off = num_val(sub(start, n[0])) if n and n[0].args[0] is lst else None
        ctx.decide(None if off is None else off in (-1, -2), 'every-candidate', name, I.loc, 'the last candidates are not judged')


def covers(ctx, name, L, addresses):
    """all the addresses but the first are looked at"""
    seq = L.seq
    if seq is None or seq is False:
        return ctx.decide(None, 'later-addresses', name, L.loc, 'the addresses looked at are unknown')
    n = [x for x in walk(seq) if x.op == 'len' and x.args[0] is addresses]
    if seq.op == 'range' and len(seq.args) == 3 and num_val(seq.args[0]) is not None and num_val(seq.args[2]) == 1:
        lo = num_val(seq.args[0])
        hi = num_val(sub(seq.args[1], n[0])) if n else None
        return ctx.decide(None if hi is None or lo < 1 or hi > 0 else lo == 1 and hi == 0, 'later-addresses', name, L.loc, 'the addresses looked at are those from %s to %s' % (lo, show(seq.args[1])[:40]))
    if seq.op == 'slice' and seq.args[0] is addresses:
        lo = num_val(seq.args[1]) if seq.args[1] is not None else None
        none = lambda y: y is None or y is NONE
        return ctx.decide(lo == 1 if lo is not None and lo >= 1 and none(seq.args[2]) else False if lo == 1 and num_val(seq.args[2]) is not None else None, 'later-addresses', name, L.loc, 'the addresses looked at are %s' % show(seq)[:60])
    return ctx.decide(None, 'later-addresses', name, L.loc, 'the addresses looked at are %s' % show(seq)[:60])


def called(e, n):
    return isinstance(e, Ev) and e.kind == 'Call' and e.a[0].split('.')[-1] == n


def build(ctx, c):
    f = c.find('build')
    name = 'solution builder'
    eng, sts = ctx.run(f, limit=60, selfcls=c, opaque_funcs=PARTS)
    if not sts:
        return ctx.unk('budget', name)
    prog, orig = mk('attr', SELF, '_program'), mk('attr', SELF, '_original')
    for s in sts:
        if inconsistent(tuple(s.facts)):
            continue
        index = loop_index(s.items())
        ls = [it.loop for it in s.items() if isinstance(it, LoopItem) and any(isinstance(e, Ev) and e.kind == 'Pop' for b in it.loop.bodies for e in b.trace)]
        if len(ls) != 1:
            none = all(ev.kind in ('NewList', 'Attr', 'Sort', 'Append', 'Print', 'NewDict', 'Index', 'Len', 'SetAttr', 'Return') for ev, l in events(s.items()))
            ctx.decide(False if none and s.exit[0] == 'return' else None, 'every-address', name, f.where(), 'the addresses are not taken one by one')
            continue
        L = ls[0]
        lists = set(e.a[0] for b in L.bodies for e in b.trace if isinstance(e, Ev) and e.kind == 'Pop')
        if len(lists) != 1:
            ctx.decide(None, 'every-address', name, L.loc, 'several lists')
            continue
        A = next(iter(lists))
        pre = []
        for it in s.items():
            if isinstance(it, LoopItem) and it.loop is L:
                break
            pre.append(it)
        from_program = any(is_prog(x) for it in pre if isinstance(it, LoopItem) for x in walk(it.loop.seq) if it.loop.seq is not None) or \
            any(is_prog(x) for it in pre if isinstance(it, Ev) for a in it.a if isinstance(a, T) for x in walk(a))
        skips = [b for it in pre if isinstance(it, LoopItem) for b in it.loop.bodies if not any(isinstance(e, Ev) and e.kind == 'Append' for e in b.trace)]
        ctx.decide(False if skips and all(understood(q) for b in skips for q in b.facts) and not all(no_candidates(b.facts, None) for b in skips) else from_program or None,
                   'every-address', name, f.where(), 'not all addresses are decided')
        ctx.decide(by_size(last_sort(pre, A)), 'order', name, f.where(), 'the addresses do not start in the order of the number of candidates')
        for b in L.bodies:
            if inconsistent(b.facts):
                continue
            if b.kind != 'next':
                ctx.decide(None if b.kind == 'raise' else False if all(understood(q) for q in b.facts) else None, 'every-address', name, L.loc, 'the remaining addresses are left undecided')
                continue
            ps = flat_paths(b.trace)
            if ps is None:
                ctx.decide(None, 'every-address', name, L.loc, 'too many paths')
                continue
            for p in ps:
                one_address(ctx, name, L, A, b.facts, p)


def is_prog(x):
    return x.op == 'attr' and x.args[0] is SELF and x.args[1] == '_program'


def last_sort(items, A):
    r = None
    for it in items:
        if isinstance(it, Ev) and it.kind in ('Sort', 'Sorted') and it.a[0] is A:
            a = it.a[1:] if it.kind == 'Sort' else it.a[2:]
            r = a
        elif isinstance(it, Ev) and it.kind in ('Append', 'Extend', 'Insert') and it.a[0] is A:
            r = None
    return r


def by_size(a):
    """the sorting is by number of candidates, in the direction asked for"""
    if a is None:
        return False
    if len(a) < 3:
        return None
    rev, krs = a[1], a[2]
    if a[0] is NONE and len(a) == 3:
        return False
    if not krs or len(krs) != 1:
        return None
    k = krs[0][1]
    if not (k.op == 'len' and k.args[0].op == 'index' and is_prog(k.args[0].args[0]) and k.args[0].args[1].op == 'sym'):
        return False if understood(k) and (k.op == 'sym' or k.op == 'index') else None
    if rev.op == 'attr' and rev.args == (SELF, '_from_max_to_min'):
        return True
    return False if rev in (TRUE, FALSE) or rev.op == 'not' and rev.args[0].op == 'truth' else None


def no_candidates(fs, pa):
    for q in fs:
        if q.op == 'ge0' and any(x.op == 'len' and x.args[0].op == 'index' and is_prog(x.args[0].args[0]) for x in walk(q)):
            n = next(x for x in walk(q) if x.op == 'len' and x.args[0].op == 'index' and is_prog(x.args[0].args[0]))
            v = num_val(add(q.args[0], n))
            if v is not None and v <= 0:
                return True
    return False


def hook_asks(ctx):
    """a hook for the answer looks at the number of candidates itself"""
    for m in ctx.prog.mods.values():
        for c in m.classes.values():
            f = c.methods.get('_on_index_found')
            for x in ast.walk(f.node) if f else ():
                if isinstance(x, (ast.If, ast.IfExp, ast.While)) and any(isinstance(y, ast.Name) and y.id == f.node.args.args[-1].arg for y in ast.walk(x.test)):
                    return True
    return False


def one_address(ctx, name, L, A, fs, p):
    pops = [e for e in p if isinstance(e, Ev) and e.kind == 'Pop' and e.a[0] is A]
    if len(pops) != 1 or num_val(pops[0].a[1]) != 0:
        known = all(num_val(e.a[1]) is not None for e in pops)
        return ctx.decide(False if known else None, 'every-address', name, L.loc, 'an iteration does not take the first address exactly once')
    ctx.ok('every-address', name, pops[0].loc)
    head = pops[0].a[2]
    n = None
    pa = None
    for q in fs:
        for x in walk(q):
            if x.op == 'len' and x.args[0].op == 'index' and is_prog(x.args[0].args[0]) and same_head(x.args[0].args[1], A):
                n, pa = x, x.args[0]
    ignored = any(q.op == 'truth' and is_original(q.args[0], A) for q in fs)
    valid = any(q.op == 'not' and q.args[0].op == 'truth' and is_original(q.args[0].args[0], A) for q in fs)
    low, high = bounds(fs, n)
    found = [e for e in p if called(e, '_on_index_found')]
    upd = [e for e in p if called(e, '_update_constraints')]
    rem = [e for e in p if called(e, '_remove_invalid_instructions')]
    fwd = next((signed(q)[0] for q in fs if signed(q)[1].op == 'truth' and signed(q)[1].args[0].op == 'attr' and signed(q)[1].args[0].args == (SELF, '_forward_update')), None)
    if high == 0 or ignored:
        if found or upd or rem:
            ctx.decide(False, 'undecidable', name, L.loc, 'an address %s is decided' % ('with an ignored original' if ignored else 'without candidates'))
        else:
            ctx.ok('undecidable', name, L.loc)
        return
    if not valid:
        return ctx.decide(None, 'undecidable', name, L.loc, 'an address is decided without looking at its original')
    if low >= 2:
        if len(found) == 1:
            a = found[0].a[1]
            ok = len(a) >= 2 and a[1].op == 'call' and show(a[1].args[0]).rstrip(')').endswith('_find_address_correct_index')
            if ok and len(a[1].args) >= 4:
                ok = a[1].args[2] is pa and is_first(a[1].args[3], A)
            ctx.decide(True if ok else None, 'answered', name, found[0].loc, 'the answer is not the index of the original')
        else:
            ctx.decide(False if not found else None, 'answered', name, L.loc, 'an address with several candidates gets no answer')
    elif high == 1:
        ctx.decide(not found, 'answered', name, L.loc, 'an address with one candidate gets an answer')
    else:
        one = n is not None and low <= 1 and found and all(understood(q) for q in fs) and not hook_asks(ctx)
        ctx.decide(False if n is not None and low >= 0 and not found or one else None, 'answered', name, L.loc, 'the number of candidates does not decide on the answer')
    if fwd is True:
        if len(upd) != 1 or len(rem) != 1:
            ctx.decide(False if not upd or not rem else None, 'spent-then-filtered', name, L.loc, 'the counts are not %s' % ('lowered' if not upd else 'used to filter'))
        else:
            x = upd[0].a[1][1]
            ok = None
            if x.op == 'index' and x.args[0] is pa:
                i = x.args[1]
                if low >= 2:
                    ok = True if found and i is found[0].a[1][1] else False if num_val(i) is not None or num_val(sub(i, found[0].a[1][1]) if found else i) is not None else None
                else:
                    ok = num_val(i) == 0 if num_val(i) is not None else None
            elif is_first(x, A):
                ok = None
            order = p.index(upd[0]) < p.index(rem[0])
            ctx.decide(ok if order else False, 'spent-then-filtered', name, upd[0].loc, 'the candidate spent is not the original' if order else 'candidates are filtered before the counts are lowered')
            early = p.index(rem[0]) > p.index(pops[0])
            if early:
                ctx.decide(None, 'spent-then-filtered', name, rem[0].loc, 'the current address is gone before the others are filtered')
    elif fwd is False:
        ctx.decide(not upd and not rem, 'spent-then-filtered', name, L.loc, 'candidates are filtered although there is no forward update')
    else:
        ctx.decide(False if (upd or rem) or high >= 1 and n is not None and all(understood(q) for q in fs) else None, 'spent-then-filtered', name, L.loc, 'the forward update is not asked for')
    if rem:
        after = p[p.index(rem[-1]):]
        ctx.decide(by_size(last_sort(after, A)), 'order', name, L.loc, 'the addresses are not ordered again after candidates were removed')


def same_head(t, A):
    return t.op == 'index' and t.args[0] is A and num_val(t.args[1]) == 0


def is_first(t, A):
    return t.op == 'index' and num_val(t.args[1]) == 0 and t.args[0].op == 'index' and t.args[0].args[0].op == 'attr' and t.args[0].args[0].args == (SELF, '_original') and same_head(t.args[0].args[1], A)


def is_original(t, A):
    return t.op == 'attr' and t.args[1] == 'ignore' and is_first(t.args[0], A)


def bounds(fs, n):
    low, high = 0, 10 ** 9
    if n is None:
        return low, high
    for q in fs:
        if q.op == 'ge0':
            v = num_val(sub(q.args[0], n))
            if v is not None:
                low = max(low, -v)
            v = num_val(add(q.args[0], n))
            if v is not None:
                high = min(high, v)
        elif q.op == 'eq0':
            v = num_val(sub(q.args[0], n))
            if v is not None:
                low, high = max(low, -v), min(high, -v)
    for q in fs:
        if q.op == 'not' and q.args[0].op == 'eq0':
            v = num_val(sub(q.args[0].args[0], n))
            if v is not None and -v == low:
                low += 1
            if v is not None and -v == high:
                high -= 1
    return low, high


def single(eng, s, t, inst):
    """the storages used, each once"""
    c = eng.content(s, t) if t.op == 'obj' else t
    return (t.op == 'set' or t.op == 'obj' and t.args[1] == 'set' or c is not None and c.op in ('set', 'uniq')) and c is not None and any(
        x.op == 'mcall' and x.args[0] is inst and x.args[1] == 'storages_used' for x in walk(c))


def counts_of(ctx, c):
    """the counts and the answers are those of the original"""
    name = 'solution builder'
    f = c.find('__init__')
    if f is None or len(f.node.args.args) < 3:
        return ctx.unk('original', name)
    program, original = (mk('sym', a.arg) for a in f.node.args.args[1:3])
    eng, sts = ctx.run(f, limit=60, selfcls=c, opaque_funcs=('collect', 'from_instruction_list_to_dict'))
    for s in sts or ():
        if inconsistent(tuple(s.facts)):
            continue
        for e, ls in events(s.items()):
            if e.kind == 'Call' and e.a[0].split('.')[-1] in ('collect', 'from_instruction_list_to_dict') or e.kind == 'Call' and e.a[0].split(':')[-1] in ('from_instruction_list_to_dict',):
                of = e.a[1][-1] if isinstance(e.a[1], tuple) and e.a[1] else e.a[-1]
                src = eng.content(s, of) if isinstance(of, T) and of.op == 'obj' else of
                from_ = [src] if isinstance(src, T) else []
                from_ += [x.a[-1] for x, l2 in events(s.items()) if x.kind in ('Append', 'Extend') and x.a[0] is of]
                from_ += [L.seq for x in s.items() for L in ([x.loop] if isinstance(x, LoopItem) else []) if any(y.kind == 'Append' and y.a[0] is of for b in L.bodies for y, l2 in events(b.trace)) and L.seq]
                has_ = lambda y: any(x is y for z in from_ for x in walk(z))
                ctx.decide(True if of is original or has_(original) and not has_(program) else False if has_(program) and not has_(original) else None, 'original', name, e.loc,
                           'the %s are those of the corrupted program' % ('counts' if 'collect' in e.a[0] else 'answers'))


def bits(ctx):
    """the builder writes every answer with the bits it takes"""
    name = 'bit solution'
    c = ctx.cls(MOD, 'ForwardConstraintSolutionBuilder')
    f = c.find('_on_index_found') if c is not None else None
    if f is None or len(f.node.args.args) < 5:
        return ctx.unk('bits', name)
    index, cands, ori, n = (mk('sym', a.arg) for a in f.node.args.args[1:5])
    eng, sts = ctx.run(f, limit=60, selfcls=c, opaque_funcs=('_find_address_correct_index',))
    if not sts:
        return ctx.unk('bits', name, f.where())
    Q = mk('attr', SELF, '_solution')
    for s in sts:
        fs = tuple(s.facts)
        if inconsistent(fs):
            continue
        none = any(q.op == 'isnone' and q.args[0] is index for q in fs)
        put = [(e, ls) for e, ls in events(s.items()) if e.kind == 'CallUnknown' and e.a[0].op == 'attr' and e.a[0].args[1] == 'enqueue']
        if none or s.exit[0] == 'raise':
            if put:
                ctx.unk('bits', name, f.where(), 'something is written without an answer')
            continue
        if not put:
            ctx.decide(False if all(understood(q) for q in fs) else None, 'bits', name, f.where(), 'the answer is not written under %s' % conj(fs)[:100])
            continue
        if len(put) > 1 or put[0][1]:
            ctx.unk('bits', name, put[0][0].loc, 'several writes')
            continue
        e = put[0][0]
        a = e.a[1]
        same = a and (a[0] is index or a[0].op == 'call' and show(a[0].args[0]).rstrip(')').endswith('_find_address_correct_index') and cands in a[0].args and ori in a[0].args)
        off = a and (num_val(sub(a[0], index)) is not None)
        ctx.decide(True if same else False if off else None, 'bits', name, e.loc, 'what is written is %s' % (show(a[0])[:80] if a else ''))
        if len(a) > 1 and num_val(a[1]) is not None:
            ctx.decide(num_val(a[1]) == 0, 'bits', name, e.loc, 'the answer is written from bit %s on' % num_val(a[1]))
        w = None
        for it, ls in events(s.items()):
            if it is e:
                break
            if it.kind == 'SetAttr' and it.a[0] is Q and it.a[1] == 'word_size':
                w = it.a[2]
        if w is None:
            late = any(it.kind == 'SetAttr' and it.a[1] == 'word_size' for it, ls in events(s.items()))
            ctx.decide(False if late or not any(it.kind in ('Call', 'CallUnknown') and it is not e and 'find_address' not in show(it.a[0]) if isinstance(it.a[0], T) else it.kind == 'Call' and 'find_address' not in it.a[0]
                                                for it, ls in events(s.items())) else None, 'bits', name, e.loc, 'the answer is written with the width of the one before')
            continue
        ctx.decide(fewest(w, n), 'bits', name, e.loc, 'the answer is written with %s bits' % show(w)[:80])
        z = s.heap.get((SELF, '_solution_size'))
        d = sub(z, mk('attr', SELF, '_solution_size')) if z is not None else None
        ctx.decide(False if d is None else True if d is w else fewest(d, n), 'bits', name, f.where(), 'the size grows by %s' % (show(d)[:80] if d is not None else 'nothing'))


def fewest(w, n):
    """is it the number of bits of n - 1?"""
    for x in walk(w):
        if x.op == 'mcall' and x.args[1] == 'bit_length':
            k = num_val(sub(x.args[0], n))
            if w is x:
                return None if k is None else k == -1
            if k is not None and num_val(sub(w, x)) is not None:
                return False
    return False if num_val(w) is not None or w is n else None


def enumerator(ctx):
    c = ctx.cls(MOD, 'ForwardConstraintSolutionEnumerator')
    name = 'solution enumerator'
    f = c.find('_on_index_found')
    index = mk('sym', f.node.args.args[1].arg)
    eng, sts = ctx.run(f, limit=60, selfcls=c)
    old = mk('attr', SELF, '_solution')
    for s in sts or ():
        fs = tuple(s.facts)
        if inconsistent(fs):
            continue
        if s.exit[0] == 'raise':
            low = any(q.op == 'ge0' and num_val(add(q.args[0], index)) == -1 for q in fs)
            ctx.decide(True if low else False if all(understood(q) for q in fs) else None, 'numbered', name, f.where(), 'refused when %s' % conj(fs)[:80])
            continue
        v = s.heap.get((SELF, '_solution'), old)
        ok = v is mul(old, add(index, const(1)))
        ctx.decide(True if ok else False if clear(v) else None, 'numbered', name, f.where(), 'the solution number becomes %s' % show(v)[:80])
        z = s.heap.get((SELF, '_solution_size'))
        if z is None:
            ctx.decide(False, 'numbered', name, f.where(), 'the size is not kept')
        elif z.op == 'log':
            ctx.decide(z.args[0] is v and num_val(z.args[1]) == 2 if len(z.args) > 1 and num_val(z.args[1]) is not None else None, 'numbered', name, f.where(), 'the size becomes %s' % show(z)[:80])
        else:
            ctx.decide(False if clear(z) else None, 'numbered', name, f.where(), 'the size becomes %s' % show(z)[:80])
    g = c.find('__init__')
    eng, sts = ctx.run(g, limit=60, selfcls=c, opaque_funcs=('collect', 'from_instruction_list_to_dict'))
    for s in sts or ():
        fw, mm, so = (s.heap.get((SELF, x)) for x in ('_forward_update', '_from_max_to_min', '_solution'))
        ctx.decide(fw is TRUE if fw in (TRUE, FALSE) else None, 'forward', name, g.where(), 'the enumeration does not rule out candidates as it goes')
        ctx.decide(mm is FALSE if mm in (TRUE, FALSE) else None, 'forward', name, g.where(), 'the enumeration starts with the most candidates')
        ctx.decide(num_val(so) == 1 if so is not None and num_val(so) is not None else None, 'numbered', name, g.where(), 'the number starts at %s' % (show(so)[:40] if so is not None else None))
