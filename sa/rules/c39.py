"""C39: the frequency tables of a program count every occurrence of every part, and the Huffman code built on them is prefix free.

The counting loops are summarised; on every path through them the writes to the two tables are compared
with the number of times the part is in the instruction.  The merge loop of the code is read as the
transition on the two entries taken from the heap.
"""
from ..terms import *
from ..report import understood
from ..engine import Ev, LoopItem, Alt, V0
from ..shape import has
from ..prove import inconsistent
from .c21 import paths

S = mk('sym', 'self')
P = mk('sym', 'program')
PARTS = [('reg', 'registers_used'), ('opcode', 'opcode_field'), ('cond', 'conditional_field')]
OTHER = ('registers_used', 'storages_used', 'storages_read', 'storages_written', 'opcode_field', 'conditional_field', 'registers_read', 'registers_written')


def run(ctx):
    ctx.part(tables)
    ctx.part(code)
    ctx.part(size)


def base(t):
    while isinstance(t, T) and t.op in ('copy', 'at', 'keys', 'items', 'iter', 'list', 'tupleof', 'view') and t.args:
        t = t.args[0]
    return t


def loops(items):
    for it in items:
        if isinstance(it, LoopItem):
            yield it
            for b in it.loop.bodies:
                for x in loops(b.trace):
                    yield x
        elif isinstance(it, Alt):
            for p in it.paths:
                for x in loops(p[1]):
                    yield x


def touches(it, objs):
    """an event of the item has one of the objects"""
    if isinstance(it, Ev):
        return any(isinstance(a, T) and any(x in objs for x in walk(a)) for a in flat_args(it.a))
    if isinstance(it, LoopItem):
        return any(touches(x, objs) for b in it.loop.bodies for x in b.trace)
    if isinstance(it, Alt):
        return any(touches(x, objs) for p in it.paths for x in p[1])
    return False


def flat_args(a):
    out = []
    for x in a:
        if isinstance(x, tuple):
            out.extend(flat_args(x))
        else:
            out.append(x)
    return out


def tables(ctx):
    fi = ctx.func('compressor.huffman', 'InstructionPartFrequencyCounter.count')
    prog = [a.arg for a in fi.node.args.args][1:2]
    eng, sts = ctx.run(fi, limit=120, args={prog[0]: P} if prog else {})
    if sts is None:
        return ctx.unk('tables', 'count', fi.where(), 'not analysed')
    for s in sts:
        if s.exit[0] != 'return':
            continue
        for name, part in PARTS:
            ctx.part(table, fi, eng, s, name, part)


def table(ctx, fi, eng, s, name, part):
    F, W = [s.heap.get((S, name + x)) for x in ('_frequency', '_with')]
    C = 'count of %s' % part
    if not all(x is not None and x.op == 'obj' for x in (F, W)) or F is W:
        sure = not any(isinstance(e, Ev) and e.kind == 'CallUnknown' for e in s.items())
        wrong = F is W and F is not None and F.op == 'obj' or any(x is None or x is NONE for x in (F, W)) and sure
        return ctx.decide(False if wrong else None, 'tables kept', C, fi.where(), 'the tables are %s and %s' % (F and show(F), W and show(W)))
    for n2, p2 in PARTS:
        if n2 != name and (s.heap.get((S, n2 + '_frequency')) is F or s.heap.get((S, n2 + '_with')) is W):
            return ctx.bad('tables kept', C, fi.where(), 'one table for %s and %s' % (part, p2))
    ctx.ok('tables kept', C, fi.where())
    top = [it for it in s.items() if isinstance(it, LoopItem) and touches(it, {F, W})]
    if len(top) != 1:
        return ctx.unk('every instruction', C, fi.where(), '%d loops over the program' % len(top))
    if any(touches(it, {F, W}) for it in s.items() if isinstance(it, Alt)):
        return ctx.unk('every instruction', C, fi.where(), 'tables written on one branch')
    L = top[0].loop
    seq = L.seq
    if not isinstance(seq, T):
        return ctx.unk('every instruction', C, fi.where(), 'loop over nothing that is known')
    b = base(seq)
    if b.op == 'slice' and base(b.args[0]) is P:
        lo, hi, st = b.args[1], b.args[2], b.args[3]
        whole = lo in (NONE, const(0)) and hi is NONE and st in (NONE, const(1), const(-1))
        return ctx.decide(None if whole else False, 'every instruction', C, L.loc, 'only %s' % show(b)[:80])
    ctx.decide(True if b is P else None, 'every instruction', C, L.loc, 'over %s' % show(seq)[:80])
    if b is not P:
        return
    el = L.elem
    if el is None:
        return ctx.unk('every instruction', C, L.loc, 'no element')
    for bd in L.bodies:
        for fs, tr in paths(bd.trace) or ():
            fs = tuple(bd.facts) + fs
            if inconsistent(fs):
                continue
            if bd.kind in ('break', 'return', 'raise'):
                ctx.decide(False if plain(fs) else None, 'every instruction', C, L.loc, 'the count ends early')
                continue
            ins = [it for it in tr if isinstance(it, LoopItem) and touches(it, {F, W})]
            outs = [it for it in tr if isinstance(it, Ev) and it.kind in WRITE and touches(it, {F, W})]
            if len(ins) == 1 and not outs:
                inner(ctx, eng, C, bd, tr, ins[0], el, part, F, W)
            elif not ins and outs:
                key = want_of(eng, bd, el, part)
                step(ctx, eng, C, bd.state, fs, [e for e in tr if isinstance(e, Ev)], key if not key or key[1] is None else None, el, F, W, L.loc, True)
            elif not ins and not outs:
                ctx.decide(False if plain(fs) and about(fs, el) else None, 'every instruction', C, L.loc, 'nothing is counted when %s' % ' and '.join(show(f) for f in fs if has(f, el))[:120])
            else:
                ctx.unk('counted', C, L.loc, 'counted in %d loops' % len(ins))


WRITE = ('SetItem', 'Inc', 'Append', 'Insert', 'Extend', 'DelItem', 'Pop', 'Clear', 'Update', 'Remove')


def plain(fs):
    return all(understood(f) for f in fs)


def about(fs, el):
    return [f for f in fs if has(f, el) and f.op != 'in' or f.op == 'not' and has(f, el)]


def want_of(eng, bd, el, part):
    if part == 'registers_used':
        return None
    return mk('attr', el, part, V0), None


def parts_of(eng, st, t, el, part):
    """True when the term is the parts of the element, False when it is the parts of another kind or of another element"""
    t = base(t)
    if t.op in ('set', 'setof', 'unique', 'dedup'):
        return False if parts_of(eng, st, t.args[0], el, part) is True else None
    if t.op == 'obj':
        c = eng.content(st, t)
        if c is None:
            return None
        if c.op == 'seq' and len(c.args) == 1:
            x = base(c.args[0])
            if x.op == 'attr' and x.args[0] is el:
                return True if x.args[1] == part and part != 'registers_used' else False if x.args[1] in OTHER else None
            return None
        if c.op == 'copy':
            r = parts_of(eng, st, c.args[0], el, part)
            return False if r and 'set' in t.args and part == 'registers_used' else r
        return None
    nm = None
    if t.op == 'mcall' and t.args[0] is el:
        nm = t.args[1]
    if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[0] is el:
        nm = t.args[0].args[1]
    if nm is None:
        return None
    return True if nm == part == 'registers_used' else False if nm in OTHER else None


def inner(ctx, eng, C, bd, tr, it, el, part, F, W):
    M = it.loop
    if not isinstance(M.seq, T):
        return ctx.unk('parts', C, M.loc, 'loop over nothing that is known')
    D = base(M.seq)
    cnt = [e for e in tr if isinstance(e, Ev) and e.kind == 'CountOf' and e.a[0] is D]
    if len(cnt) == 1:
        src, counter = cnt[0].a[1], True
        later = tr[tr.index(cnt[0]) + 1:tr.index(it)]
        if any(isinstance(e, Ev) and e.kind in WRITE and e.a and e.a[0] is D for e in later):
            return ctx.unk('parts', C, M.loc, 'the counts are changed')
    elif D.op == 'slice':
        return ctx.unk('parts', C, M.loc, 'over %s' % show(D)[:80])
    else:
        src, counter = D, False
    top_ = most_common(D, tr)
    if top_ is not None:
        return ctx.decide(top_, 'parts', C, M.loc, 'counts only %s' % show(D)[:80])
    r = parts_of(eng, bd.state, src, el, part)
    ctx.decide(r, 'parts', C, M.loc, 'counts %s' % show(src)[:100])
    if r is not True:
        return
    key = mk_key(M, D, counter)
    if key is None:
        return ctx.unk('counted', C, M.loc, 'no key')
    for b in M.bodies:
        for fs, t2 in paths(b.trace) or ():
            fs = tuple(b.facts) + fs
            if inconsistent(fs) or any(f.op == 'not' and f.args[0].op == 'in' and same(f.args[0].args[0], key) and base(f.args[0].args[1]) is D for f in fs):
                continue
            if b.kind in ('break', 'return', 'raise'):
                ctx.decide(False if plain(fs) else None, 'parts', C, M.loc, 'the count ends early')
                continue
            if any(isinstance(e, LoopItem) and touches(e, {F, W}) for e in t2):
                ctx.unk('counted', C, M.loc, 'another loop inside')
                continue
            am = {mk('index', D, key, V0)} if counter else {const(1)}
            step(ctx, eng, C, b.state, fs, [e for e in t2 if isinstance(e, Ev)], (key, am), el, F, W, M.loc, counter)


def most_common(D, tr):
    """False when only some of the counted parts are walked"""
    if D.op == 'mcall' and D.args[1] == 'most_common' and any(isinstance(e, Ev) and e.kind == 'CountOf' and e.a[0] is D.args[0] for e in tr):
        return False if any(isinstance(x, T) and num_val(x) is not None for x in flat_args(D.args[2:])) else None
    return None


def mk_key(M, D, counter):
    e = M.elem
    if e is None:
        return None
    if e.op == 'tuple' and counter:
        return e.args[0]
    return e


def unver(t):
    """a value without the moments it was read at"""
    if not isinstance(t, T):
        return t
    if t.op in ('index', 'get') and len(t.args) >= 2:
        return mk('index', unver(t.args[0]), unver(t.args[1]))
    if t.op == 'elem' and len(t.args) >= 2:
        return mk('elem', unver(t.args[0]), t.args[1])
    if t.op == 'attr':
        return mk('attr', unver(t.args[0]), t.args[1])
    return t


def same(a, b):
    return a is b or unver(a) is unver(b)


def step(ctx, eng, C, st, fs, evs, ka, el, F, W, loc, once):
    if ka is None:
        return ctx.unk('counted', C, loc, 'no part')
    key, am = ka
    am = am or {const(1)}
    # the number of times
    ws = [e for e in evs if e.kind in WRITE and e.a and e.a[0] is F]
    known = inside(fs, key, F)
    if any(e.kind not in ('SetItem', 'Inc') for e in ws):
        ctx.unk('counted', C, loc, 'written by %s' % ws[0].kind)
    elif not ws:
        ctx.decide(False if plain(fs) else None, 'counted', C, loc, 'not counted when %s' % ' and '.join(map(show, fs))[:120])
    elif any(not same(e.a[1], key) for e in ws):
        e = [e for e in ws if not same(e.a[1], key)][0]
        ctx.decide(False if understood(e.a[1]) and (closed(e.a[1], el) or any(has(e.a[1], x) for x in walk(key) if x.op == 'obj')) else None, 'counted', C, loc, 'counts %s' % show(e.a[1])[:80])
    else:
        total, sure = None, True
        for e in ws:
            v = e.a[2]
            if e.kind == 'Inc':
                total = ('old', v) if total is None else (total[0], add(total[1], v))
                continue
            olds = [x for x in walk(v) if x.op in ('index', 'get') and len(x.args) >= 2 and x.args[0] is F and same(x.args[1], key)]
            if not olds:
                total = ('new', v)
            elif len(olds) == 1:
                inc = sub(v, olds[0])
                if has(inc, olds[0]):
                    total, sure = None, False
                elif total is None:
                    total = ('old', inc)
                else:
                    total = (total[0], add(total[1], inc))
        if total is None:
            ctx.unk('counted', C, loc, 'written as %s' % show(ws[-1].a[2])[:100])
        else:
            kind, v = total
            ok = any(same(v, a) for a in am)
            if not ok:
                closed_ = num_val(v) is not None or understood(v) and all(x.op in ('poly', 'const', 'index', 'elem', 'obj', 'attr', 'sym', 'mcall', 'call') or num_val(x) is not None for x in top(v))
                ctx.decide(False if closed_ else None, 'counted', C, loc, 'adds %s for each part' % show(v)[:80])
            elif kind == 'new' and known is not False:
                ctx.decide(False if plain(fs) else None, 'counted', C, loc, 'starts again for a part already counted')
            else:
                ctx.ok('counted', C, loc, 'adds %s' % show(v)[:60])
    # the instruction
    put, unclear, cleared, twice = 0, False, False, 0
    fresh = {}
    for e in evs:
        if e.kind == 'SetItem' and e.a[0] is W:
            if not same(e.a[1], key):
                unclear = True
                continue
            if inside(fs, key, W) is not False and not any(x for x in walk(e.a[2]) if x.op in ('index', 'get') and x.args[0] is W):
                cleared = True
            fresh[e.a[2]] = True
            c = eng.content(st, e.a[2]) if e.a[2].op == 'obj' else None
            if c is not None and c.op in ('seq', 'cat', 'concat'):
                n = sum(1 for x in members(c) if x is el)
                put += n
                if n != len(members(c)):
                    unclear = True
            elif c is None or c.op not in ('empty',):
                unclear = unclear or not (c is not None and c.op == 'seq')
        elif e.kind in ('Append', 'Insert') and e.a and isinstance(e.a[0], T):
            o = e.a[0]
            if o.op in ('index', 'get') and o.args[0] is W and same(o.args[1], key):
                if e.a[-1] is el and e.kind == 'Append':
                    put += 1
                    if not once and not lists(fs, el, W, key, False):
                        twice += 1
                else:
                    unclear = True
        elif e.kind in WRITE and e.a and e.a[0] is W:
            unclear = True
    if unclear:
        ctx.unk('instructions', C, loc, 'the list of instructions is written in another way')
    elif cleared:
        ctx.decide(False if plain(fs) else None, 'instructions', C, loc, 'the list of instructions starts again')
    elif put > 1:
        ctx.decide(False if plain(fs) else None, 'instructions', C, loc, 'the instruction is listed %d times' % put)
    elif put == 1:
        ctx.decide(True if not twice else False if plain(fs) else None, 'instructions', C, loc, 'listed once for every time the part is in it' if twice else '')
    else:
        there = lists(fs, el, W, key, True)
        ctx.decide(True if there else False if plain(fs) else None, 'instructions', C, loc, 'the instruction is not listed')


def closed(t, el):
    return has(t, el) or num_val(t) is not None


def top(v):
    return [v] if v.op != 'poly' else [v] + [a for m, _ in v.args for a, e in m]


def members(c):
    if c.op == 'seq':
        return list(c.args)
    if c.op in ('cat', 'concat'):
        return [x for a in c.args for x in members(a)]
    return [c]


def inside(fs, key, D):
    """True, False or None: the key is in the table"""
    for f in fs:
        neg, h = (True, f.args[0]) if f.op == 'not' else (False, f)
        if h.op == 'in' and same(h.args[0], key) and base(h.args[1]) is D and not (len(h.args) > 2 and isinstance(h.args[2], T) and h.args[2].op == 'mut'):
            return not neg
    return None


def lists(fs, el, W, key, want):
    for f in fs:
        neg, h = (True, f.args[0]) if f.op == 'not' else (False, f)
        if h.op == 'in' and h.args[0] is el and neg is not want:
            t = base(h.args[1])
            if t.op in ('index', 'get') and t.args[0] is W and same(t.args[1], key):
                return True
    return False


# ---------------------------------------------------------------- the code

def code(ctx):
    fi = ctx.func('compressor.huffman', 'encode')
    eng, sts = ctx.run(fi, limit=120)
    if sts is None:
        return ctx.unk('code', 'encode', fi.where(), 'not analysed')
    ps = [a.arg for a in fi.node.args.args]
    T0 = mk('sym', ps[0])
    for s in sts:
        if s.exit[0] == 'return':
            merges(ctx, fi, eng, s, T0)


def is_pop(t):
    return t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] == 'heapq.heappop'


def merges(ctx, fi, eng, s, T0):
    C = 'encode'
    its = [it for it in s.items() if isinstance(it, LoopItem)]
    ml = [it for it in its if any(isinstance(e, Ev) and e.kind == 'Call' and e.a[0] == 'heapq.heappush' for b in it.loop.bodies for e in b.trace)]
    if len(ml) != 1:
        return ctx.unk('merge', C, fi.where(), '%d loops that merge' % len(ml))
    L = ml[0].loop
    for b in L.bodies:
        if b.kind != 'next':
            continue
        pops = [e for e in b.trace if isinstance(e, Ev) and e.kind == 'Call' and e.a[0] == 'heapq.heappop']
        pushes = [e for e in b.trace if isinstance(e, Ev) and e.kind == 'Call' and e.a[0] == 'heapq.heappush']
        if len(pops) != 2 or len(pushes) != 1 or len(pushes[0].a[1]) != 2:
            ctx.unk('merge', C, L.loc, '%d entries taken and %d put back' % (len(pops), len(pushes)))
            continue
        heap = pushes[0].a[1][0]
        if any(e.a[1][0] is not heap for e in pops):
            ctx.unk('merge', C, L.loc, 'two heaps')
            continue
        new = pushes[0].a[1][1]
        c = eng.content(b.state, new) if new.op == 'obj' else new
        taken = []
        for x in [y for z in ([c] if c is not None else []) for y in walk(z)] + [y for it in b.trace if isinstance(it, LoopItem) and isinstance(it.loop.seq, T) for y in walk(it.loop.seq)]:
            if is_pop(x) and x not in taken:
                taken.append(x)
        if c is None or len(taken) != 2:
            ctx.decide(False if c is not None and len(taken) < 2 and understood_m(c) else None, 'merge', C, L.loc, 'the entries merged are %s' % ', '.join(show(x)[:60] for x in taken))
            continue
        p, q = taken
        # weight and symbols of the merged entry
        ms = parts(c)
        if ms is None or not ms or ms[0][0] != 'item':
            ctx.unk('merge', C, L.loc, 'puts back %s' % show(c)[:100])
        else:
            w = ms[0][1]
            want = [mk('index', x, const(0)) for x in (p, q)]
            got = sub_all(w, want)
            ctx.decide(True if got else False if understood_m(w) else None, 'merged weight', C, L.loc, 'the weight put back is %s' % short(w))
            rest = ms[1:]
            ok = len(rest) == 2 and all(k == 'rest' for k, _ in rest) and {rest[0][1], rest[1][1]} == {p, q}
            clear = all(k in ('rest', 'item', 'part') for k, _ in rest)
            ctx.decide(True if ok else False if clear else None, 'merged symbols', C, L.loc, 'the symbols of both entries are kept, each once')
        # the digit put before the codes
        digits = {}
        for it in b.trace:
            if not isinstance(it, LoopItem) or not isinstance(it.loop.seq, T):
                continue
            M = it.loop
            sq = base(M.seq)
            if sq.op != 'slice' or sq.args[0] not in (p, q):
                ctx.unk('digit', C, M.loc, 'loop over %s' % show(sq)[:80])
                digits = None
                break
            who = sq.args[0]
            if not (num_val(sq.args[1]) == 1 and sq.args[2] is NONE and sq.args[3] in (NONE, const(1))):
                ctx.decide(False if all(x is NONE or num_val(x) is not None for x in sq.args[1:4]) else None, 'digit', C, M.loc, 'only for %s' % show(sq)[-40:])
                continue
            for mb in M.bodies:
                sets = [e for e in mb.trace if isinstance(e, Ev) and e.kind == 'SetItem' and e.a[0] is M.elem and num_val(e.a[1]) == 1]
                if mb.kind != 'next' or len(sets) != 1 or any(isinstance(e, (LoopItem, Alt)) for e in mb.trace):
                    sure = mb.kind == 'next' and not sets and all(isinstance(e, Ev) and e.kind != 'CallUnknown' for e in mb.trace) and plain(mb.facts)
                    lone = ok and all(f.op == 'ge0' and has(f, M.iota) for f in mb.facts) and sum(1 for x in b.trace if isinstance(x, LoopItem) and isinstance(x.loop.seq, T) and any(y is who for y in walk(x.loop.seq))) == 1
                    ctx.decide(False if sure and (lone or any(f for f in mb.facts if f.op in ('not', 'eq0') and has(f, M.elem))) else None, 'digit', C, M.loc, 'a code is left without its digit')
                    continue
                d = prefix(sets[0].a[2], M.elem)
                if d is None or d is False:
                    ctx.decide(d, 'digit', C, M.loc, 'the code becomes %s' % show(sets[0].a[2])[:100])
                    digits = None if digits is None else digits
                    if digits is not None:
                        digits[who] = digits.get(who, set()) | {None}
                    continue
                ctx.ok('digit', C, M.loc, 'put before the code')
                digits[who] = digits.get(who, set()) | {d}
        if digits is None:
            continue
        dp, dq = digits.get(p, set()), digits.get(q, set())
        if None in dp | dq:
            continue
        if len(dp) + len(dq) == 1 and sum(isinstance(x, LoopItem) for x in b.trace) == 1:
            ctx.bad('digits', C, L.loc, 'the codes of one of the two entries get no digit')
            continue
        if len(dp) != 1 or len(dq) != 1:
            ctx.unk('digits', C, L.loc, 'digits %s and %s' % (dp, dq))
            continue
        x, y = list(dp)[0], list(dq)[0]
        ctx.decide(not (x.startswith(y) or y.startswith(x)), 'digits', C, L.loc, 'the codes of the two entries begin with %r and %r' % (x, y))
    start(ctx, fi, eng, s, T0, its, L)
    last(ctx, fi, eng, s)


def understood_m(t):
    return all(x.op not in ('unk', 'out', 'after') for x in walk(t))


def short(t):
    return show(t).replace('call(ext(heapq.heappop), ', 'pop(')[:120]


def sub_all(w, want):
    """the weight is the sum of the two"""
    if w.op != 'poly' or len(w.args) != 2:
        return False
    got = set()
    for m, c in w.args:
        if c != 1 or len(m) != 1 or m[0][1] != 1:
            return False
        got.add(unver(m[0][0]))
    return got == {unver(x) for x in want}


def parts(c):
    """items and rests of popped entries a list is made of"""
    if c.op == 'copy':
        return parts(c.args[0])
    if c.op == 'seq':
        return [('item', x) for x in c.args]
    if c.op in ('cat', 'concat'):
        out = []
        for a in c.args:
            r = parts(a)
            if r is None:
                return None
            out += r
        return out
    if c.op == 'slice' and is_pop(c.args[0]) and num_val(c.args[1]) == 1 and c.args[2] is NONE and c.args[3] is NONE:
        return [('rest', c.args[0])]
    if c.op == 'slice' and is_pop(c.args[0]) and all(x is NONE or num_val(x) is not None for x in c.args[1:4]):
        return [('part', c.args[0])]
    return [('other', c)]


def prefix(v, el):
    """the text put before the code: None unknown, False when it is not put before"""
    if text(v) is not None:
        return False
    if v.op != 'str' and v.op != 'cat':
        return None
    a = list(v.args)
    old = [i for i, x in enumerate(a) if isinstance(x, T) and x.op == 'index' and x.args[0] is el and num_val(x.args[1]) == 1]
    txt = [text(x) for i, x in enumerate(a) if i not in old]
    if any(t is None for t in txt):
        return None
    if len(old) != 1:
        return False
    if old[0] != len(a) - 1:
        return False
    d = ''.join(txt)
    return d if d else False


def text(x):
    if isinstance(x, str):
        return x
    if isinstance(x, T) and x.op == 'const' and isinstance(x.args[0], str):
        return x.args[0]
    return None


def start(ctx, fi, eng, s, T0, its, L):
    """every symbol starts in the heap with its weight and no code"""
    C = 'encode'
    heaps = {e.a[1][0] for b in L.bodies for e in b.trace if isinstance(e, Ev) and e.kind == 'Call' and e.a[0] in ('heapq.heappush', 'heapq.heappop')}
    if len(heaps) != 1:
        return ctx.unk('start', C, fi.where(), 'two heaps')
    heap = list(heaps)[0]
    c = eng.content(s, heap) if heap.op == 'obj' else None
    if c is None or c.op != 'mapseq':
        return ctx.unk('start', C, fi.where(), 'starts with %s' % (show(c)[:80] if c is not None else None))
    src = base(c.args[5])
    fl = c.args[3]
    ctx.decide(True if src is T0 and fl is TRUE else False if src is T0 and understood(fl) and fl is not TRUE else None, 'start', C, fi.where(), 'every symbol of the table')
    mine = [it.loop for it in its if it.loop.iota is c.args[0] or any(isinstance(e, Ev) and e.kind == 'Append' and e.a[0] is heap for b in it.loop.bodies for e in b.trace)]
    for M in mine:
        for b in M.bodies:
            for e in b.trace:
                if isinstance(e, Ev) and e.kind == 'Append' and e.a[0] is heap and e.a[1].op == 'obj':
                    x = eng.content(b.state, e.a[1])
                    if x is None or x.op != 'seq' or len(x.args) != 2 or x.args[1].op != 'obj':
                        ctx.unk('start', C, M.loc, 'an entry is %s' % (show(x)[:80] if x is not None else None))
                        continue
                    y = eng.content(b.state, x.args[1])
                    k = M.elem.args[0] if M.elem is not None and M.elem.op == 'tuple' else M.elem
                    ok = same(x.args[0], mk('index', T0, k, V0)) or M.elem.op == 'tuple' and same(x.args[0], M.elem.args[1])
                    ctx.decide(True if ok else None if has(x.args[0], k) and not same(x.args[0], k) else False if understood(x.args[0]) else None, 'start', C, M.loc, 'weight %s' % show(x.args[0])[:80])
                    if y is None or y.op != 'seq' or len(y.args) != 2:
                        ctx.unk('start', C, M.loc, 'a symbol is kept as %s' % (show(y)[:80] if y is not None else None))
                        continue
                    ctx.decide(True if same(y.args[0], k) else False if understood(y.args[0]) else None, 'start', C, M.loc, 'symbol %s' % show(y.args[0])[:80])
                    t = text(y.args[1])
                    ctx.decide(None if t is None else t == '', 'start', C, M.loc, 'the code starts with %r' % (t,))
    # the heap is a heap before anything is taken from it, and merged down to one entry
    order = [e for e in s.items() if isinstance(e, Ev) and e.kind == 'Call' and e.a[0] == 'heapq.heapify' and e.a[1][0] is heap]
    pushed = any(isinstance(e, Ev) and e.kind == 'Call' and e.a[0] == 'heapq.heappush' for it in its if it.loop is not L for b in it.loop.bodies for e in b.trace)
    sorted_ = any(isinstance(e, Ev) and e.kind in ('Sort', 'Sorted') and e.a[0] is heap for e in s.items())
    unknown = any(isinstance(e, Ev) and e.kind in ('CallUnknown', 'MCall') for e in s.items())
    ctx.decide(True if order else None if pushed or sorted_ or unknown else False, 'heap', C, fi.where(), 'put in order before the first entry is taken')
    n = mk('len', T0, V0)
    for b in L.bodies:
        if b.kind != 'next':
            continue
        two = [f for f in b.facts if f.op in ('ge0', 'gt0') and any(x.op == 'len' for x in walk(f))]
        ok = any(f is cmp_ge(sub(mk('len', base(x.args[0]), *x.args[1:]), const(2))) for f in two for x in walk(f) if x.op == 'len')
        ctx.decide(True if ok else False if len(two) == 1 and all(x.op in ('len', 'poly', 'sym', 'ge0', 'gt0', 'const', 'v0', 'ver') for x in walk(two[0])) else None,
                   'merged to one', C, L.loc, 'while more than one entry is left')


def last(ctx, fi, eng, s):
    """every pair of the last entry is given back"""
    C = 'encode'
    v = s.exit[1]
    c = eng.content(s, v) if v.op == 'obj' else v
    while c is not None and c.op in ('perm', 'copy', 'sorted'):
        c = c.args[0]
    if c is not None and c.op == 'slice' and is_pop(c.args[0]):
        a = c.args[1:4]
        ok = num_val(a[0]) == 1 and a[1] is NONE and a[2] in (NONE, const(1), const(-1))
        ctx.decide(True if ok else False if all(x is NONE or num_val(x) is not None for x in a) else None, 'result', C, fi.where(), show(c)[-60:])
    else:
        ctx.decide(None, 'result', C, fi.where(), show(c)[:80] if c is not None else '')


# ---------------------------------------------------------------- the size

def size(ctx):
    fi = ctx.func('compressor.huffman', 'huffman_size')
    ps = [a.arg for a in fi.node.args.args]
    Q, H = mk('sym', 'frequencies'), mk('sym', 'codes')
    eng, sts = ctx.run(fi, limit=120, args={ps[0]: Q, ps[1]: H}, opaque_funcs=('encode',)) if len(ps) == 2 else (None, None)
    C = 'huffman_size'
    if sts is None:
        return ctx.unk('size', C, fi.where(), 'not analysed')
    for s in sts:
        if s.exit[0] != 'return':
            continue
        r = s.exit[1]
        its = [it.loop for it in s.items() if isinstance(it, LoopItem)]
        if r.op == 'out':
            L = [l for l in its if l.lid == r.args[0]]
            if len(L) != 1:
                ctx.unk('size', C, fi.where(), 'gives %s' % show(r)[:80])
                continue
            L = L[0]
            k = next((q for q, h in L.hav.items() if eng.key_name(q) == r.args[1]), None)
            if k is None or L.hav[k] is None:
                ctx.unk('size', C, fi.where(), 'gives %s' % show(r)[:80])
                continue
            i = L.inits.get(k)
            ctx.decide(num_val(i) == 0 if i is not None and num_val(i) is not None else None, 'size', C, L.loc, 'starts with %s' % (show(i) if i is not None else None))
            src(ctx, C, s, L, H, Q)
            for b in L.bodies:
                nv = eng.get_key(b.state, k)
                if b.kind != 'next' or nv is None:
                    ctx.decide(False if b.kind in ('break', 'return') and plain(b.facts) else None, 'size', C, L.loc, 'the sum ends early')
                    continue
                sq = base(L.seq) if isinstance(L.seq, T) else None
                el = mk('elem', base(sq.args[1].args[0]), L.iota, V0) if sq is not None and walks(sq) is not None else L.elem
                if el is None:
                    ctx.unk('size', C, L.loc, 'no element')
                    continue
                if not has(nv, L.hav[k]) and plain(b.facts) and any(unver(x) is mk('index', unver(el), const(1)) for x in walk(nv)) and all(x.op in ('poly', 'const', 'len', 'index', 'elem', 'sym', 'obj', 'call', 'fn', 'v0', 'ver', 'get', 'none') for x in walk(nv)):
                    ctx.bad('size', C, L.loc, 'the sum so far is dropped: %s' % show(nv)[:80])
                    continue
                inc = sub(nv, L.hav[k])
                cd = mk('index', unver(el), const(1))
                none = any(any(unver(x) is cd for x in walk(f)) for f in b.facts)
                if none and num_val(inc) is not None:
                    ctx.decide(None, 'size', C, L.loc, 'adds %s for some codes' % show(inc))
                    continue
                term(ctx, C, L.loc, inc, el, Q, plain(b.facts))
        elif r.op in ('sum', 'sumof', 'fold', 'sumseq'):
            ctx.unk('size', C, fi.where(), 'gives %s' % show(r)[:120])
        else:
            ctx.decide(False if num_val(r) is not None and plain(s.facts) and not any(has(f, H) and f.op == 'ge0' for f in s.facts) and len(sts) == 1 else None, 'size', C, fi.where(), 'gives %s' % show(r)[:80])


def walks(b):
    """the list a range goes over"""
    if b.op == 'range' and len(b.args) >= 2 and num_val(b.args[0]) == 0 and b.args[1].op == 'len' and (len(b.args) < 3 or num_val(b.args[2]) == 1):
        return b.args[1].args[0]
    return None


def src(ctx, C, s, L, H, Q):
    b = base(L.seq) if isinstance(L.seq, T) else None
    given = [f for f in s.facts if f is mk('truth', H)]
    if b is None:
        return ctx.unk('codes', C, L.loc, 'loop over nothing that is known')
    if walks(b) is not None:
        b = base(walks(b))
    if b.op == 'slice':
        b0 = base(b.args[0])
        mine = b0 is H or b0.op == 'call'
        return ctx.decide(False if mine and all(x is NONE or num_val(x) is not None for x in b.args[1:4]) and not (b.args[1] in (NONE, const(0)) and b.args[2] is NONE) else None, 'codes', C, L.loc, 'only %s' % show(b)[:80])
    fresh = b.op == 'call' and any(x.op == 'fn' and str(x.args[0]).endswith('encode') for x in walk(b)) and Q in b.args
    ctx.decide(True if b is H or fresh else None, 'codes', C, L.loc, 'over %s' % show(b)[:80])
    if b is H and not given and any(f is neg_lit(mk('truth', H)) for f in s.facts):
        ctx.bad('codes', C, L.loc, 'no code is built when none is given')
    if fresh and (given or not any(has(f, H) for f in s.facts)):
        ctx.bad('codes', C, L.loc, 'the codes given are not used')


def term(ctx, C, loc, inc, el, Q, sure):
    el = unver(el)
    f = mk('index', Q, mk('index', el, const(0)))
    n = [x for x in walk(inc) if x.op == 'len' and unver(base(x.args[0])) is mk('index', el, const(1))]
    q = [x for x in walk(inc) if x.op in ('index', 'get') and unver(x) is f]
    ok = n and q and inc is mul(q[0], n[0])
    clear = all(x.op in ('poly', 'const', 'len', 'index', 'elem', 'sym', 'obj', 'call', 'fn', 'v0', 'ver', 'get', 'none') for x in walk(inc))
    ctx.decide(True if ok else False if clear and sure else None, 'size', C, loc, 'adds %s for each symbol' % show(inc)[:120])
