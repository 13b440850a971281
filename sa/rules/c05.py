"""C05: predicted losses are exactly the bits carried by the lost packets.

For each lost packet: chunks at w*slot, w*slot + w*packets, ... while inside the data; each chunk is reported as
the bits [position, position + w), split at the end of a word.
"""
from ..terms import *
from ..prove import prove, simple, inconsistent
from ..report import events, understood, loops_of, conj
from ..trans import at_init, at_next
from ..shape import *
from ..engine import Ev, LoopItem

MOD = 'corruption.corruption'
W32 = const(32)


def run(ctx):
    ctx.part(losses)


def position(t):
    """X when t is the word (or next word) of bit position X"""
    for x in walk(t):
        if x.op == 'floordiv' and len(x.args) == 2 and num_val(x.args[1]) == 32:
            return x.args[0]
    return None


def losses(ctx):
    name = 'predict_corruption'
    fi = ctx.func(MOD, name)
    count, w, size, order, lost = [mk('sym', a.arg) for a in fi.node.args.args[:5]]
    eng, sts = ctx.run(fi)
    done = [s for s in sts or () if s.exit[0] == 'return']
    if not done:
        return ctx.unk('chunk', name, fi.where())
    total = mul(W32, size)
    jump = mul(w, count)
    for s in done:
        R = s.exit[1]
        adds = [(e, l) for e, l, p in ordered(s.items()) if e.kind == 'Append' and e.a[0] is R]
        direct = adds
        loops = []
        for e, l in adds:
            if l and l[-1][0] not in loops:
                loops.append(l[-1][0])
        if len(loops) != 1 or not adds:
            kinds = [e for e, l in events(s.items()) if e.kind in ('Extend', 'Insert') and e.a[0] is R]
            ctx.unk('chunk', name, fi.where(), '%d places add losses' % len(loops))
            return
        L = loops[0]
        X = None
        for e, l in adds:
            if e.a[1].op == 'tuple' and e.a[1].args:
                X = X or position(e.a[1].args[0])
        if X is None:
            return ctx.unk('chunk', name, L.loc, 'position of a chunk not recognised in %s' % show(adds[0][0].a[1])[:120])
        chain = [l for e, l in adds if l][0]
        in_range = L.seq is not None and L.seq is not False and isinstance(L.seq, T) and L.seq.op == 'range' and L.seq.args[1] is total
        for b in L.bodies:
            if b.kind == 'next':
                chunk(ctx, name, L, b, R, X, w, total, in_range)
            elif any(isinstance(x, Ev) and x.kind == 'Append' and x.a[0] is R for x in b.trace):
                ctx.unk('chunk', name, L.loc, 'left with a loss just noted')
            elif b.kind in ('break', 'return'):
                # left before the end of the data?
                inside = prove(b.facts, cmp_gt(sub(total, X)))
                past = prove(b.facts, cmp_ge(sub(X, total)))
                ctx.decide(True if past and X.op != 'index' else (False if inside or (past and X.op == 'index') else None), 'every-packet', name, L.loc,
                           'left early under %s' % conj(b.facts)[:200])
        steps(ctx, eng, name, s, L, chain, X, w, count, total, jump, order, lost, in_range)


def chunk(ctx, name, L, b, R, X, w, total, in_range):
    fs = tuple(b.facts)
    word, bit = floordiv(X, W32), sub(X, mul(W32, floordiv(X, W32)))
    known = [(0, f.args[0], None) for f in fs if f.op == 'in' and f.args[1] is R and f.args[0].op == 'tuple']
    got = [(1, e.a[1], e.loc) for e in b.trace if isinstance(e, Ev) and e.kind == 'Append' and e.a[0] is R]
    if any(isinstance(x, LoopItem) for x in b.trace):
        return ctx.unk('chunk', name, L.loc, 'nested loop')
    loc = got[0][2] if got else L.loc
    past = prove(fs, cmp_ge(sub(X, total)))
    inside = in_range or prove(fs, cmp_gt(sub(total, X)))
    onx = [f for f in fs if has(f, X) and has(f, [x for x in walk(total) if x.op == 'sym'][0])]
    if past:
        return ctx.decide(not got, 'inside-data', name, loc, 'a loss past the end of the data is reported')
    if not inside and got:
        ctx.decide(False if all(simple(f, {X} | {x for x in walk(total) if x.op == 'sym'}) for f in onx) else None, 'inside-data', name, loc,
                   'losses are reported under %s' % (conj(onx) or 'no bound'))
    elif got:
        ctx.ok('inside-data', name, loc, 'only inside the data')
    facts_on = [f for f in fs if has(f, X) and f not in onx and f.op != 'in' and not (f.op == 'not' and f.args[0].op == 'in')]
    if not (got or known):
        if not inside and onx:
            # a path that may lie inside the data without a report
            ctx.decide(False if all(simple(f, {X} | {x for x in walk(total) if x.op == 'sym'}) for f in onx) else None, 'every-chunk', name, loc,
                       'no loss reported under %s' % conj(onx)[:200])
        elif inside:
            other = [f for f in fs if f.op in ('exists', 'truth') or (f.op == 'not' and f.args[0].op in ('exists', 'truth', 'in'))]
            ctx.decide(False if not other else None, 'every-chunk', name, loc, 'no loss reported under %s' % conj(fs)[-200:])
        else:
            ctx.unk('every-chunk', name, loc)
        return
    pieces = []
    for k, t, l in known + got:
        if len(t.args) == 2:
            pieces.append((t.args[0], t.args[1], w))
        elif len(t.args) == 3:
            pieces.append(t.args)
        else:
            return ctx.unk('chunk', name, loc, show(t))
    key = set(tuple(p) for p in pieces)
    nw = add(word, const(1))
    end = add(bit, w)
    whole = {(word, bit, w)}
    split = {(word, bit, sub(W32, bit)), (nw, const(0), sub(end, W32))}
    fits = prove(fs, cmp_ge(sub(W32, end)))
    over = prove(fs, cmp_gt(sub(end, W32)))
    near = prove(fs, cmp_ge(sub(end, W32)))
    desc = ', '.join('(%s)' % ', '.join(show(x) for x in p) for p in pieces)
    # split one bit early, as the test suite has it
    early = {(word, bit, sub(const(31), bit)), (nw, const(0), sub(end, const(31)))}
    if near and not over and key == early:
        return ctx.bad('split-at-word-end', name, loc, 'a chunk reaching the last bit of a word is reported as bits [%s, 31) of the word and one bit too many of the next' % show(bit))
    if fits and key == whole or over and key == split:
        return ctx.ok('chunk', name, loc, 'reported as %s' % desc[:120])
    plain = all(clear(x, (X,)) for p in pieces for x in p)
    cond = all(simple(f, {x for y in (X, w, word) for x in walk(y)} | {bit, word, X, w}) or f in onx or not has(f, X) for f in facts_on)
    ctx.decide(False if plain and cond else None, 'chunk', name, loc, 'bits [%s, +%s) reported as %s under %s' % (show(bit)[:60], show(w), desc[:300], conj(facts_on)[:200]))


def steps(ctx, eng, name, s, L, chain, X, w, count, total, jump, order, lost, in_range):
    if X.op == 'index' and X.args[0].op == 'obj':
        B, i = X.args[0], X.args[1]
        # all positions held in a list: advanced in place
        sets_missing = False
        for b in L.bodies:
            if b.kind != 'next':
                continue
            st = [e for e in b.trace if isinstance(e, Ev) and e.kind == 'SetItem' and e.a[0] is B]
            other = [e for e in b.trace if isinstance(e, Ev) and e.kind != 'SetItem' and e.a and e.a[0] is B and e.kind in ('Pop', 'Remove', 'Append', 'DelItem', 'Clear')]
            if len(st) == 1 and st[0].a[1] is i:
                ctx.decide(True if st[0].a[2] is add(X, jump) else (False if clear(st[0].a[2], (X,)) else None), 'step', name, st[0].loc,
                           'the position advances to %s' % show(st[0].a[2])[:120])
            elif not st and not other:
                past = prove(b.facts, cmp_ge(sub(X, total)))
                ctx.decide(True if past else False, 'step', name, L.loc, 'the position of a lost packet does not advance')
            else:
                ctx.unk('step', name, L.loc)
        # every position of the list
        seq = L.seq
        okseq = isinstance(seq, T) and seq.op == 'range' and num_val(seq.args[0]) == 0 and num_val(seq.args[2]) == 1
        if okseq:
            n = seq.args[1]
            good = n.op == 'len' and n.args[0] in (B, lost)
            ctx.decide(True if good else (False if n.op == 'poly' and has_op(n, 'len') else None), 'every-packet', name, L.loc, '%s lost packets are looked at' % show(n)[:60])
        else:
            ctx.decide(False if isinstance(seq, T) and seq.op == 'range' and clear(seq.args[0]) and num_val(seq.args[0]) not in (0, None) else None,
                       'every-packet', name, L.loc, 'lost packets looked at: %s' % (show(seq)[:80] if isinstance(seq, T) else '?'))
        # until all are past the end
        outer = chain[0][0]
        if outer is L:
            return ctx.unk('until-end', name, L.loc)
        ex = [f for f in s.facts if any(x.op in ('agg', 'out', 'exists') for x in walk(f)) and has(f, B)]
        ok = None
        for f in ex:
            if f.op == 'ge0':
                for x in walk(f):
                    if x.op == 'agg':
                        l = linear(f.args[0], x)
                        if l and num_val(l[0]) == 1:
                            ok = (x.args[0] == 'min' and l[1] is neg(total)) or (
                                False if x.args[0] == 'max' or l[1] is not neg(total) else None)
                            if x.args[0] == 'min' and l[1] is not neg(total):
                                ok = False if clear(l[1]) else None
                    if x.op == 'index' and x.args[0] is B and num_val(x.args[1]) is not None:
                        l = linear(f.args[0], x)
                        put = any(e.kind in ('Sort', 'Sorted', 'Insert', 'Reverse') for e, _ in events(s.items()))
                        if l and num_val(l[0]) == 1 and l[1] is neg(total) and not put:
                            ok = False      # one packet's position, whatever its place among the others
        ctx.decide(ok, 'until-end', name, outer.loc, 'stops when %s' % conj(ex)[:200])
        # starting positions
        starts = [(e, l) for e, l, p in ordered(s.items()) if e.kind == 'Append' and e.a[0] is B and not any(x is outer for x, b in l)]
        if len(starts) == 1 and starts[0][1]:
            e, l = starts[0]
            P = l[-1][0]
            okp = P.seq is lost and start_ok(e.a[1], w, order, P.elem)
            ctx.decide(True if okp else (False if P.seq is lost and start_ok(e.a[1], w, order, P.elem) is False else None), 'start', name, e.loc,
                       'the first chunk of a packet is at %s' % show(e.a[1])[:120])
            skip = [b for b in P.bodies if b.kind == 'next' and not any(isinstance(x, Ev) and x.kind == 'Append' for x in b.trace)]
            if P.seq is not lost and isinstance(P.seq, T) and P.seq.op == 'slice' and P.seq.args[0] is lost:
                ctx.bad('every-packet', name, e.loc, 'only %s are looked at' % show(P.seq))
            for b in skip:
                fz = [f for f in b.facts if not (f.op == 'in' and f.args[1] is lost)]
                ctx.decide(None, 'every-packet', name, e.loc, 'a lost packet is left out under %s' % conj(fz)[:100])
        else:
            ctx.unk('start', name, L.loc)
        return
    # position kept in a variable, one lost packet at a time
    if isinstance(L.seq, T) and L.seq.op == 'range':
        a, e, st = L.seq.args[:3]
        pk = [l for l, b in chain if l.seq is lost]
        ctx.decide(True if st is jump else (False if clear(st) else None), 'step', name, L.loc, 'the position advances by %s' % show(st)[:80])
        ctx.decide(True if in_range else (False if clear(e) else None), 'until-end', name, L.loc, 'up to bit %s' % show(e)[:80])
        if pk:
            ctx.decide(start_ok(a, w, order, pk[0].elem), 'start', name, L.loc, 'the first chunk of a packet is at %s' % show(a)[:100])
        else:
            ctx.unk('start', name, L.loc)
        return
    l = linear(X, L.iota)
    pk = [q for q, b in chain if q.seq is lost]
    if l is not None and not num_val(l[0]) == 0 and pk:
        ctx.decide(True if l[0] is jump else (False if clear(l[0]) else None), 'step', name, L.loc, 'the position advances by %s' % show(l[0])[:80])
        ctx.decide(start_ok(l[1], w, order, pk[0].elem), 'start', name, L.loc, 'the first chunk of a packet is at %s' % show(l[1])[:100])
    elif X.op == 'hav' and pk:
        x0 = at_init(eng, L, X)
        ctx.decide(start_ok(x0, w, order, pk[0].elem), 'start', name, L.loc, 'the first chunk of a packet is at %s' % show(x0)[:100])
        for b in L.bodies:
            if b.kind == 'next':
                d = sub(at_next(eng, L, b, X), X)
                ctx.decide(True if d is jump else (False if clear(d) else None), 'step', name, L.loc, 'the position advances by %s' % show(d)[:80])
    else:
        ctx.unk('step', name, L.loc, 'position %s' % show(X)[:100])


def start_ok(t, w, order, p):
    """t = w * (slot of packet p in the order)"""
    sl = [x for x in walk(t) if x.op == 'mcall' and x.args[0] is order] or [x for x in walk(t) if x.op in ('mcall', 'call') and has(x, order)]
    if len(sl) != 1:
        return False if not sl and clear(t) else None
    x = sl[0]
    if t is mul(w, x) and x.args[1] == 'index' and any(a is p for a in x.args if isinstance(a, T)) or (t is mul(w, x) and 'index' in show(x) and has(x, p)):
        return True
    l = linear(t, x)
    if l is not None and clear(l[0]) and clear(l[1]):
        return False
    return None
