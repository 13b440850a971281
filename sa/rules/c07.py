"""C07: corruption flips the declared bits only, and produces every combination of them.

Enumerators (corrupt_all_bits, corrupt_all_bits_tuples): by induction over the bits, every step adds,
for every word found so far, the word with exactly that bit flipped; the bits visited are those of the
ranges given.  Sampler (corrupt_bits): the bits are distinct, drawn from the closed range given; word i of
2^amount flips the drawn bits selected by the binary digits of i.  Field corruptors hand over the field.
"""
from ..terms import *
from ..prove import prove, simple, inconsistent
from ..report import events, understood, loops_of, conj
from ..trans import at_init, at_next
from ..shape import *
from ..engine import Ev, LoopItem

MOD = 'corruption.corruption'


def run(ctx):
    ctx.part(enumerate_range)
    ctx.part(enumerate_tuples)
    ctx.part(sampled)
    ctx.part(fields)


def xor_parts(t):
    return list(t.args) if t.op == 'xor' else None


def flips(t, is_src):
    """(source word, exponent of the flipped bit) when t is source ^ 2^e"""
    p = xor_parts(t)
    if p is None or len(p) != 2:
        return None
    for a, b in (p, p[::-1]):
        if is_src(a) and (b.op == 'pow2' or num_val(b) is not None):
            if b.op == 'pow2':
                return a, b.args[0]
            v = num_val(b)
            if v == int(v) and int(v) > 0 and int(v) & (int(v) - 1) == 0:
                return a, const(int(v).bit_length() - 1)
    return None


def bit_loop(t, loops):
    """loop whose element is the bit t"""
    for l, b in loops:
        if l.elem is not None and l.elem is t and l.count is not None:
            return l
    return None


def check_bits(ctx, name, loc, bit, loops, lo, hi):
    """the bit visited runs over [lo, hi)"""
    l = [x for x, b in loops if x.iota is not None and shift_form(bit, x.iota) is not None and has(bit, x.iota)]
    if len(l) != 1 or l[0].count is None:
        return ctx.unk('bits-of-range', name, loc, 'bit %s' % show(bit)), None
    l = l[0]
    off = shift_form(bit, l.iota)
    if off is None or not understood(off) or has_op(off, 'hav', 'after'):
        ctx.unk('bits-of-range', name, loc, 'bit %s' % show(bit))
        return l
    c = l.count
    want = sub(hi, lo)
    okc = c is want or c is tmax(const(0), want)
    ctx.decide(True if off is lo and okc else (False if clear(c) else None), 'bits-of-range', name, loc,
               'bits from %s, %s of them; declared from %s up to %s' % (show(off), show(c), show(lo), show(hi)))
    return l


def additions(items, R):
    """(event, loops, value) adding words to the list R"""
    for e, loops, pos in ordered(items):
        if e.a and e.a[0] is R and e.kind in ('Append', 'SetItem', 'Extend', 'Insert'):
            yield e, loops


def step(ctx, eng, name, e, loops, R, lo, hi, seqs):
    """one way words are added: True when it was read"""
    src = lambda a: a.op in ('index', 'elem') and a.args[0] is R
    if e.kind in ('Append', 'SetItem'):
        v = e.a[1] if e.kind == 'Append' else e.a[2]
        f = flips(v, src)
        if f is None:
            ps = xor_parts(v)
            if ps and all(clear(x) for x in ps if not src(x)) and any(src(x) for x in ps):
                ctx.bad('one-bit', name, e.loc, 'the word added is %s' % show(v))
                return True
            if clear(v) and (src(v) or v.op == 'or' or (v.op == 'poly' and any(src(x) for x in walk(v)))):
                ctx.bad('one-bit', name, e.loc, 'the word added is %s' % show(v))
                return True
            word = mk('sym', 'instruction')
            cleared = v.op == 'bits' and len(v.args[0]) == 1 and v.args[0][0][2].op in ('zero', 'ones') and src(v.args[1]) and clear(v)
            same = ps and word in ps and len(ps) == 2 and any(x.op == 'pow2' for x in ps) and len(loops) > 1 and not any(
                num_val(l.count) == 1 for l, b in loops if l.count is not None)
            ctx.decide(False if cleared or same else None, 'one-bit', name, e.loc, 'the word added is %s' % show(v))
            return bool(cleared or same)
        ctx.ok('one-bit', name, e.loc, show(v))
        a, bit = f
        k = a.args[1]
        check_bits(ctx, name, e.loc, bit, loops, lo, hi)
        inner = [l for l, b in loops if l.iota is not None and has(k, l.iota)]
        if num_val(k) is not None and len(loops) > 1 and not (loops[-1][0].count is not None and num_val(loops[-1][0].count) == 1):
            ctx.bad('every-word', name, e.loc, 'only word %s is combined with the bit' % show(k))
            return True
        if len(inner) != 1 or inner[0] is not loops[-1][0]:
            ctx.unk('every-word', name, e.loc, 'word %s' % show(a))
            return False
        inner = inner[0]
        c = inner.count
        off = shift_form(k, inner.iota)
        if e.kind == 'Append':
            # all the words known when the bit is reached
            okc = c is not None and c.op == 'len' and c.args[0] is R and not has(c.args[1], inner.iota) and inner.lid not in c.args[1].key
            good = True if okc and off is const(0) else (
                False if c is not None and off is not None and (has_op(c, 'len') or num_val(c) is not None) and not has_op(c, 'unk', 'rand', 'hav') and
                (off is not const(0) or c.op in ('poly', 'max', 'min')) else None)
            if c is not None and c.op == 'poly' and any(x.op == 'len' and x.args[0] is R for x in walk(c)) and has_op(c, 'hav'):
                d = sub(c, [x for x in walk(c) if x.op == 'len' and x.args[0] is R][0])
                if num_val(d) is not None and num_val(d) < 0:
                    good = False
            ctx.decide(good, 'every-word', name, e.loc, 'words %s, %s of them' % (show(k), show(c) if c is not None else '?'))
        else:
            K = shift_form(e.a[1], inner.iota)
            if K is None or c is None or off is None:
                ctx.unk('every-word', name, e.loc, 'word stored at %s' % show(e.a[1]))
                return False
            if c.op == 'max' and len(c.args) == 2 and const(0) in c.args:
                c = [x for x in c.args if x is not const(0)][0]
            good = c is K and off is const(0)
            ctx.decide(True if good else (None if not (understood(c) and understood(K)) else False), 'every-word', name, e.loc,
                       'words from %s, %s of them, stored from %s' % (show(off), show(c), show(K)))
            # the count of words doubles with every bit, starting with one
            bl = [l for l, b in loops if shift_form(bit, l.iota) is not None and has(bit, l.iota)]
            if len(bl) != 1:
                return True
            bl = bl[0]
            if K.op == 'len' or has_op(K, 'len'):
                ctx.unk('doubling', name, e.loc, 'count %s' % show(K))
                return True
            nxt = subst(K, {bl.iota: add(bl.iota, const(1))})
            body = [b for l, b in loops if l is bl][0]
            if carried_by(K, bl):
                nxt = at_next(eng, bl, body, K)
            ctx.decide(True if nxt is scale(K, 2) else (False if clear(nxt) else None), 'doubling', name, e.loc,
                       '%s words become %s' % (show(K), show(nxt)))
            outer = [(l, b) for l, b in loops if l is not bl and l is not inner]
            end = subst(K, {bl.iota: bl.count})
            ini = subst(K, {bl.iota: const(0)})
            if len(outer) == 1:
                ol, ob = outer[0]
                cont = at_next(eng, ol, ob, ini)
                if carried_by(cont, ol) or cont is end:
                    ctx.decide(True if cont is end or sub(cont, end) is const(0) or
                               _maxfree(end) is _maxfree(cont) else (False if clear(cont) else None),
                               'doubling', name, e.loc, 'the next range starts with %s words, %s were made' % (show(cont), show(end)))
                else:
                    ctx.decide(False if num_val(cont) is not None and num_val(end) is None else None, 'doubling', name, e.loc,
                               'every range starts with %s words' % show(cont))
                ini = at_init(eng, ol, ini)
            n0 = num_val(ini)
            ctx.decide(n0 == 1 if n0 is not None else None, 'doubling', name, e.loc, 'starts with %s words' % show(ini))
        return True
    if e.kind == 'Extend':
        v = e.a[1]
        ctx.unk('one-bit', name, e.loc, 'words added together: %s' % show(v)[:120])
    return False


def _maxfree(t):
    m = {}
    for x in walk(t):
        if x.op == 'max' and len(x.args) == 2 and const(0) in x.args:
            m[x] = [y for y in x.args if y is not const(0)][0]
    return subst(t, m) if m else t


def carried_by(t, L):
    return any(x.op == 'hav' and x.args[0] == L.lid for x in walk(t))


def skipped(ctx, name, R, adds):
    """a word is left out only when it is already there"""
    for e, loops in adds:
        L = loops[-1][0]
        v = e.a[1] if e.kind == 'Append' else e.a[2]
        for b in L.bodies:
            added = any(isinstance(x, Ev) and x.kind == e.kind and x.a[0] is R for x in b.trace)
            if added:
                # membership is the only condition allowed
                continue
            if b.kind != 'next' and b.kind != 'break':
                continue
            inl = [f for f in b.facts if f.op == 'in' and f.args[1] is R]
            if inl:
                ctx.ok('left-out', name, e.loc, 'left out when already there')
            else:
                if any(isinstance(x, Ev) and x.a and x.a[0] is R and x.kind in ('Append', 'Extend', 'SetItem') for x in b.trace):
                    continue
                ctx.decide(False if all(understood(f) for f in b.facts) and not any(isinstance(x, Ev) and x.kind in ('Call', 'CallUnknown') for x in b.trace) else None,
                           'left-out', name, e.loc, 'a combination is left out under %s' % conj(b.facts))


def returned(ctx, fi, sts, name):
    """the list handed back"""
    out = []
    for s in sts or ():
        if s.exit[0] == 'return' and s.exit[1].op == 'obj':
            out.append((s, s.exit[1]))
    if not out:
        ctx.unk('one-bit', name, fi.where(), 'the list of words was not recognised')
    return out


def start_list(eng, s, R, items):
    """contents of the list before the first loop that adds to it"""
    for it in items:
        if isinstance(it, LoopItem):
            if any(True for _ in additions(it.loop.bodies and [it] or [], R)):
                return eng.get_key(it.loop.pre, ('heap', (R, '#'))) if it.loop.pre is not None else None
    return None


def original_first(ctx, eng, s, R, word, name, fi):
    v = start_list(eng, s, R, s.items())
    ok = None
    if v is not None:
        if v.op == 'seq' and v.args:
            ok = True if word in v.args else (False if all(understood(a) for a in v.args) else None)
        elif word in list(walk(v)):
            ok = True
    ctx.decide(ok, 'original', name, fi.where(), 'the words start as %s' % (show(v) if v is not None else '?'))


def nothing(ctx, s, R, name, fi):
    c = s.heap.get((R, '#'))
    known = c is not None and c.op == 'seq' and not any(e.kind in ('CallUnknown', 'MCall', 'Call') for e, _ in events(s.items()))
    ctx.decide(False if known else None, 'one-bit', name, fi.where(), 'the words handed back are %s whatever the range' % (show(c) if c is not None else '?'))


def enumerate_range(ctx):
    name = 'corrupt_all_bits'
    fi = ctx.func(MOD, name)
    lo, hi, word = [mk('sym', a.arg) for a in fi.node.args.args[:3]]
    eng, sts = ctx.run(fi)
    for s, R in returned(ctx, fi, sts, name):
        adds = list(additions(s.items(), R))
        if not adds:
            nothing(ctx, s, R, name, fi)
        for e, loops in adds:
            if not loops:
                continue
            step(ctx, eng, name, e, loops, R, lo, hi, None)
        skipped(ctx, name, R, [(e, l) for e, l in adds if l and e.kind in ('Append', 'SetItem')])
        original_first(ctx, eng, s, R, word, name, fi)


def enumerate_tuples(ctx):
    name = 'corrupt_all_bits_tuples'
    fi = ctx.func(MOD, name)
    tuples, word = [mk('sym', a.arg) for a in fi.node.args.args[:2]]
    eng, sts = ctx.run(fi)
    for s, R in returned(ctx, fi, sts, name):
        adds = list(additions(s.items(), R))
        if not adds:
            nothing(ctx, s, R, name, fi)
        for e, loops in adds:
            if not loops:
                continue
            tl = [l for l, b in loops if l.seq is tuples]
            if len(tl) != 1:
                part = [l for l, b in loops if l.seq is not None and has(l.seq, tuples) and l.seq.op in ('slice', 'copy')]
                ctx.decide(False if part and part[0].seq.op == 'slice' and understood(part[0].seq) else None,
                           'bits-of-range', name, e.loc, 'ranges visited: %s' % ', '.join(show(l.seq) for l, b in loops if l.seq is not None))
                continue
            t = tl[0].elem
            for b in tl[0].bodies:
                if b.kind not in ('next',):
                    ctx.unk('bits-of-range', name, e.loc, 'the ranges are left early under %s' % conj(b.facts))
            lo, hi = [idx(t, i, loops) for i in (0, 1)]
            step(ctx, eng, name, e, loops, R, lo, hi, None)
        skipped(ctx, name, R, [(e, l) for e, l in adds if l and e.kind in ('Append', 'SetItem')])
        original_first(ctx, eng, s, R, word, name, fi)
        break


def idx(t, i, loops):
    return mk('index', t, const(i), mk('v0'))


def sampled(ctx):
    name = 'corrupt_bits'
    fi = ctx.func(MOD, name)
    hi, lo, amount, word = [mk('sym', a.arg) for a in fi.node.args.args[:4]]
    eng, sts = ctx.run(fi)
    # no more bits can be drawn than there are
    cap = {mk(op, *p): amount for op in ('min', 'tmin') for r in (add(sub(hi, lo), const(1)),) for p in ((amount, r), (r, amount))}
    room = lambda t: subst(t, cap) if t is not None else None
    for s, R in returned(ctx, fi, sts, name):
        items = s.items()
        drawn = [e for e, l in events(items) if e.kind == 'Random']
        # parameters are given as (31, 28): the range is closed, drawn in either naming
        for e in drawn:
            a = e.a[1]
            if e.a[0] != 'randint' or len(a) != 2:
                ctx.unk('bits-drawn', name, e.loc, '%s%s' % (e.a[0], a))
                continue
            # callers give the high bit first, so the pair handed to randint has to be (low, high) of the callers
            ctx.decide(True if tuple(a) == (lo, hi) else (False if all(understood(x) for x in a) and all(
                not has_op(x, 'hav', 'min', 'max') for x in a) else None), 'bits-drawn', name, e.loc, 'drawn from [%s, %s]' % (show(a[0]), show(a[1])))
        B = [e for e, l in events(items) if e.kind == 'Append' and e.a[1].op == 'rand']
        if not drawn or len(set(e.a[0] for e in B)) != 1:
            ctx.unk('bits-drawn', name, fi.where(), 'the drawing of bits was not recognised')
            continue
        bits = B[0].a[0]
        for e in B:
            dup = any(f.op == 'not' and f.args[0].op == 'in' and f.args[0].args[0] is e.a[1] and f.args[0].args[1] is bits for f in e.facts)
            # a fact of another shape on the drawn value leaves it open
            other = [f for f in e.facts if has(f, e.a[1]) and f.op not in ('ge',)]
            ctx.decide(True if dup else (False if all(f.op in ('>=', 'ge', 'le') or show(f).endswith('>= 0') for f in e.facts) else None),
                       'bits-distinct', name, e.loc, 'a bit is drawn twice')
        # as many as asked for
        ln = [f for f in s.facts if any(x.op == 'len' and x.args[0] is bits for x in walk(f))]
        n = [x for f in ln for x in walk(f) if x.op == 'len' and x.args[0] is bits]
        if n:
            r = prove(tuple(room(f) for f in s.facts), cmp_ge(sub(n[0], amount)))
            ctx.decide(True if r else (False if all(simple(f, {n[0]}) for f in ln) else None), 'bits-amount', name, fi.where(),
                       'stops drawing with %s' % conj(ln))
        else:
            ctx.unk('bits-amount', name, fi.where())
        adds = [(e, l) for e, l in additions(items, R) if l]
        if not adds:
            ctx.unk('combination', name, fi.where())
        for e, loops in adds:
            L, b = loops[0]
            v = e.a[1] if e.kind == 'Append' else None
            p = xor_parts(v) if v is not None else None
            if p is None or len(p) != 2 or word not in p:
                ctx.decide(False if v is not None and clear(v) else None, 'combination', name, e.loc,
                           'the word added is %s' % (show(v) if v is not None else '?'))
                continue
            noise = p[0] if p[1] is word else p[1]
            # which combination: loop element runs over 1 .. 2^amount - 1
            el, cnt = L.elem, room(L.count)
            full = el is not None and cnt is not None and (
                (el is add(L.iota, const(1)) and cnt is sub(pow2(amount), const(1))) or (el is L.iota and cnt is pow2(amount)))
            ctx.decide(True if full else (False if cnt is not None and el is not None and understood(cnt) and understood(el) and not has_op(cnt, 'hav', 'after')
                       else None), 'combination', name, e.loc, 'combinations from %s, %s of them' % (
                show(subst(el, {L.iota: const(0)})) if el is not None else '?', show(cnt) if cnt is not None else '?'))
            if noise.op != 'out':
                ctx.unk('combination', name, e.loc, 'bits flipped: %s' % show(noise))
                continue
            nl = [it.loop for it in loops_of(b.trace) if it.loop.lid == noise.args[0]]
            if not nl:
                ctx.unk('combination', name, e.loc, 'bits flipped: %s' % show(noise))
                continue
            noise_loop(ctx, eng, name, nl[0], noise, bits, amount, L, b, e, room)
        skipped(ctx, name, R, adds)
        original_first(ctx, eng, s, R, word, name, fi)


def noise_loop(ctx, eng, name, N, noise, bits, amount, L, ob, e, room):
    key = [k for k in N.hav if eng.key_name(k) == noise.args[1]]
    if len(key) != 1:
        return ctx.unk('combination', name, e.loc, 'bits flipped: %s' % show(noise))
    h = N.hav[key[0]]
    v0 = at_init(eng, N, h)
    st = True if num_val(v0) == 0 else (False if num_val(v0) is not None else None)
    if carried_by(v0, L):
        nv = at_next(eng, L, ob, v0)
        st = False if nv is noise else (True if num_val(nv) == 0 and num_val(at_init(eng, L, v0)) == 0 else None)
    ctx.decide(st, 'combination', name, e.loc, 'bits flipped start as %s' % show(v0))
    c = room(N.count)
    # every drawn bit
    okc = c is not None and (_maxfree(c) is amount or (c.op == 'len' and c.args[0] is bits))
    ctx.decide(True if okc else (False if c is not None and clear(c) else None), 'combination', name, e.loc,
               'bits considered: %s' % (show(c) if c is not None else '?'))
    for b in N.bodies:
        if b.kind != 'next':
            ctx.unk('combination', name, e.loc, 'left early')
            continue
        nv = eng.get_key(b.state, key[0])
        d = delta(nv, h)
        on = selector(b.facts, N, L)
        if isinstance(on, T):
            ctx.bad('combination', name, e.loc, 'bit number %s of the drawn ones is flipped for digit %s of the combination' % (show(N.iota), show(on)))
            continue
        if d is None or on is None:
            ctx.unk('combination', name, e.loc, 'bits flipped become %s under %s' % (show(nv), conj(b.facts)))
            continue
        jbit = lambda t: t.op == 'pow2' and t.args[0].op in ('index', 'elem') and t.args[0].args[0] is bits and t.args[0].args[1] is N.iota
        want = jbit(d) if on else d is const(0)
        bad = (d is const(0) or jbit(d) or (clear(d)))
        ctx.decide(True if want else (False if bad else None), 'combination', name, e.loc,
                   'with digit %s the flipped bits change by %s' % ('one' if on else 'zero', show(d)))


def delta(nv, h):
    if nv is h:
        return const(0)
    if nv.op in ('xor', 'or') and h in nv.args and len(nv.args) == 2:
        return [a for a in nv.args if a is not h][0]
    l = linear(nv, h)
    if l is not None and num_val(l[0]) == 1:
        return l[1]
    return None


def selector(facts, N, L):
    """True/False: digit j of the combination number is one/zero on this path"""
    for f in facts:
        g, pos = (f.args[0], False) if f.op == 'not' else (f, True)
        if not (has(g, N.iota) and has(g, L.iota)):
            continue
        s = show(g)
        for x in walk(g):
            if x.op == 'bits' and len(x.args[0]) == 1:
                lo, hi, src, at = x.args[0][0]
                if lo is N.iota and hi is add(N.iota, const(1)) and src is L.elem:
                    if g.op in ('==', 'eq') or s.endswith('== 0'):
                        return not pos
                elif src is L.elem and hi is add(lo, const(1)) and has(lo, N.iota) and clear(lo):
                    l = linear(lo, N.iota)
                    if l is None or num_val(l[0]) not in (1, -1):
                        return lo
        # (i >> j) & 1
        d = mod(floordiv(L.elem, pow2(N.iota)), const(2))
        if g is cmp_eq(d, const(0)):
            return not pos
        if g is cmp_eq(d, const(1)):
            return pos
    return None


def fields(ctx):
    for name, hi, lo in (('corrupt_conditional', 31, 28), ('corrupt_opcode', 27, 20)):
        fi = ctx.func(MOD, name)
        amount, word = [mk('sym', a.arg) for a in fi.node.args.args[:2]]
        eng, sts = ctx.run(fi, opaque_funcs=('corrupt_bits',))
        n = 0
        for s in sts or ():
            for e, l in events(s.items()):
                if e.kind == 'Call' and e.a[0].endswith('corrupt_bits'):
                    n += 1
                    a = list(e.a[1])
                    want = [const(hi), const(lo), amount, word]
                    ctx.decide(True if a == want else (False if len(a) == 4 and all(understood(x) for x in a) else None), 'field', name, e.loc,
                               'bits %s to %s, amount %s of %s' % tuple(show(x) for x in (a + [const(0)] * 4)[:4]))
                    ctx.decide(True if s.exit[1].op == 'call' else None, 'field', name, e.loc, 'handed back')
        if not n:
            ctx.unk('field', name, fi.where())
    for name in ('corrupt_registers',):
        fi = ctx.func(MOD, name)
        eng, sts = ctx.run(fi, opaque_funcs=('corrupt_bits',))
        for s in sts or ():
            for e, l in events(s.items()):
                if e.kind == 'Call' and e.a[0].endswith('corrupt_bits') and len(e.a[1]) == 4:
                    h, w = num_val(e.a[1][0]), num_val(e.a[1][1])
                    ctx.decide(None if h is None or w is None else 0 <= w <= h <= 31, 'field', name, e.loc, 'bits %s to %s' % (show(e.a[1][0]), show(e.a[1][1])))
