"""C04: reassembly is the inverse walk of the interleaving.

interleave: the cursor over the data is a transition system; every iteration stores exactly one
chunk, the chunk under the cursor, in the packet of the current slot; the cursor advances by the chunk
size in bits and the slot advances cyclically over the whole order.
deinterleave: every step of the walk over the same order appends exactly one chunk: the next chunk of
the packet of that slot, or zeros with the position recorded when the packet is lost.
"""
from ..terms import *
from ..prove import prove, decide, simple, inconsistent
from ..report import events, understood, loops_of, conj
from ..trans import at_init, at_next, carried
from ..engine import Ev, LoopItem, Alt

MOD = 'interleaver.interleaver2d'


def method_call(ev, name):
    """(receiver, args) when the event calls method `name`"""
    if ev.kind == 'Call' and isinstance(ev.a[0], str) and ev.a[0].endswith('.' + name):
        return ev.a[1][0], ev.a[1][1:]
    if ev.kind == 'CallUnknown' and isinstance(ev.a[0], T) and ev.a[0].op == 'attr' and ev.a[0].args[1] == name:
        return ev.a[0].args[0], ev.a[1]
    if ev.kind == 'MCall' and ev.a[1] == name:
        return ev.a[0], ev.a[2]
    return None


def ncalls(items, name):
    """number of calls of the method on a straight path; None when inside a loop or a merged call"""
    n = 0
    for it in items:
        if isinstance(it, Ev):
            if method_call(it, name):
                n += 1
        else:
            for e, _ in events([it]):
                if method_call(e, name):
                    return None
    return n


def run(ctx):
    ctx.part(check_interleave)
    ctx.part(check_deinterleave)


# ---------------------------------------------------------------------------- interleave
def check_interleave(ctx):
    fi = ctx.func(MOD, 'interleave')
    ps = [a.arg for a in fi.node.args.args]
    data, order, ws = [mk('sym', p) for p in ps[:3]]
    # the packets are objects of the queue class, its methods are summarised by C02
    eng, sts = ctx.run(fi, opaque_funcs=('BitQueue.enqueue', 'enqueue', 'dequeue', 'empty'),
                       facts=[cmp_ge(sub(ws, const(1))), cmp_ge(sub(const(32), ws))])
    rule = 'interleave-walk'
    if sts is None or not sts:
        return ctx.unk(rule, 'interleave', fi.where())
    found = 0
    for s in sts:
        if s.exit[0] != 'return':
            continue
        for it in loops_of(s.items()):
            L = it.loop
            for b in L.bodies:
                n = ncalls(b.trace, 'enqueue')
                if n is None:
                    continue
                calls = [(e, method_call(e, 'enqueue')) for e in b.trace if isinstance(e, Ev) and method_call(e, 'enqueue')]
                if not calls and not any(method_call(e, 'enqueue') for bb in L.bodies for e in bb.trace if isinstance(e, Ev)):
                    continue
                found += 1
                loc = calls[0][0].loc if calls else L.loc
                if b.kind == 'next' and n != 1:
                    ctx.bad(rule, 'interleave', loc, '%d chunks stored in one step under %s' % (n, conj(b.facts)))
                    continue
                if not calls:
                    continue
                step(ctx, eng, L, b, calls[0][0], calls[0][1], s, data, order, ws)
    if not found:
        ctx.unk(rule, 'interleave', fi.where(), 'the storing loop was not recognised')
    # the packets handed out are fresh queues of the chunk size, one per slot of the order
    for s in sts[:1]:
        v = s.exit[1]
        if v.op == 'call' and v.args[0].op == 'attr' and v.args[0].args[1] == 'fromkeys' and len(v.args) > 2 and v.args[2].op == 'obj':
            ctx.bad('packet-per-slot', 'interleave', fi.where(), 'all the packets are one queue: %s' % show(v))
        made = [e for e, _ in events(s.items()) if e.kind == 'NewObj' and e.a[1] == 'BitQueue']
        for e in made:
            arg = e.a[2][0] if e.a[2] else None
            ctx.decide(True if arg is ws else (False if arg is not None and understood(arg) else (False if arg is None else None)),
                       'packet-chunk-size', 'interleave', e.loc, 'packets use chunks of %s' % (show(arg) if arg is not None else 'the default size'))
        sets = [(e, c) for e, c in events(s.items()) if e.kind == 'SetItem' and e.a[2].op == 'obj' and
                e.a[2].args[1] == 'inst']
        for e, c in sets:
            k = e.a[1]
            if c and c[-1][0].seq is not None:
                ctx.decide(True if k is c[-1][0].elem and c[-1][0].seq is order else None, 'packet-per-slot', 'interleave', e.loc,
                           'packet stored under %s' % show(k))


def step(ctx, eng, L, b, ev, call, s, data, order, ws):
    rule = 'interleave-walk'
    recv, args = call
    loc = ev.loc
    if len(args) != 2 or recv.op != 'index' and recv.op != 'elem':
        return ctx.unk(rule, 'interleave', loc, 'chunk stored with %s' % show(recv))
    word, B = args
    key = recv.args[1]
    if word.op not in ('index', 'elem') or word.args[0] is not data or not (key.op in ('index', 'elem') and key.args[0] is order):
        st = None
        if understood(word) and word.op in ('index', 'elem') and word.args[0] is data and understood(key) and not (
                key.op in ('index', 'elem')):
            st = None
        if word.op in ('index', 'elem') and word.args[0] is data:
            vals, work = {key}, [z for z in walk(key) if z.op == 'hav']
            done = set()
            while work:
                x = work.pop()
                if x in done:
                    continue
                done.add(x)
                for y in [at_init(eng, L, x)] + [at_next(eng, L, bb, x) for bb in L.bodies if bb.kind == 'next']:
                    vals.add(y)
                    work.extend(z for z in walk(y) if z.op == 'hav')
            if key.op in ('hav', 'iota', 'poly', 'mod') and all(
                    not any(z.op in ('index', 'elem', 'unk', 'out', 'call', 'mcall', 'after', 'rand', 'obj') or
                            z.op == 'hav' and z.args[0] != L.lid for z in walk(x)) for x in vals):
                return ctx.bad(rule, 'interleave', loc, 'the packet is chosen by the number of the slot, %s, and not by the order' % show(key))
        return ctx.decide(st, rule, 'interleave', loc, 'chunk %s stored in packet %s' % (show(word), show(key)))
    Aix, K = word.args[1], key.args[1]
    for t in (Aix, B, K):
        if any(x.op in ('unk', 'out', 'rand', 'after') for x in walk(t)):
            return ctx.unk(rule, 'interleave', loc, 'cursor %s' % show(t))
        for x in walk(t):
            if x.op == 'hav' and x.args[0] != L.lid:
                return ctx.unk(rule, 'interleave', loc, 'cursor %s' % show(t))
    n = mk('len', order, mk('v0'))
    facts = list(ev.facts) + [cmp_ge(sub(n, const(1)))]
    inv = [cmp_ge(B), cmp_ge(sub(const(31), B)), cmp_ge(Aix), cmp_ge(K), cmp_ge(sub(n, add(K, const(1)))),
           cmp_ge(sub(ws, const(1))), cmp_ge(sub(const(32), ws))]
    # first iteration
    for name, t in (('word', Aix), ('bit', B), ('slot', K)):
        v = at_init(eng, L, t)
        ctx.decide(True if num_val(v) == 0 else (False if num_val(v) is not None else (None if prove(facts, cmp_eq(v, const(0)))
                   is False else True)), 'interleave-start', name, loc, 'starts at %s' % show(v))
    # the step
    A2, B2, K2 = [at_next(eng, L, b, t) for t in (Aix, B, K)]
    if any(x.op in ('unk', 'out', 'rand', 'after') for t in (A2, B2, K2) for x in walk(t)):
        return ctx.unk(rule, 'interleave', loc, 'next cursor %s %s %s' % (show(A2), show(B2), show(K2)))
    # storing a chunk that leaves the word is refused (C01, C02), so past the store it lies inside
    fs = tuple(b.facts) + tuple(facts) + tuple(inv) + (cmp_ge(sub(const(32), add(B, ws))),)
    allow = set(x for t in (Aix, B, K, A2, B2, K2) for x in walk(t) if x.op == 'hav')
    p, p2 = add(scale(Aix, 32), B), add(scale(A2, 32), B2)
    und = lambda lit: True if prove(fs, lit) else (False if simple(lit, allow | {L.iota}) else None)
    if not inconsistent(fs):
        ctx.decide(und(cmp_eq(p2, add(p, ws))), 'interleave-cursor', 'interleave', loc,
                   'bit position goes from %s to %s' % (show(p), show(p2)))
        ctx.decide(und(cmp_ge(B2)), 'interleave-cursor', 'interleave', loc, 'next bit %s negative' % show(B2))
        ctx.decide(und(cmp_ge(sub(const(31), B2))), 'interleave-cursor', 'interleave', loc, 'next bit %s leaves the word' % show(B2))
        last = cmp_eq(add(K, const(1)), n)
        for case, want in ((last, const(0)), (cmp_ge(sub(n, add(K, const(2)))), add(K, const(1)))):
            f2 = fs + (case,)
            if inconsistent(f2):
                continue
            lit = cmp_eq(K2, want)
            r = True if prove(f2, lit) else (False if simple(lit, allow | {L.iota}) else None)
            ctx.decide(r, 'interleave-slot', 'interleave', loc, 'slot goes from %s to %s of %s' % (show(K), show(K2), show(n)))
    # the walk covers all the data: leaving the loop means the cursor passed the end
    ex = [f for f in s.facts]
    m = {}
    for hv, k in [(h, k) for k, h in L.hav.items() if h is not None and h.op == 'hav']:
        m[hv] = mk('out', L.lid, eng.key_name(k))
    if L.count is not None:
        m[L.iota] = L.count
    endA = subst(Aix, m)
    end = cmp_ge(sub(endA, mk('len', data, mk('v0'))))
    if prove(tuple(ex), end):
        ctx.ok('interleave-end', 'interleave', loc)
    else:
        # the literals that decide leaving
        leave = [f for f in ex if any(x is endA for x in walk(f))]
        ctx.decide(False if L.kind == 'while' and endA.op == 'out' and leave and all(
            simple(f, {endA}) for f in leave) else None, 'interleave-end', 'interleave', loc,
            'leaves the data before its end: %s' % conj(leave))
    if b.kind == 'next':
        # inside the loop a word is read only when it exists
        ctx.decide(True if prove(tuple(ev.facts) + tuple(inv), cmp_gt(sub(mk('len', data, mk('v0')), Aix))) else None, 'interleave-inside', 'interleave', loc)


# -------------------------------------------------------------------------- deinterleave
def lostness(facts, packets, p):
    """+1 the packet p is known to be there, -1 known to be lost, 0 unknown"""
    for f in facts:
        neg = f.op == 'not'
        g = f.args[0] if neg else f
        if g.op == 'in' and g.args[0] is p and g.args[1] is packets and neg:
            return -1
        if g.op == 'isnone' and g.args[0].op == 'index' and g.args[0].args[0] is packets and g.args[0].args[1] is p:
            return 1 if neg else -1
    for f in facts:
        if f.op == 'in' and f.args[0] is p and f.args[1] is packets:
            return 2          # the key is there, the value may still be None
    return 0


def check_deinterleave(ctx):
    fi = ctx.func(MOD, 'deinterleave')
    ps = [a.arg for a in fi.node.args.args]
    packets, order, ws = [mk('sym', p) for p in ps[:3]]
    eng, sts = ctx.run(fi, opaque_funcs=('BitQueue.enqueue', 'enqueue', 'dequeue', 'empty', 'get_bytes'))
    rule = 'deinterleave-walk'
    if not sts:
        return ctx.unk(rule, 'deinterleave', fi.where())
    n = 0
    for s in sts:
        if s.exit[0] == 'raise':
            check_refusal(ctx, s, packets, order, fi)
            continue
        v = s.exit[1]
        dst = None
        for e, c in events(s.items()):
            mc = method_call(e, 'enqueue')
            if mc:
                dst = mc[0]
        if dst is None:
            continue
        check_return(ctx, eng, s, v, dst, order, fi)
        errs = v.args[1] if v.op == 'tuple' and len(v.args) == 2 else None
        for b, L in walk_bodies(s.items(), 'enqueue', dst):
            n += 1
            one_step(ctx, eng, s, L, b, dst, errs, packets, order, fi, ws)
        for e, c in events(s.items()):
            if e.kind in ('SetItem', 'Pop', 'Clear', 'DelItem') and e.a and e.a[0] is packets:
                ctx.decide(False if e.kind == 'SetItem' and e.a[2] is NONE else None, 'deinterleave-losses', 'deinterleave', e.loc,
                           'a packet that arrived is taken away, what is left of the walk counts it as lost')
        made = [e for e, _ in events(s.items()) if e.kind == 'NewObj' and e.a[0] is dst]
        for e in made:
            arg = e.a[2][0] if e.a[2] else None
            ctx.decide(True if arg is ws else (False if arg is None or understood(arg) else None), 'packet-chunk-size', 'deinterleave',
                       e.loc, 'reassembled in chunks of %s' % (show(arg) if arg is not None else 'the default size'))
    if not n:
        ctx.unk(rule, 'deinterleave', fi.where(), 'the reassembling loop was not recognised')


def walk_bodies(items, name, dst, done=None):
    """bodies of the loops that directly append to the result"""
    done = set() if done is None else done
    for it in loops_of(items):
        L = it.loop
        if L.lid in done:
            continue
        direct = any(isinstance(e, Ev) and method_call(e, name) and method_call(e, name)[0] is dst
                     for b in L.bodies for e in b.trace)
        if direct:
            done.add(L.lid)
            for b in L.bodies:
                yield b, L


def one_step(ctx, eng, s, L, b, dst, errs, packets, order, fi, ws):
    rule = 'deinterleave-walk'
    puts = []
    pos = {}
    for i, e in enumerate(b.trace):
        if isinstance(e, Ev):
            mc = method_call(e, 'enqueue')
            if mc and mc[0] is dst:
                puts.append((i, e, mc[1]))
    if b.kind != 'next':
        if b.kind == 'break' and not puts:
            # the walk may only stop at a packet that is exhausted
            p = L.elem
            if L.seq is order:
                st = lostness(b.facts, packets, p)
                drained = any(f.op == 'truth' and f.args[0].op in ('call', 'mcall') and 'empty' in show(f.args[0]) for f in b.facts)
                ctx.decide(True if st in (1,) and drained else (False if st == -1 or (st == 1 and not drained and understood(p) and any(
                    f.op == 'not' and 'empty' in show(f) for f in b.facts)) else None), 'deinterleave-stop', 'deinterleave', L.loc,
                    'the walk stops in the middle of a pass when %s' % conj(b.facts))
        return
    loc = puts[0][1].loc if puts else L.loc
    if L.seq is not order:
        by = [x for x, _ in events(s.items()) if x.kind in ('Sort', 'Sorted') and L.seq is not None and any(a is L.seq for a in x.a)]
        return ctx.decide(False if by else None, rule, 'deinterleave', loc, 'walks %s' % ('the packets sorted' if by else show(L.seq)) if L.seq is not None else 'walk')
    p = L.elem
    if len(puts) != 1:
        nested = any(not isinstance(e, Ev) for e in b.trace)
        drained = any(f.op == 'truth' and 'empty' in show(f) for f in b.facts) or any(
            f.op == 'not' and 'empty' in show(f) for f in b.facts)
        if not puts and drained and lostness(b.facts, packets, p) == 1:
            return ctx.unk(rule, 'deinterleave', loc, 'a drained packet is skipped')
        return ctx.decide(None if nested else False, rule, 'deinterleave', loc,
                          '%d chunks appended in one step when %s' % (len(puts), conj(b.facts)))
    i, e, args = puts[0]
    chunk = args[0]
    st = lostness(e.facts, packets, p)
    appends = [(j, x) for j, x in enumerate(b.trace) if isinstance(x, Ev) and x.kind == 'Append' and x.a[0] is errs]
    if num_val(args[1]) != 0 and understood(args[1]):
        ctx.bad(rule, 'deinterleave', loc, 'chunk taken from bit %s' % show(args[1]))
    if chunk.op in ('call', 'mcall') and 'dequeue' in show(chunk):
        src = chunk.args[0]
        recv = src.args[0] if src.op == 'attr' else (chunk.args[0])
        key = recv.args[1] if recv.op in ('index', 'elem') and len(recv.args) > 1 else None
        ctx.decide(True if key is p else (False if key is not None and understood(key) else None), rule, 'deinterleave', loc,
                   'slot %s filled from packet %s' % (show(p), show(recv)))
        qa = chunk.args[1:] if chunk.op == 'call' else chunk.args[2:]
        if len(qa) == 2:
            ctx.decide(True if num_val(qa[0]) == 0 and num_val(qa[1]) == 0 else (False if understood(qa[0]) and understood(qa[1]) and all(
                num_val(q) is not None for q in qa) else None), rule, 'deinterleave', loc, 'chunk read with %s' % conj(qa))
        ctx.decide(True if st == 1 else (None if st in (0, 2) else False), rule, 'deinterleave', loc, 'packet known present')
        ctx.decide(not appends if errs is not None else None, 'deinterleave-losses', 'deinterleave', loc,
                   'a chunk that was received is reported lost')
    elif num_val(chunk) is not None:
        ctx.decide(num_val(chunk) == 0, rule, 'deinterleave', loc, 'lost chunk replaced by %s' % show(chunk))
        if st == 1:
            ctx.bad(rule, 'deinterleave', loc, 'a packet that is present is read as lost when %s' % conj(b.facts))
        elif st == -1:
            ctx.ok(rule, 'deinterleave', loc)
        else:
            ctx.unk(rule, 'deinterleave', loc, 'zeros appended when %s' % conj(b.facts))
        if errs is None:
            return ctx.unk('deinterleave-losses', 'deinterleave', loc)
        if len(appends) != 1:
            other = any(not isinstance(x, Ev) for x in b.trace)
            return ctx.decide(None if other else False, 'deinterleave-losses', 'deinterleave', loc, 'a lost chunk is reported %d times' % len(appends))
        v = appends[0][1].a[1]
        wantw, wantb = [eng.get_key(L.head, ('heap', (dst, f))) for f in ('_eq_word', '_eq_bit')]
        if v.op == 'tuple' and len(v.args) == 2:
            ctx.decide(True if v.args == (wantw, wantb) else (False if all(understood(x) for x in v.args) and wantw is not None
                       else None), 'deinterleave-losses', 'deinterleave', loc, 'position reported %s, position of the chunk (%s, %s)' % (
                show(v), show(wantw) if wantw is not None else '?', show(wantb) if wantb is not None else '?'))
        else:
            ctx.unk('deinterleave-losses', 'deinterleave', loc, show(v))
    else:
        bad = None
        if st == -1:
            if chunk.op == 'hav' and chunk.args[0] == L.lid:
                later = [at_next(eng, L, bb, chunk) for bb in L.bodies if bb.kind == 'next']
                bad = False if any(x.op in ('call', 'mcall') and 'dequeue' in show(x) for x in later) else None
            elif chunk.op in ('poly', 'pow2', 'const') and prove(tuple(e.facts) + (cmp_ge(sub(ws, const(1))), cmp_ge(sub(pow2(ws), const(2)))), cmp_gt(chunk)):
                bad = False
        ctx.decide(bad, rule, 'deinterleave', loc, 'lost chunk replaced by %s' % show(chunk) if st == -1 else 'chunk %s' % show(chunk))


def check_return(ctx, eng, s, v, dst, order, fi):
    rule = 'deinterleave-result'
    if v.op != 'tuple' or len(v.args) != 2:
        return ctx.unk(rule, 'deinterleave', fi.where(), show(v))
    w = v.args[0]
    good = w.op in ('call', 'mcall') and 'get_bytes' in show(w.args[0]) and dst in list(walk(w)) or w is s.heap.get((dst, '_bytes'))
    ctx.decide(True if good else None, rule, 'deinterleave', fi.where(), show(w))
    # the outer walk ends only when every packet received is drained
    ends = [f for f in s.facts if 'empty' in show(f)]
    if ends:
        good = any(f.op == 'not' and f.args[0].op == 'exists' and f.args[0].args[1].op == 'not' for f in ends)
        if not good and len(ends) == 1 and ends[0].op == 'truth':
            # the packet whose end ends the walk: the first one received has as many chunks as any other
            which = [x for x in walk(ends[0]) if x.op == 'index' and x.args[0].op == 'obj']
            c = eng.content(s, which[0].args[0]) if which else None
            if c is not None and c.op == 'mapseq' and c.args[5] is order and len(which) == 1:
                k = num_val(which[0].args[1])
                return ctx.decide(True if k == 0 else (False if k is not None else None), 'deinterleave-end', 'deinterleave', fi.where(),
                                  'stops when packet %s of those received ends' % show(which[0].args[1]))
        wrong = any(f.op == 'not' and f.args[0].op == 'exists' and f.args[0].args[1].op == 'truth' for f in ends) or \
            any(f.op == 'truth' and f.args[0].op == 'call' and len(ends) == 1 for f in ends) or \
            any(f.op == 'exists' for f in ends)
        ctx.decide(True if good else (False if wrong else None), 'deinterleave-end', 'deinterleave', fi.where(),
                   'stops when %s' % conj(ends))


def check_refusal(ctx, s, packets, order, fi):
    rule = 'deinterleave-refuses'
    loc = fi.where()
    # acceptable only when no packet was received
    for (o, k), c in [(k, c) for k, c in s.heap.items() if len(k) == 2 and k[1] == '#']:
        if c is None or c.op != 'mapseq' or c.args[5] is not order:
            continue
        flt, iota = c.args[3], c.args[0]
        el = mk('elem', order, iota, mk('v0'))
        want = neg_lit(mk('isnone', mk('index', packets, el, mk('v0'))))
        lits = set(flt.args) if flt.op == 'and_' else {flt}
        lens = [x for f in s.facts for x in walk(f) if x.op == 'len' and x.args[0] is o]
        if not lens:
            continue
        if not (lits <= {want, mk('in', el, packets, mk('v0'))} and flt is not TRUE):
            return ctx.decide(False if flt is TRUE else None, rule, 'deinterleave', loc, 'packets counted as received: %s' % show(flt))
        if inconsistent(tuple(s.facts) + (cmp_ge(sub(lens[0], const(1))),)):
            return ctx.ok(rule, 'deinterleave', loc)
        if all(simple(f) for f in s.facts if f.op in ('ge0', 'gt0', 'eq0', 'not')):
            return ctx.bad(rule, 'deinterleave', loc, 'refuses although a packet was received: %s' % conj(s.facts))
    bad = None
    fs = [f for f in s.facts if mentions(f, packets) or mentions(f, order)]
    if not fs:
        bad = None
    ctx.decide(bad, rule, 'deinterleave', loc, 'refuses when %s' % conj(s.facts))


def mentions(t, *xs):
    return any(x in xs for x in walk(t))
