"""C06: corruption keeps the original and files candidates under their own address.

Every candidate a corruptor makes carries the address of the list it is filed in; lists of candidates only
grow (or are replaced by the full set of combinations of what they held); only repeated encodings are left
out.  corrupt_program corrupts exactly the share of addresses asked for, each at most once.  The packet
corruptor applies the bits lost in word i to the instruction at the i-th address.
"""
from ..terms import *
from ..prove import prove, simple, inconsistent
from ..report import events, understood, loops_of, conj
from ..trans import at_init, at_next
from ..shape import *
from ..engine import Ev, LoopItem

MOD = 'corruption.corruption'
DROP = ('Remove', 'Pop', 'Clear', 'DelItem', 'Delete')


def run(ctx):
    ctx.part(random_program)
    ctx.part(one_instruction)
    ctx.part(packet_address)
    ctx.part(packet_program)
    ctx.part(random_share)


def made(ev):
    """(encoding, address) of a candidate built"""
    t = ev.a[0] if ev.kind == 'New' else None
    if t is not None and t.op == 'new' and len(t.args) >= 3:
        return t.args[1], t.args[2]
    return None


def called(x, name):
    return x.op == 'call' and isinstance(x.args[0], T) and x.args[0].op == 'fn' and str(x.args[0].args[0]).endswith(name)


def is_list_of(t, program):
    """address when t is the candidate list of an address of the program"""
    if t.op in ('index', 'elem') and t.args[0] is program:
        return t.args[1]
    if t.op in ('index', 'elem') and t.args[0].op in ('values',) and t.args[0].args[0] is program:
        return t
    return None


def own_address(adr, lst, key, program, also=()):
    """the address given to the candidate is the one of the list"""
    if adr is key or adr in also:
        return True
    if adr.op == 'attr' and adr.args[1] == 'address':
        o = adr.args[0]
        if o in also:
            return True
        if o.op in ('index', 'elem'):
            c = o.args[0]
            if c is lst or (c.op in ('index', 'elem') and c.args[0] is program and c.args[1] is key):
                return True
            k2 = is_list_of(c, program)
            if k2 is not None:
                return False if clear(k2) or k2.op == 'rand' else None
    return False if clear(adr) else None


def grows(ctx, name, s, program, fi, allow=()):
    """no candidate is removed from the program"""
    n = 0
    for e, loops in events(s.items()):
        if e.kind in DROP and e.a and isinstance(e.a[0], T) and (e.a[0] is program or is_list_of(e.a[0], program) is not None):
            n += 1
            ctx.bad('only-grows', name, e.loc, '%s on %s' % (e.kind, show(e.a[0])))
        if e.kind == 'SetItem' and (e.a[0] is program or is_list_of(e.a[0], program) is not None) and e not in allow:
            n += 1
            v = e.a[2]
            lst = e.a[0] is program
            ctx.decide(False if not lst or (v.op == 'obj') else None, 'only-grows', name, e.loc, '%s[%s] is replaced' % (show(e.a[0]), show(e.a[1])))
    if not n:
        ctx.ok('only-grows', name, fi.where(), 'lists of candidates are only appended to')


def random_program(ctx):
    name = 'corrupt_program'
    fi = ctx.func(MOD, name)
    program, pct, most = [mk('sym', a.arg) for a in fi.node.args.args[:3]]
    eng, sts = ctx.run(fi, opaque_funcs=('corrupt_bits',))
    if not sts:
        return ctx.unk('own-address', name, fi.where())
    for s in sts:
        if s.exit[0] == 'raise':
            low = prove(s.facts, cmp_gt(neg(pct))) or prove(s.facts, cmp_gt(sub(pct, const(100))))
            ctx.decide(True if low else (False if all(simple(f, {pct}) for f in s.facts) and s.facts else None), 'refusal', name, fi.where(),
                       'refused under %s' % conj(s.facts))
            continue
        for lit, what in ((cmp_ge(pct), 'below 0'), (cmp_ge(sub(const(100), pct)), 'above 100')):
            ctx.decide(True if prove(s.facts, lit) else (False if not any(has(f, pct) and not simple(f, {pct}) for f in s.facts) else None),
                       'refusal', name, fi.where(), 'a share %s is accepted' % what)
        grows(ctx, name, s, program, fi)
        n = 0
        for e, loops, pos in ordered(s.items()):
            m = made(e)
            if m is None:
                continue
            n += 1
            enc, adr = m
            # where the candidate is filed
            app = [a for a, l in events(s.items()) if a.kind in ('Append', 'Insert') and a.a[-1] is e.a[0]]
            if not app:
                ctx.unk('own-address', name, e.loc, 'candidate %s is not filed' % show(e.a[0])[:80])
                continue
            for a in app:
                key = is_list_of(a.a[0], program)
                if key is None:
                    ctx.unk('own-address', name, a.loc, 'filed in %s' % show(a.a[0])[:80])
                    continue
                ctx.decide(own_address(adr, a.a[0], key, program), 'own-address', name, a.loc,
                           'a candidate with address %s is filed under %s' % (show(adr)[:80], show(key)[:80]))
                # the encoding comes from the instruction of the same address
                src = [x for x in walk(enc) if called(x, 'corrupt_bits')]
                for c in src[:1]:
                    w = c.args[-1]
                    ok = None
                    if w.op == 'attr' and w.args[1] == 'encoding' and w.args[0].op in ('index', 'elem'):
                        l2 = w.args[0].args[0]
                        k2 = is_list_of(l2, program)
                        ok = True if l2 is a.a[0] or k2 is key else (False if k2 is not None and (clear(k2) or k2.op == 'rand') else None)
                    ctx.decide(ok, 'own-encoding', name, e.loc, 'made from %s' % show(w)[:100])
                    hi, lo, amt = c.args[1:4]
                    ctx.decide(True if (hi, lo) == (const(31), const(0)) else (False if clear(hi) and clear(lo) else None), 'all-bits', name, e.loc,
                               'bits %s to %s' % (show(hi), show(lo)))
                    # as many errors as allowed, at least one
                    if amt.op == 'rand' and amt.args[1] == 'randint':
                        ctx.decide(True if tuple(amt.args[2:]) == (const(1), tmax(const(1), most)) else
                                   (False if all(clear(x) for x in amt.args[2:]) else None), 'error-amount', name, e.loc,
                                   'between %s and %s errors' % tuple(show(x) for x in amt.args[2:]))
                    # every word of the set is filed: the loop over it is left only at its end
                    L = loops[-1][0]
                    if L.seq is c:
                        for b in L.bodies:
                            if b.kind == 'break' or b.kind == 'return':
                                ctx.bad('every-combination', name, e.loc, 'left early under %s' % conj(b.facts)[:200])
                            elif not any(isinstance(x, Ev) and x.kind == 'Append' and x.a[0] is a.a[0] for x in b.trace):
                                fs = [f for f in b.facts if f.op in ('exists', 'in') or (f.op == 'eq0' and has(f, L.elem))]
                                lits = [f for f in b.facts if not (f.op == 'in' and f.args[1] is c) and has(f, L.elem)]
                                ctx.decide(True if repeated(b, enc, lits) else (False if lits and all(clear(f) or f.op in ('eq0', 'ge0', 'not') for f in lits) and
                                           not has_inner(b) else None), 'every-combination', name, e.loc, 'left out under %s' % conj(lits)[:200])
                    elif has_op(L.seq, 'slice') if L.seq is not None else False:
                        ctx.bad('every-combination', name, e.loc, 'only %s is used' % show(L.seq)[:120])
        if not n:
            put = any(e.kind in ('Append', 'Extend', 'Insert', 'SetItem', 'SetAttr') or e.kind == 'CallUnknown' and isinstance(e.a[0], T) and e.a[0].op != 'ext'
                      for e, l in events(s.items()))
            ctx.decide(None if put or s.exit[0] != 'return' or not loops_of(s.items()) else False, 'own-address', name, fi.where(), 'no candidate made')
        share(ctx, eng, s, name, fi, program, pct)


def has_inner(b):
    return any(isinstance(x, LoopItem) for x in b.trace)


def repeated(b, enc, lits):
    """the path knows the encoding is there already"""
    for it in b.trace:
        if isinstance(it, LoopItem) and it.body is not None:
            return True
    return any(f.op in ('exists', 'in') for f in lits)


def any_address(s, b, K, program):
    """can the address drawn be any one of the program?"""
    def covers(q):
        if q.op in ('copy', 'perm', 'keys') and isinstance(q.args[0], T):
            return covers(q.args[0])
        if q is program:
            return True
        if q.op == 'obj':
            for h in (s.heap, b.state.heap):
                c = h.get((q, '#'))
                if c is not None:
                    return covers(c) if c is not q else None
            return None
        if q.op == 'slice' and covers(q.args[0]):
            lo, hi = [num_val(x) if isinstance(x, T) and x.op != 'const' else (0 if i == 0 else None) for i, x in enumerate(q.args[1:3])]
            whole = (lo == 0) and isinstance(q.args[2], T) and (q.args[2] is NONE or q.args[2].op == 'len')
            return True if whole else (False if lo else None)
        return None
    if K.op == 'rand' and K.args[1] == 'choice':
        return covers(K.args[2])
    if K.op == 'index' and isinstance(K.args[1], T) and K.args[1].op == 'rand':
        c, r = covers(K.args[0]), K.args[1]
        if not c or r.args[1] not in ('randint', 'randrange'):
            return c
        lo, hi = (r.args[2], r.args[3]) if len(r.args) > 3 else (const(0), r.args[2])
        n = [x for x in walk(hi) if x.op == 'len']
        if len(n) != 1 or num_val(lo) is None:
            return None
        d = num_val(sub(hi, n[0]))
        want = -1 if r.args[1] == 'randint' else 0
        return None if d is None else num_val(lo) == 0 and d == want
    if K.op == 'poly' and any(x.op == 'rand' for x in walk(K)) and not any(x.op in ('index', 'elem') and x.args[0] is not program for x in walk(K)):
        return False        # computed from a number drawn: addresses off that grid are never reached
    return None


def share(ctx, eng, s, name, fi, program, pct):
    """the count of addresses left to corrupt"""
    rule = 'share'
    main = None
    for it in s.items():
        if isinstance(it, LoopItem) and any(e.kind == 'Call' and e.a[0].endswith('corrupt_bits') for e, l in events([it])):
            main = it.loop
    if main is None:
        return ctx.unk(rule, name, fi.where())
    rem = None
    want = None
    n = mk('len', program, mk('v0'))
    goal = None
    for k, hv in main.hav.items():
        if hv is None or hv.op != 'hav' or k[0] != 'env':
            continue
        v = at_init(eng, main, hv)
        if has(v, pct):
            rem, want = hv, v
    if rem is None:
        # a count that changes in the same way in every step
        for k, t in main.closed.items() if hasattr(main, 'closed') else ():
            if k[0] == 'env' and isinstance(t, T) and has(t, pct) and shift_form(t, main.iota) is None and linear(t, main.iota) and \
                    num_val(linear(t, main.iota)[0]) not in (None, 0) and any(
                    not any(e.kind == 'Call' and e.a[0].endswith('corrupt_bits') for e, l in events(b.trace)) for b in main.bodies if b.kind == 'next'):
                return ctx.bad(rule, name, main.loc, 'the count changes by %s whether or not an address is corrupted' % show(linear(t, main.iota)[0]))
        return ctx.unk(rule, name, main.loc, 'count of addresses left not recognised')
    # ceil(max(1, n*pct/100)) = max(1, ceil(n*pct/100))
    x = div(mul(n, pct), const(100))
    np_ = mul(n, pct)
    good = {tmax(const(1), add(np_, neg(floordiv(mul(const(99), np_), const(100))))), neg(floordiv(neg(tmax(const(1), x)), const(1))), tmax(const(1), neg(floordiv(neg(x), const(1))))}
    ctx.decide(True if want in good else (False if clear(want) and rounding_differs(want, n, pct) else None), rule, name, main.loc,
               '%s addresses are corrupted' % show(want))
    for b in main.bodies:
        if b.kind != 'next':
            continue
        corrupts = any(e.kind == 'Call' and e.a[0].endswith('corrupt_bits') for e, l in events(b.trace))
        d = sub(at_next(eng, main, b, rem), rem)
        ctx.decide(True if num_val(d) == (-1 if corrupts else 0) else (False if num_val(d) is not None else None), rule, name, main.loc,
                   'the count changes by %s when an address %s corrupted' % (show(d), 'is' if corrupts else 'is not'))
        if corrupts:
            for K in {is_list_of(x, program) for e, l in events(b.trace) for a in e.a if isinstance(a, T) for x in walk(a)} - {None}:
                ctx.decide(any_address(s, b, K, program), 'any-address', name, main.loc, 'the address corrupted is %s' % show(K)[:160])
            one = [f for f in b.facts if any(y.op == 'len' and is_list_of(y.args[0], program) is not None for y in walk(f))]
            ln = [y for f in one for y in walk(f) if y.op == 'len']
            ok = any(prove(tuple(b.facts), cmp_eq(y, const(1))) for y in ln)
            ctx.decide(True if ok else (False if not any(f for f in b.facts if has_op(f, 'len') and f not in one and has(f, program)) and
                       all(simple(f, set(ln)) for f in one) else None),
                       'once', name, main.loc, 'an address is corrupted again: %s' % conj(one)[:160])
    ex = [f for f in s.facts if any(y.op == 'out' and y.args[0] == main.lid for y in walk(f))]
    o = mk('out', main.lid, [eng.key_name(k) for k, hv in main.hav.items() if hv is rem][0])
    ctx.decide(True if prove(s.facts, cmp_ge(neg(o))) else (False if ex and all(simple(f, {o}) for f in ex) else None), rule, name, main.loc,
               'stops with %s' % conj(ex)[:160])


def rounding_differs(t, n, pct):
    """the count is another affine or rounded function of the share"""
    return all(x.op in ('poly', 'max', 'min', 'floordiv', 'ceil', 'len', 'sym', 'v0', 'const', 'round') for x in vwalk(t))


def one_instruction(ctx):
    name = 'corrupt_instruction'
    fi = ctx.func(MOD, name)
    program, orig, address = [mk('sym', a.arg) for a in fi.node.args.args[:3]]
    flags = {'corrupt_conditional': mk('sym', 'conditional'), 'corrupt_registers': mk('sym', 'registers'), 'corrupt_opcode': mk('sym', 'opcode')}
    eng, sts = ctx.run(fi, opaque_funcs=tuple(flags) + ('distribute_random_amount',))
    if not sts:
        return ctx.unk('own-address', name, fi.where())
    seen = set()
    for s in sts:
        if s.exit[0] != 'return':
            continue
        grows(ctx, name, s, program, fi)
        for f, p in flags.items():
            used = any(e.kind == 'Call' and e.a[0].endswith(f) for e, l in events(s.items()))
            lit = [x for x in s.facts if has(x, p)]
            on = any(x.op == 'truth' and x.args[0] is p for x in lit)
            off = any(x.op == 'not' and x.args[0].op == 'truth' and x.args[0].args[0] is p for x in lit)
            if on or off:
                ctx.decide(used == on, 'requested-fields', name, fi.where(), '%s is %scorrupted when %sasked for' % (p.args[0], '' if used else 'not ', '' if on else 'not '))
        for e, loops, pos in ordered(s.items()):
            m = made(e)
            if m is None or (e.loc, m) in seen:
                continue
            seen.add((e.loc, m))
            enc, adr = m
            for a, l in events(s.items()):
                if a.kind == 'Append' and a.a[1] is e.a[0]:
                    key = is_list_of(a.a[0], program)
                    if key is None:
                        ctx.unk('own-address', name, a.loc)
                        continue
                    ctx.decide(True if key is address else (False if clear(key) else None), 'own-address', name, a.loc, 'filed under %s' % show(key))
                    ctx.decide(own_address(adr, a.a[0], key, program, (orig,)), 'own-address', name, a.loc,
                               'a candidate with address %s is filed under %s' % (show(adr)[:80], show(key)[:80]))


def packet_address(ctx):
    name = 'PacketCorruptor._corrupt_address'
    fi = ctx.func('corruption.corruptors', name)
    ps = [a.arg for a in fi.node.args.args]
    tuples, address, program = [mk('sym', p) for p in ps[1:4]]
    eng, sts = ctx.run(fi, opaque_funcs=('corrupt_all_bits_tuples',))
    if not sts:
        return ctx.unk('every-combination', name, fi.where())
    for s in sts:
        if s.exit[0] != 'return':
            continue
        sets = [e for e, l in events(s.items()) if e.kind == 'SetItem' and e.a[0] is program]
        grows(ctx, name, s, program, fi, allow=sets)
        made_any = [e for e, l in events(s.items()) if made(e)]
        if len(sets) != 1:
            if not sets and not any(e.kind in ('Extend', 'Update') or (e.kind == 'Append' and is_list_of(e.a[0], program) is not None) or
                                    (e.kind == 'SetItem') for e, l in events(s.items())):
                ctx.decide(False if made_any else None, 'every-combination', name, fi.where(), 'the candidates made are not filed')
            else:
                ctx.unk('every-combination', name, fi.where())
            continue
        w = sets[0]
        ctx.decide(True if w.a[1] is address else (False if clear(w.a[1]) else None), 'own-address', name, w.loc, 'filed under %s' % show(w.a[1]))
        R = w.a[2]
        cur = is_list_of
        n = 0
        for e, loops, pos in ordered(s.items()):
            if e.kind != 'Append' or e.a[0] is not R:
                continue
            n += 1
            v = e.a[1]
            if v.op != 'new' or len(v.args) < 3:
                ctx.unk('own-address', name, e.loc, show(v)[:80])
                continue
            enc, adr = v.args[1:3]
            lst = [x for x in walk(adr) if is_list_of(x, program) is address]
            ctx.decide(True if adr is address else own_address(adr, lst[0] if lst else R, address, program), 'own-address', name, e.loc,
                       'a candidate with address %s is filed under %s' % (show(adr)[:80], show(address)))
            cl = [x for x in walk(enc) if called(x, 'corrupt_all_bits_tuples')]
            il = [l for l, b in loops if l.seq is not None and is_list_of(l.seq, program) is address]
            vl = [l for l, b in loops if cl and l.seq is cl[0]]
            if len(cl) != 1 or len(il) != 1 or len(vl) != 1:
                sl = [l for l, b in loops if l.seq is not None and l.seq.op == 'slice' and is_list_of(l.seq.args[0], program) is address]
                one = cl and not il and cl[0].args[-1].op == 'attr' and cl[0].args[-1].args[0].op == 'index' and \
                    num_val(cl[0].args[-1].args[0].args[1]) is not None
                ctx.decide(False if sl or one else None, 'every-combination', name, e.loc, 'candidates made from %s' % show(cl[0])[:160] if cl else '?')
                continue
            c = cl[0]
            a = c.args[1:]
            src = a[1] if len(a) > 1 else None
            ctx.decide(True if a[0] is tuples else (False if clear(a[0]) else None), 'every-combination', name, e.loc, 'bits %s' % show(a[0])[:80])
            ctx.decide(True if src is not None and src.op == 'attr' and src.args[1] == 'encoding' and src.args[0] is il[0].elem else
                       (False if src is not None and clear(src) else None), 'every-combination', name, e.loc,
                       'made from %s' % (show(src)[:100] if src is not None else '?'))
            for l in (il[0], vl[0]):
                for b in l.bodies:
                    if b.kind != 'next':
                        ctx.bad('every-combination', name, e.loc, 'left early under %s' % conj(b.facts)[:160])
                    elif l is vl[0] and not any(isinstance(x, Ev) and x.kind == 'Append' and x.a[0] is R for x in b.trace):
                        lits = [f for f in b.facts if not (f.op == 'in' and f.args[1] is l.seq) and (has(f, l.elem) or has(f, l.iota))]
                        lits = [f for f in lits if not (f.op == 'ge0' and has_op(f, 'len'))]
                        inlist = any(f.op == 'in' and f.args[1] is R for f in lits) or repeated(b, enc, lits)
                        ctx.decide(True if inlist else (False if all(clear(f) or f.op in ('eq0', 'ge0', 'not', 'truth') for f in lits) and not has_inner(b) else None),
                                   'every-combination', name, e.loc, 'left out under %s' % conj(lits)[:160])
        if not n:
            ctx.unk('every-combination', name, w.loc, 'filed %s' % show(R))


# ------------------------------------------------------------------ grouping by word
def random_share(ctx):
    """the random corruptor asks for the share it was made with"""
    name = 'RandomCorruptor.corrupt'
    fi = ctx.func('corruption.corruptors', name)
    ini = ctx.func('corruption.corruptors', 'RandomCorruptor.__init__')
    target = ctx.func(MOD, 'corrupt_program')
    S = mk('sym', 'self')
    made = {}
    for s in ctx.run(ini)[1] or ():
        for (o, k), v in s.heap.items():
            if o is S:
                made[mk('attr', S, k)] = v
    given = [mk('sym', a.arg) for a in ini.node.args.args[1:3]]
    for s in ctx.run(fi, opaque_funcs=('corrupt_program', '_save_corrupted_program'))[1] or ():
        for e, l in events(s.items()):
            if e.kind == 'Call' and e.a[0].endswith('corrupt_program') and '_save' not in e.a[0]:
                a = list(e.a[1])
                if len(a) != 3 or not all(x in made for x in a[1:]):
                    ctx.unk('share-asked', name, e.loc, 'asks for %s' % ', '.join(show(x)[:40] for x in a))
                    continue
                got = [made[x] for x in a[1:]]
                ctx.decide(True if got == given else (False if got == given[::-1] else None), 'share-asked', name, e.loc,
                           'a share of %s with %s errors' % tuple(show(x) for x in got))


def packet_program(ctx):
    name = 'PacketCorruptor.corrupt'
    fi = ctx.func('corruption.corruptors', name)
    program = mk('sym', fi.node.args.args[1].arg)
    S = mk('sym', 'self')
    eng, sts = ctx.run(fi, opaque_funcs=('_corrupt_address', 'predict_corruption', 'build_2d_interleave_sp', 'save_corrupted_program_to_json', 'progress'))
    if not sts:
        return ctx.unk('word-to-address', name, fi.where())
    seen = set()
    n = 0
    for s in sts:
        if s.exit[0] != 'return':
            continue
        for it in s.items():
            if isinstance(it, LoopItem) and it.loop.lid not in seen and any(
                    e.kind == 'Call' and e.a[0].endswith('_corrupt_address') for e, l in events([it])):
                seen.add(it.loop.lid)
                n += 1
                grouping(ctx, eng, it.loop, s, program, S, name)
    if not n:
        ctx.unk('word-to-address', name, fi.where())
    lists = set()
    for s in sts:
        if s.exit[0] == 'return':
            for e, loops, pos in ordered(s.items()):
                if e.kind in DROP + ('DelSlice',) and e.a and e.loc not in lists and isinstance(e.a[0], T):
                    L = loops[-1][0] if loops else None
                    if L is not None and L.seq is not None and L.seq.op in ('values', 'items') and L.seq.args[0] is program and has(e.a[0], L.iota) or \
                            is_list_of(e.a[0], program) is not None or e.a[0] is program:
                        lists.add(e.loc)
                        ctx.bad('only-grows', name, e.loc, 'candidates are taken out: %s on %s' % (e.kind, show(e.a[0])[:80]))
    for s in sts:
        if s.exit[0] == 'return':
            srt = [e for e, l in events(s.items()) if e.kind == 'Call' and e.a[0].endswith('predict_corruption')]
            for e in srt[:1]:
                want = tuple(mk('attr', S, x) for x in ('packet_count', 'bits_per_interleave', 'data_size', 'interleave', 'packet_lost'))
                got = tuple(e.a[1])
                diff = [i for i, (x, y) in enumerate(zip(want, got)) if x is not y]
                ok = True if not diff and len(got) == 5 else (
                    False if len(got) == 5 and all(got[i].op == 'attr' and got[i].args[0] is S for i in diff) else None)
                ctx.decide(ok, 'loss-arguments', name, e.loc, 'losses predicted for %s' % ', '.join(show(x)[:60] for x in got))
            break


def grouping(ctx, eng, L, s, program, S, name):
    err = None
    for e, l in events(s.items()):
        if e.kind == 'Call' and e.a[0].endswith('predict_corruption'):
            err = True
    bits = mk('attr', S, 'bits_per_interleave')
    flush = [(e, b) for b in L.bodies for e in b.trace if isinstance(e, Ev) and e.kind == 'Call' and e.a[0].endswith('_corrupt_address')]
    if not flush:
        return ctx.unk('word-to-address', name, L.loc, 'the call is nested')
    e0, b0 = flush[0]
    args = e0.a[1][1:]
    if len(args) != 3:
        return ctx.unk('word-to-address', name, e0.loc)
    TU, adr, pr = args
    # the address of the word
    for e, b in flush:
        a = e.a[1][2]
        st = None
        if a.op in ('index', 'elem'):
            srcs = a.args[0]
            inner = srcs.args[0] if srcs.op in ('perm', 'sorted', 'copy', 'keys') and isinstance(srcs.args[0], T) else srcs
            if inner is program or (inner.op in ('keys', 'perm') and inner.args[0] is program):
                st = True
            elif clear(srcs):
                st = False
        ctx.decide(st, 'word-to-address', name, e.loc, 'bits applied to %s' % show(a)[:100])
        ctx.decide(True if e.a[1][3] is program else None, 'word-to-address', name, e.loc)
    sorted_ = [x for x, l in events(s.items()) if x.kind in ('Sort', 'Sorted') and x.a[0] is not None and is_list_of(x.a[0], program) is None and (
        any(has(x.a[0], y) for y in [program]) or (x.a[0].op == 'obj'))]
    keyed = [x for x in sorted_ if x.kind == 'Sort' and x.a[0].op == 'obj' and s.heap.get((x.a[0], '#')) is not None and has(s.heap[(x.a[0], '#')], program)]
    if keyed:
        for x in keyed[:1]:
            rev = x.a[2] if len(x.a) > 2 else None
            plain = (x.a[1] is None or x.a[1] is NONE or (isinstance(x.a[1], T) and show(x.a[1]) == 'None'))
            text = isinstance(x.a[1], T) and x.a[1].op == 'builtin' and x.a[1].args[0] in ('str', 'hex', 'repr', 'bin', 'oct', 'ascii')
            ctx.decide(True if plain and not is_true(rev) else (False if is_true(rev) or text else None), 'address-order', name, x.loc, 'addresses in increasing order')
    elif adr.op in ('index', 'elem') and (adr.args[0].op in ('keys', 'copy') or adr.args[0] is program or adr.args[0] is mk('perm', program)) and not sorted_on(s, program):
        ctx.bad('address-order', name, e0.loc, 'the addresses are not put in order: %s' % show(adr)[:80])
    else:
        ctx.unk('address-order', name, e0.loc)
    if adr.op not in ('index', 'elem'):
        return ctx.decide(None, 'group', name, e0.loc, 'word %s' % show(adr)[:100])
    C = adr.args[1]
    if C.op == 'index' and num_val(C.args[1]) == 0 and C.args[0].op == 'hav':
        # the word of the error at hand: the call must not be made when the word changes
        for e, b in flush:
            cur = [x for f in b.facts if f.op == 'not' and f.args[0].op == 'eq0' for x in walk(f) if x.op == 'hav' and x is not C.args[0] and
                   linear(f.args[0].args[0], x) and f.args[0] is cmp_eq(x, C)]
            ctx.decide(False if cur else None, 'group', name, e.loc, 'the bits of word %s are applied to word %s' % (show(cur[0])[-30:] if cur else '?', show(C)[-40:]))
        return
    if C.op != 'hav':
        return ctx.decide(None, 'group', name, e0.loc, 'word %s' % show(adr)[:100])
    if TU.op == 'obj' and not any(isinstance(x, Ev) and x.kind in ('Clear', 'New', 'DelItem', 'Pop', 'Remove', 'SetItem') and x.a and x.a[0] is TU
                                  for b in L.bodies for x, l in events(b.trace)):
        return ctx.bad('group', name, e0.loc, 'the bits of a word are kept for the next one')
    if TU.op != 'hav':
        return ctx.unk('group', name, e0.loc, 'bits %s' % show(TU)[:80])
    # the error looked at
    cand = [hv for k, hv in L.hav.items() if hv is not None and hv.op == 'hav' and hv is not C and hv is not TU]
    E = None
    for hv in cand:
        v = at_init(eng, L, hv)
        c0 = at_init(eng, L, C)
        if c0.op == 'index' and c0.args[0] is v and num_val(c0.args[1]) == 0:
            E = hv
    if E is None:
        return ctx.unk('group', name, e0.loc, 'the error of a step was not recognised')
    word = mk('index', E, const(0), mk('v0'))
    applied_at_end(ctx, L, s, name)
    init = at_init(eng, L, E)
    ctx.decide(True if init.op == 'index' and num_val(init.args[1]) == 0 else (False if init.op == 'index' and num_val(init.args[1]) is not None else None),
               'group', name, L.loc, 'starts with %s' % show(init)[:60])
    for b in L.bodies:
        if b.kind != 'next':
            continue
        fl = [e for e in b.trace if isinstance(e, Ev) and e.kind == 'Call' and e.a[0].endswith('_corrupt_address')]
        ap = [e for e in b.trace if isinstance(e, Ev) and e.kind == 'Append' and e.a[1].op == 'tuple']
        fs = tuple(b.facts)
        T2, C2, E2 = [at_next(eng, L, b, x) for x in (TU, C, E)]
        loc = ap[0].loc if ap else L.loc
        same = prove(fs, cmp_eq(C, word))
        diff = any(f.op == 'not' and f.args[0] is cmp_eq(C, word) for f in fs)
        over = lasts(fs, L)
        # the bits of the error are noted
        for e in ap:
            t = e.a[1]
            le = mk('len', E, mk('v0'))
            two = prove(fs, cmp_ge(sub(const(2), le))) or prove(fs, cmp_eq(mk('len', E, mk('v0')), const(2)))
            b1 = mk('index', E, const(1), mk('v0'))
            width = bits if two else mk('index', E, const(2), mk('v0'))
            okt = len(t.args) == 2 and t.args[0] is b1 and t.args[1] is add(b1, width)
            if not okt and not two and not (prove(fs, cmp_ge(sub(le, const(3)))) or any(f.op == 'not' and f.args[0] is cmp_eq(le, const(2)) for f in fs)):
                okt = None if any(has(f, le) for f in fs) else okt
            ctx.decide(True if okt else None if okt is None else (False if len(t.args) == 2 and all(clear(x, (E,)) for x in t.args) else None), 'bits-of-error', name, e.loc,
                       'bits %s for an error of %s' % (show(t)[:140], 'two fields' if two else 'three fields'))
        if len(ap) != 1:
            ctx.decide(False if not ap and not over and not any(isinstance(x, (LoopItem,)) for x in b.trace) and not any(
                e.kind in ('Extend', 'Insert') for e in b.trace if isinstance(e, Ev)) else None, 'bits-of-error', name, loc,
                'no bits noted under %s' % conj(fs)[-200:])
            continue
        # word changes with bits pending inside the program: they are applied
        pend = any(f.op == 'not' and any(x.op == 'len' and x.args[0] is TU for x in walk(f)) for f in fs) or \
            any(f.op == 'truth' and f.args[0] is TU for f in fs)
        ln = [x for f in fs for x in walk(f) if x.op == 'len' and x.args[0] is not TU and x.args[0] is not E]
        inside = [f for f in fs if f.op == 'ge0' and has(f, C) and linear(f.args[0], C) and num_val(linear(f.args[0], C)[0]) is not None and
                  num_val(linear(f.args[0], C)[0]) < 0]
        beyond = [f for f in fs if f.op == 'ge0' and has(f, C) and linear(f.args[0], C) and num_val(linear(f.args[0], C)[0]) is not None and
                  num_val(linear(f.args[0], C)[0]) > 0 and has(f, program)]
        if (diff or (over and not over == 'no')) and not fl:
            # not applied: only when nothing is pending or the word is past the program
            n = mk('len', program, mk('v0'))
            past = prove(fs, cmp_ge(sub(C, n)))
            empty = prove(fs, cmp_eq(mk('len', TU, mk('v0')), const(0))) or any(
                f.op == 'not' and f.args[0].op == 'truth' and f.args[0].args[0] is TU for f in fs)
            atmost = [f for f in fs if f.op == 'ge0' and has(f, TU) and simple(f, {mk('len', TU, mk('v0'))})]
            st = True if past or empty else (False if atmost and (inside or not any(has(f, C) and has(f, program) for f in fs)) and len(atmost) == len([f for f in fs if has(f, TU)]) else False if all(simple(f, {C, n}) for f in fs if has(f, C) and has(f, program)) and
                                             (beyond or not any(has(f, TU) for f in fs)) else None)
            ctx.decide(st, 'group', name, loc, 'bits of a word are dropped under %s' % conj(fs)[-300:])
        if fl:
            e = fl[0]
            ctx.decide(True if e.a[1][1] is TU else None, 'group', name, e.loc)
            fresh = T2.op == 'obj' and T2 is not TU
            ctx.decide(True if fresh else (False if T2 is TU or T2.op == 'slice' and T2.args[0] is TU else None), 'group', name, e.loc, 'the bits of a word are kept for the next one')
            ctx.decide(True if ap[0].a[0] is T2 else None, 'group', name, ap[0].loc)
            n = mk('len', program, mk('v0'))
            ctx.decide(True if prove(fs, cmp_gt(sub(n, C))) else (False if not any(has(f, program) for f in fs) else None), 'group', name, e.loc,
                       'a word past the program is applied')
            if not (diff or over):
                odd = any(f.op == 'not' and f.args[0].op == 'eq0' and any(f.args[0] is cmp_eq(C, mk('index', E, const(i), mk('v0'))) for i in (1, 2)) for f in fs)
                ctx.decide(False, 'group', name, e.loc, 'a word ends when something else than the word of the error changes') if odd else ctx.decide(False if same and over is False else None, 'group', name, e.loc, 'the bits are applied before the word ends')
        ok = True if C2 is word or (same and C2 is C) else (False if C2 is C and diff else None)
        ctx.decide(ok, 'group', name, loc, 'the word becomes %s' % show(C2)[:80])
        if E2.op == 'index' and E2 is not E:
            k = [x for x in (L.iota,) if shift_form(E2.args[1], x) is not None]
            ctx.decide(True if E2.args[0] is init.args[0] and E2.args[1] is add(L.iota, const(1)) else (False if clear(E2.args[1]) else None),
                       'group', name, loc, 'the next error is %s' % show(E2)[-60:])


def sorted_on(s, program):
    return any(e.kind in ('Sort', 'Sorted') and is_list_of(e.a[0], program) is None and any(y is program for a in e.a if isinstance(a, T) for y in walk(a)) or
               (e.kind == 'Sort' and e.a[0].op == 'obj' and not has(e.a[0], program) and
                (s.heap.get((e.a[0], '#')) is None or has(s.heap[(e.a[0], '#')], program))) for e, l in events(s.items()))


def applied_at_end(ctx, L, s, name):
    """the bits of the last word are applied"""
    its = list(s.items())
    pos = [i for i, it in enumerate(its) if isinstance(it, LoopItem) and it.loop is L]
    if not pos:
        return
    later = [e for e, l in events(its[pos[-1] + 1:]) if e.kind == 'Call' and e.a[0].endswith('_corrupt_address')]
    fl = [b for b in L.bodies if any(isinstance(x, Ev) and x.kind == 'Call' and x.a[0].endswith('_corrupt_address') for x in b.trace)]
    last = [lasts(tuple(b.facts), L) for b in fl]
    if later or True in last:
        return ctx.ok('last-word', name, L.loc, 'the bits of the last word are applied')
    # every call is made for a change of word only
    only = fl and all(any(f.op == 'not' and f.args[0].op == 'eq0' and has_op(f, 'index') for f in b.facts) for b in fl)
    ctx.decide(False if only else None, 'last-word', name, L.loc, 'the bits of the last word are never applied')


def lasts(fs, L):
    """True when the path is at the end of the errors"""
    for f in fs:
        if f.op == 'eq0' and has(f, L.iota) and has_op(f, 'len'):
            return True
        if f.op == 'not' and f.args[0].op == 'eq0' and has(f, L.iota) and has_op(f, 'len'):
            return False
    return None


def is_true(t):
    return t is True or (isinstance(t, T) and t.op == 'const' and t.args[0] is True)
