"""C03: the interleave order is a permutation of the packets.

sucesive_packing: induction over the doubling step.  The base block holds 0..3; every step writes the
four w*w quadrants of the 2w*2w square, quadrant q as 4*old+d(q) of the block of the step before, with
the four d equal to {0,1,2,3} and the old block read before it is overwritten.
build_2d_interleave_sp: the packet ranges of the matrices built are consecutive, and every row of every
matrix reaches the result exactly once.
"""
from fractions import Fraction
from ..terms import *
from ..prove import prove, simple, inconsistent
from ..report import events, understood, loops_of, conj
from ..trans import at_init, at_next
from ..shape import *
from ..engine import Ev, LoopItem

_und = understood


def understood(t, **k):
    return _und(t, **k) and not has_op(t, 'hav', 'after') 


MOD = 'interleaver.interleaver2d'
NARROW = ('uint8', 'int8', 'uint16', 'int16', 'byte', 'ubyte', 'short', 'ushort', 'bool_', 'bool', 'float16', 'half')
WIDE = ('int32', 'int64', 'uint32', 'uint64', 'float64', 'float32', 'int_', 'intp', 'float_', 'double', 'longlong')


def run(ctx):
    ctx.part(check_packing)
    ctx.part(check_build)
    ctx.part(check_fresh)


def glob(t):
    return t.op == 'sym' and str(t.args[0]).startswith('global:')


def check_fresh(ctx):
    """the squares moved in place belong to this call alone"""
    name = 'build_2d_interleave_sp'
    fi = ctx.func(MOD, name)
    eng, sts = ctx.run(fi, opaque_funcs=('sucesive_packing',))
    moved = False
    seen = set()
    for s in sts or []:
        for e, _ in events(s.items()):
            if e.kind != 'SetItem':
                continue
            r = e.a[0]
            if r.op not in ('index', 'elem'):
                continue
            r = r.args[0]
            if r.op == 'call' and any(x.op == 'fn' and str(x.args[0]).endswith('sucesive_packing') for x in r.args if isinstance(x, T)):
                moved = True
                for k, _ in events(s.items()):
                    if k.kind == 'SetItem' and glob(k.a[0]) and k.a[2] is r and (k.loc, e.loc) not in seen:
                        seen.add((k.loc, e.loc))
                        ctx.bad('build-fresh', name, e.loc, 'a square remembered in %s is moved in place' % show(k.a[0]))
            elif r.op == 'index' and glob(r.args[0]) and (e.loc,) not in seen:
                seen.add((e.loc,))
                ctx.bad('build-fresh', name, e.loc, 'a square remembered in %s is moved in place' % show(r.args[0]))
    if not moved:
        return ctx.ok('build-fresh', name, fi.where(), 'no square of the packing is changed in place')
    pk = ctx.func(MOD, 'sucesive_packing')
    for s in (ctx.run(pk)[1] or []):
        if s.exit[0] != 'return':
            continue
        v = s.exit[1]
        fresh = v.op == 'obj' or v.op == 'call'
        ctx.decide(True if fresh else (False if v.op == 'tuple' or glob(v) else None), 'build-fresh', 'sucesive_packing', pk.where(),
                   'hands out %s, which is the same for every call, and its caller changes it in place' % show(v))


def cell(key, loops):
    """region written by a SetItem: [(offset, count, iota)] per dimension"""
    if key.op != 'tuple' or len(key.args) != 2:
        return None
    out = []
    used = set()
    for t in key.args:
        L = [l for l in loops if has(t, l.iota)]
        if len(L) != 1 or L[0] in used or L[0].count is None:
            return None
        used.add(L[0])
        off = shift_form(t, L[0].iota)
        if off is None:
            return None
        out.append((off, L[0].count, L[0].iota))
    return out


def check_packing(ctx):
    fi = ctx.func(MOD, 'sucesive_packing')
    m = mk('sym', fi.node.args.args[0].arg)
    eng, sts = ctx.run(fi)
    name = 'sucesive_packing'
    if not sts:
        return ctx.unk('packing', name, fi.where())
    done = False
    for s in sts:
        if s.exit[0] != 'return':
            continue
        M = s.exit[1]
        if M.op == 'obj' or not any(isinstance(x, LoopItem) for x in s.items()):
            continue
        done = True
        packing_path(ctx, eng, s, M, m, fi, name)
    if not done:
        ctx.unk('packing', name, fi.where(), 'no path builds a matrix')


def packing_path(ctx, eng, s, M, m, fi, name):
    base, steps = {}, []
    for e, loops, pos in ordered(s.items()):
        if e.kind != 'SetItem' or e.a[0] is not M:
            continue
        if not loops:
            k = e.a[1]
            if k.op != 'tuple' or any(num_val(x) is None for x in k.args) or num_val(e.a[2]) is None:
                return ctx.unk('packing-base', name, e.loc, show(k))
            base[tuple(int(num_val(x)) for x in k.args)] = (num_val(e.a[2]), e)
        else:
            steps.append((e, loops, pos))
    if any(e.kind == 'SetItem' and e.a[0] is not M and any(x is M for x in walk(e.a[0])) for e, _ in events(s.items())):
        return ctx.unk('packing', name, fi.where(), 'rows written through an alias')
    # shape
    shp = [e for e, _ in events(s.items()) if e.kind == 'Call' and isinstance(e.a[0], str) and e.a[0].endswith('zeros')]
    side = pow2(m)
    for e in shp[:1]:
        given = tuple(e.a[1]) if len(e.a) > 1 and e.a[1] else ()
        kinds = [x for x in given if x.op == 'ext']
        for x in kinds:
            k = str(x.args[0]).split('.')[-1]
            ctx.decide(False if k in NARROW else (True if k in WIDE else None), 'packing-range', name, e.loc,
                       'entries kept as %s: the numbers of a large square do not fit' % k)
        a = next((x for x in given if x.op == 'tuple'), given[0] if given else None)
        if a is not None and a.op == 'tuple' and len(a.args) == 2:
            ctx.decide(True if a.args[0] is side and a.args[1] is side else (None if not understood(a) else False),
                       'packing-shape', name, e.loc, 'matrix of %s' % show(a))
    # base block: 0..3 once each (cells never written are zero)
    cells = {(i, j): 0 for i in (0, 1) for j in (0, 1)}
    outside = [k for k in base if k not in cells]
    cells.update({k: v for k, (v, e) in base.items()})
    loc = next(iter(base.values()))[1].loc if base else fi.where()
    if not base or outside:
        ctx.unk('packing-base', name, loc, 'base block %s' % sorted(base))
    else:
        ctx.decide(sorted(cells.values()) == [0, 1, 2, 3], 'packing-base', name, loc, 'base block holds %s' % sorted(cells.values()))
    if not steps:
        return ctx.unk('packing-step', name, fi.where(), 'no doubling step recognised')
    outer = set(l[0][0] for e, l, p in steps)
    if len(outer) != 1 or any(len(l) != 3 for e, l, p in steps):
        return ctx.unk('packing-step', name, fi.where(), 'doubling step of an unknown shape')
    L = outer.pop()
    i = L.iota
    # one write per quadrant; w is the side of the block of the step before: 2^(1+i) at step i
    w = mul(const(2), pow2(i))
    ctx.decide(True if L.count is not None and sub(L.count, sub(m, const(1))) is const(0) else
               (False if L.count is not None and understood(L.count) else None), 'packing-steps', name, L.loc,
               '%s doubling steps for 2^m' % (show(L.count) if L.count is not None else '?'))
    quads, ds = {}, []
    readers = []
    parsed = True
    for e, loops, pos in steps:
        inner = [l for l, b in loops[1:]]
        if len([b for b in inner[-1].bodies]) != 1 or len(inner[0].bodies) != 1:
            parsed = False
            ctx.unk('packing-step', name, e.loc, 'conditional write')
            continue
        c = cell(e.a[1], inner)
        if c is None:
            parsed = False
            ctx.unk('packing-step', name, e.loc, 'cell %s' % show(e.a[1]))
            continue
        # source: the only read of the matrix in the value
        rd = [x for x in walk(e.a[2]) if x.op in ('index', 'elem') and x.args[0] is M]
        if len(rd) != 1:
            parsed = False
            ctx.unk('packing-step', name, e.loc, 'value %s' % show(e.a[2]))
            continue
        lin = linear(e.a[2], rd[0])
        if lin is None or num_val(lin[0]) is None or num_val(lin[1]) is None:
            parsed = False
            ctx.unk('packing-step', name, e.loc, 'value %s' % show(e.a[2]))
            continue
        k, d = num_val(lin[0]), num_val(lin[1])
        ctx.decide(k == 4, 'packing-scale', name, e.loc, 'entries scaled by %s' % k)
        key = rd[0].args[1]
        if key.op != 'tuple' or len(key.args) != 2:
            parsed = False
            ctx.unk('packing-step', name, e.loc, 'source %s' % show(key))
            continue
        good = True
        tgt = c
        if key.args[0] is c[1][2] and key.args[1] is c[0][2]:
            tgt = c[::-1]                   # transposed: still every cell once
        for (off, cnt, io), t in zip(tgt, key.args):
            src = shift_form(t, io)
            if src is None and not understood(t):
                good = None
            elif src is None or src is not const(0):
                # the source block is [0,w): with the index from 0 to w-1 it must be read at the index itself
                good = False if good is not None else None
            if cnt is not w:
                good = (False if understood(cnt) else None) if good else good
        ctx.decide(good, 'packing-source', name, e.loc, 'cell %s of size %s from %s' % (
            show(e.a[1]), '*'.join(show(x[1]) for x in c), show(key)))
        q = []
        for off, cnt, io in c:
            if off is const(0):
                q.append(0)
            elif off is w:
                q.append(1)
            else:
                q.append(None)
                ctx.decide(False if understood(off) else None, 'packing-quadrant', name, e.loc, 'block at offset %s, expected 0 or %s' % (show(off), show(w)))
        if None in q:
            parsed = False
            continue
        quads.setdefault(tuple(q), []).append((e, d, pos, rd[0]))
    if not parsed:
        return
    loc = steps[0][0].loc
    for q in ((0, 0), (0, 1), (1, 0), (1, 1)):
        n = len(quads.get(q, []))
        ctx.decide(n == 1, 'packing-quadrant', name, loc, 'quadrant %s written %d times' % (q, n))
    ds = sorted(x[1] for l in quads.values() for x in l)
    ctx.decide(ds == [0, 1, 2, 3], 'packing-values', name, loc, 'quadrants get 4*x + %s' % [int(d) for d in ds])
    # the old block is overwritten last
    if (0, 0) in quads:
        e0, d0, p0, r0 = quads[(0, 0)][0]
        for q, l in quads.items():
            if q == (0, 0):
                continue
            for e, d, pos, r in l:
                top, top0 = pos[:2], p0[:2]
                if top[1] == top0[1]:
                    later = pos > p0 and any(x.op == 'mut' for x in walk(r.args[2])) and has(r.args[2], e0.a[1])
                else:
                    later = top > top0
                ctx.decide(not later, 'packing-old-block', name, e.loc, 'the block of the step before is read after it was replaced')


# ------------------------------------------------------------------------------- build
def check_build(ctx):
    name = 'build_2d_interleave_sp'
    fi = ctx.func(MOD, name)
    ps = [a.arg for a in fi.node.args.args]
    eng, sts = ctx.run(fi, opaque_funcs=('sucesive_packing',))
    if not sts:
        return ctx.unk('build', name, fi.where())
    seen = set()
    for s in sts:
        if s.exit[0] != 'return':
            continue
        build_path(ctx, eng, s, mk('sym', ps[0]), fi, name, seen)


def build_path(ctx, eng, s, packets, fi, name, seen):
    items = s.items()
    main = None
    for e, loops, pos in ordered(items):
        if e.kind == 'Call' and e.a[0].endswith('sucesive_packing') and loops:
            main = loops[0][0]
    if main is None:
        return ctx.unk('build', name, fi.where(), 'the loop over the matrix sizes was not recognised')
    if main.lid not in seen:
        seen.add(main.lid)
        for b in main.bodies:
            build_body(ctx, eng, main, b, packets, name)
    rows(ctx, eng, s, main, name, fi)


def no_packing(ctx, eng, L, b, packets, name):
    """a step that builds nothing"""
    rem = [hv for k, hv in L.hav.items() if hv is not None and hv.op == 'hav' and at_init(eng, L, hv) is packets]
    if len(rem) == 1:
        P = rem[0]
        for x in (y for f in b.facts for y in walk(f)):
            if x.op == 'floordiv' and x.args[0] is P and x.args[1].op == 'pow2':
                n = scale(x.args[1].args[0], Fraction(1, 2))
                if n is floordiv(mk('log', P, const(4)), const(1)):
                    return ctx.ok('build-size', name, L.loc, 'a square is never larger than the packets left')
                if any(y.op == 'builtin' and y.args[0] == 'round' for y in walk(n)) or n is neg(floordiv(neg(mk('log', P, const(4))), const(1))):
                    return ctx.bad('build-size', name, L.loc, 'the square may be larger than the packets left: %s' % show(n))
    kept = [e for e, _ in events(b.trace) if e.kind in ('SetItem', 'Append')]
    ctx.decide(None if kept or b.kind == 'next' else True, 'build-size', name, L.loc, 'a step that packs nothing, under %s' % conj(b.facts))


def build_body(ctx, eng, L, b, packets, name):
    base = None
    appends = []            # (event, loops, matrix term)
    writes = {}
    for e, loops, pos in ordered(b.trace):
        if e.kind == 'Call' and e.a[0].endswith('sucesive_packing'):
            base = (e, e.a[1][0])
        if e.kind == 'Append' and not (e.a[1].op == 'poly'):
            appends.append((e, loops, e.a[1]))
        if e.kind == 'SetItem':
            r = e.a[0]
            if r.op in ('index', 'elem'):
                writes.setdefault(r.args[0], []).append((e, loops))
            else:
                writes.setdefault(r, []).append((e, loops))
    if base is None:
        return no_packing(ctx, eng, L, b, packets, name)
    call, n = base
    loc = call.loc
    rem = [hv for k, hv in L.hav.items() if hv is not None and hv.op == 'hav' and at_init(eng, L, hv) is packets]
    if len(rem) != 1:
        return ctx.unk('build-remaining', name, loc, 'the count of packets left was not recognised')
    P = rem[0]
    q = pow2(scale(n, 2))
    side = pow2(n)
    sp = [x for e, l, x in appends if x.op == 'call' and 'sucesive_packing' in show(x)] or \
        [w for w in writes if w.op == 'call' and has_op(w, 'fn')]
    B = None
    for e, l, x in appends:
        if x.op == 'call' and any(y.op == 'fn' for y in walk(x)):
            B = x
    made = {}
    for e, loops, pos in ordered(b.trace):
        if e.kind == 'Call' and (e.a[0].endswith('sucesive_packing') or e.a[0].endswith('zeros')):
            made.setdefault(e.a[0].split('.')[-1], []).append([l for l, _ in loops])
    for i, (e, loops, x) in enumerate(appends):
        for nm in made:
            if x.op == 'call' and x.args[0].op in ('fn', 'ext') and str(x.args[0].args[0]).endswith(nm) and (
                    not any([l for l, _ in loops] == m for m in made[nm]) or len([1 for y in appends if y[2] is x]) > len(made[nm])):
                return ctx.bad('build-alias', name, e.loc, 'one square is kept several times: %s' % show(x))
    # offset of each matrix appended
    seq = []
    for e, loops, x in appends:
        ws = writes.get(x)
        if not ws or len(set(tuple(l for l, _ in wl) for w, wl in ws)) != 1 or (len(ws) > 1 and (
                not ws[0][1] or any([y for y, _ in ws if any(y is z for z in bb.trace)].__len__() != 1 for bb in ws[0][1][-1][0].bodies))):
            return ctx.unk('build-offset', name, e.loc, 'matrix %s filled by %d writes' % (show(x), len(ws or ())))
        alts = []
        for w, wl in ws:
            r = offset_of(ctx, name, w, wl, loops, side, e)
            if r is None:
                return
            alts.append(r + (w,))
        # the paths through the filling loop must agree on the offset
        for of2, off2, w2 in alts[1:]:
            if of2 is not alts[0][0] or off2 is not alts[0][1]:
                ctx.decide(False if _und(off2) and _und(alts[0][1]) and not has_op(off2, 'min', 'max', 'ite') else None, 'build-offset', name, w2.loc,
                           'entries moved by %s or by %s' % (show(alts[0][1]), show(off2)))
        of, off, w = alts[0]
        seq.append((x, of, off, loops, w, e))
    if not seq:
        return ctx.unk('build-offset', name, loc, 'no matrix is kept')
    # absolute offsets: a matrix derived from one already moved inherits its offset when it was moved before
    absolute = {}
    runs = []
    for x, of, off, loops, w, e in seq:
        if of in absolute and of is not x:
            off = add(off, absolute[of])
        if not loops:
            absolute[x] = off
            runs.append((off, None, const(1), e))
        elif len(loops) == 1 and loops[0][0].count is not None and len(loops[0][0].bodies) == 1:
            l = loops[0][0]
            off = subst(off, {hv: v for hv, v in []})
            runs.append((off, l, l.count, e))
        else:
            return ctx.unk('build-offset', name, e.loc, 'matrices made under %s' % ', '.join(l.loc for l, _ in loops))
    for off, l, c, e in runs:
        if has_op(off, 'unk', 'rand', 'after') or not all(x.args[0] == L.lid for x in walk(off) if x.op == 'hav') or has_op(off, 'out'):
            return ctx.unk('build-offset', name, e.loc, 'offset %s' % show(off))
    idx = [hv for k, hv in L.hav.items() if hv is not None and hv.op == 'hav' and hv is not P and has(runs[0][0], hv)]
    if len(idx) != 1:
        return ctx.decide(False if not idx and _und(runs[0][0]) and all(x is P for x in walk(runs[0][0]) if x.op == 'hav') else None, 'build-offset', name, runs[0][3].loc,
                          'first matrix starts at %s whatever was given out before' % show(runs[0][0]))
    C = idx[0]
    v0 = at_init(eng, L, C)
    ctx.decide(True if num_val(v0) == 0 else (False if num_val(v0) is not None else None), 'build-first', name, loc, 'packets given out start at %s' % show(v0))
    pos = C
    total = const(0)
    for off, l, c, e in runs:
        first = subst(off, {l.iota: const(0)}) if l is not None else off
        ctx.decide(sub(first, pos) is const(0), 'build-offset', name, e.loc, 'matrix starts at packet %s, the ones before end at %s' % (show(first), show(pos)))
        if l is not None:
            stp = sub(subst(off, {l.iota: add(l.iota, const(1))}), off)
            ctx.decide(stp is q, 'build-offset', name, e.loc, 'matrices of %s packets are %s apart' % (show(q), show(stp)))
        pos = add(pos, mul(q, c))
        total = add(total, c)
    # the transition
    C2, P2 = at_next(eng, L, b, C), at_next(eng, L, b, P)
    given = mul(q, total)
    f = floordiv(P, q)
    fs = tuple(b.facts)
    if prove(fs, cmp_ge(sub(f, const(1)))):
        fs += (cmp_ge(sub(mul(q, f), q)), cmp_ge(sub(P, mul(q, f))), cmp_gt(sub(add(mul(q, f), q), P)), cmp_gt(q))
    for what, t, want in (('packets given out', C2, add(C, given)), ('packets left', P2, sub(P, given))):
        t = once(t, fs)
        d = sub(t, want)
        ctx.decide(True if d is const(0) else (None if has_op(t, 'unk', 'out', 'after', 'rand') else
                   (True if prove(tuple(b.facts), cmp_eq(t, want)) else False)), 'build-advance', name, loc,
                   '%s become %s, expected %s' % (what, show(t), show(want)))


def once(t, fs):
    """quotients known to be one"""
    for x in list(walk(t)):
        if x.op == 'floordiv':
            a, d = x.args
            if prove(fs, cmp_ge(sub(a, d))) and prove(fs, cmp_gt(sub(scale(d, 2), a))):
                t = subst(t, {x: const(1)})
    return t


def offset_of(ctx, name, w, wl, loops, side, e):
    row, col = (w.a[0].args[1], w.a[1]) if w.a[0].op in ('index', 'elem') else (
        w.a[1].args if w.a[1].op == 'tuple' and len(w.a[1].args) == 2 else (None, None))
    if row is None:
        return ctx.unk('build-offset', name, w.loc, 'cell %s' % show(w.a[1]))
    inner = [l for l, _ in wl if l not in [m for m, _ in loops]]
    rl = [l for l in inner if shift_form(row, l.iota) is not None and has(row, l.iota)]
    cl = [l for l in inner if shift_form(col, l.iota) is not None and has(col, l.iota)]
    if len(inner) != 2 or len(rl) != 1 or len(cl) != 1:
        return ctx.unk('build-offset', name, w.loc, 'cell %s %s' % (show(row), show(col)))
    for l, t in ((rl[0], row), (cl[0], col)):
        o = num_val(shift_form(t, l.iota))
        full = l.count is side and o == 0
        if o is not None and o > 0:
            ctx.bad('build-cells', name, w.loc, 'the first rows or columns are not filled')
            continue
        ctx.decide(True if full else (False if l.count is not None and understood(l.count) else None), 'build-cells', name, w.loc,
                   '%s of %s rows or columns filled' % (show(l.count) if l.count is not None else '?', show(side)))
    # value: entry of the packing at the same cell plus an offset
    src = [y for y in walk(w.a[2]) if y.op in ('index', 'elem') and y.args[1] is col and
           y.args[0].op in ('index', 'elem') and y.args[0].args[1] is row]
    if len(src) != 1:
        return ctx.unk('build-offset', name, w.loc, 'entry %s' % show(w.a[2]))
    off = shift_form(w.a[2], src[0])
    if off is None:
        return ctx.decide(False if understood(w.a[2]) else None, 'build-offset', name, w.loc, 'entry %s' % show(w.a[2]))
    of = src[0].args[0].args[0]
    return of, off


def rows(ctx, eng, s, main, name, fi):
    """every row of every matrix is in the result once"""
    items = s.items()
    mats = [e.a[0] for e, loops, pos in ordered(items) if e.kind == 'Append' and loops and loops[0][0] is main]
    if len(set(mats)) != 1:
        return ctx.unk('build-rows', name, fi.where(), 'matrices kept in %d lists' % len(set(mats)))
    X = mats[0]
    n = 0
    for e, loops, pos in ordered(items):
        if loops and loops[0][0] is main or e.kind not in ('Append', 'Extend'):
            continue
        v = e.a[1]
        # row r of matrix i
        if v.op not in ('index', 'elem') or not (v.args[0].op in ('elem', 'index') and v.args[0].args[0] is X):
            continue
        n += 1
        mat, r = v.args[0], v.args[1]
        ml = [(l, b) for l, b in loops if has(mat.args[1], l.iota)]
        rl = [(l, b) for l, b in loops if l.iota is r]
        if len(ml) != 1 or len(rl) != 1 or len(loops) != 2:
            ctx.unk('build-rows', name, e.loc, 'row %s' % show(v))
            continue
        m, mb = ml[0]
        rw, rb = rl[0]
        # all matrices
        off = shift_form(mat.args[1], m.iota)
        if num_val(off if off is not None else m.iota) is None or num_val(off) < 0:
            ctx.unk('build-rows', name, e.loc, 'row %s' % show(v))
            continue
        if num_val(off) > 0:
            ctx.bad('build-rows', name, e.loc, 'the first %s matrices are left out' % num_val(off))
            continue
        full = m.seq is X or (m.count is not None and m.count.op == 'len' and m.count.args[0] is X)
        ctx.decide(True if full else (False if m.count is not None and understood(m.count, extra=()) and
                   any(y.op == 'len' and y.args[0] is X for y in walk(m.count)) else None), 'build-rows', name, e.loc,
                   'matrices visited: %s' % (show(m.count) if m.count is not None else '?'))
        # all rows of the largest (first) matrix
        c = rw.count
        lens = [y for y in walk(c) if y.op == 'len'] if c is not None else []
        first = [y for y in lens if has(y.args[0], X)]
        far = [y for y in first for z in walk(y) if z.op == 'index' and (z.args[0].op in ('index', 'elem') and z.args[0].args[0] is X) and num_val(z.args[1]) is not None and num_val(z.args[1]) != 0 and num_val(z.args[1]) != -1]
        if far:
            ctx.bad('build-rows', name, e.loc, 'a square may have a single row: %s' % show(far[0]))
        ctx.decide(True if c is not None and c in first else (False if first and c is not None and not has_op(c, 'unk', 'hav', 'rand', 'after') and
                   c.op in ('poly', 'max', 'min') else None), 'build-rows', name, e.loc, 'rows visited: %s' % (show(c) if c is not None else '?'))
        # kept whenever the matrix has the row
        inside = rb if len(loops) == 2 and loops[1][0] is rw else mb
        inner = loops[1][0]
        keep = cmp_gt(sub(mk('len', mat, v.args[2] if len(v.args) > 2 else mk('v0')), r))
        for bb in inner.bodies:
            has_row = any(x.kind in ('Append', 'Extend') and x.a[1] is v for x in bb.trace if isinstance(x, Ev))
            if bb.kind not in ('next',):
                # leaving the inner loop skips the matrices that follow
                lits = [f for f in bb.facts]
                ctx.decide(None if not has_row else False, 'build-rows', name, e.loc, 'the rows of the matrices that follow are skipped under %s' % conj(lits))
                continue
            fs = tuple(bb.facts)
            if has_row:
                continue
            ok = inconsistent(fs + (keep,))
            ctx.decide(True if ok else (False if all(simple(f, {y for y in walk(f) if y.op in ('len', 'iota')}) for f in fs
                                                     if any(y is mat for y in walk(f))) else None),
                       'build-rows', name, e.loc, 'row left out under %s' % conj(fs))
    if not n:
        for e, loops, pos in ordered(items):
            for l, _ in loops:
                if l.seq is not None and l.seq.op == 'zip' and any(y.op == 'star' and y.args[0] is X for y in l.seq.args):
                    return ctx.bad('build-rows', name, l.loc, 'the rows past the smallest square are left out: %s' % show(l.seq))
        return ctx.unk('build-rows', name, fi.where(), 'rows of the matrices not recognised in the result')
    handed(ctx, s, X, name, fi)


def handed(ctx, s, X, name, fi):
    """all the rows collected are given back"""
    R = None
    for e, loops, pos in ordered(s.items()):
        if e.kind in ('Append', 'Extend') and e.a[1].op in ('index', 'elem') and e.a[1].args[0].op in ('elem', 'index') and \
                e.a[1].args[0].args[0] is X:
            if R not in (None, e.a[0]):
                return ctx.unk('build-result', name, e.loc, 'rows collected in two lists')
            R = e.a[0]

    def part(t, loc):
        if t is R:
            return ctx.ok('build-result', name, loc)
        if t.op == 'slice' and t.args[0] is R:
            lo, hi, st = [num_val(x) if isinstance(x, T) else x for x in t.args[1:4]]
            whole = lo in (0, None) and (t.args[2] is None or t.args[2] is NONE or t.args[2].op == 'len') and st in (None, 1, -1)
            cut = (lo or 0) > 0 or (lo or 0) < 0 or hi is not None
            return ctx.decide(True if whole and not cut else (False if cut else None), 'build-result', name, loc, 'only %s is given back' % show(t))
        ctx.unk('build-result', name, loc, 'result %s' % show(t))

    v = s.exit[1]
    if v is R or v.op != 'obj':
        return part(v, fi.where())
    fed = [(e, loops) for e, loops, pos in ordered(s.items()) if e.kind in ('Append', 'Extend') and e.a[0] is v]
    if not fed:
        return ctx.unk('build-result', name, fi.where(), 'result %s' % show(v))
    for e, loops in fed:
        if not loops or loops[0][0].seq is None or e.kind != 'Extend' or len(loops) != 1 or e.a[1] is not loops[0][0].elem:
            ctx.unk('build-result', name, e.loc, 'result extended with %s' % show(e.a[1]))
            continue
        part(loops[0][0].seq, e.loc)
        l, b = loops[0]
        left = [bb for bb in l.bodies if bb.kind not in ('next',) or not any(x is e or isinstance(x, Ev) and x.kind == 'Extend' and x.a[0] is v for x in bb.trace)]
        for bb in left:
            ctx.decide(False if bb.facts and all(simple(f, {y for y in walk(f) if y.op in ('len', 'iota')}) for f in bb.facts) else None,
                       'build-result', name, l.loc, 'a row is left out under %s' % conj(bb.facts))
