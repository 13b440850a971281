"""C40: shift compression takes out the bits of every range listed, and nothing else.

The loop that removes is summarised: which places of the list it walks and in what order, and the
ends of the slice it deletes on every path.
"""
from ..terms import *
from ..report import understood
from ..engine import Ev, LoopItem, Alt, V0
from ..shape import has
from ..prove import inconsistent
from .c21 import paths
from .c39 import base, unver, plain, loops

S = mk('sym', 'self')


def run(ctx):
    ctx.part(kept)
    ctx.part(removed)


def kept(ctx):
    fi = ctx.func('compressor.shiftcompressor', 'ShiftCompressor.__init__')
    ps = [a.arg for a in fi.node.args.args]
    C = 'ShiftCompressor'
    names = ['bits', 'words', 'count']
    eng, sts = ctx.run(fi, args=dict(zip(ps[1:4], [mk('sym', n) for n in names]))) if len(ps) == 4 else (None, None)
    if sts is None:
        return ctx.unk('ranges kept', C, fi.where(), 'not analysed')
    B, D, N = [mk('sym', n) for n in names]
    for s in sts:
        if s.exit[0] != 'return':
            continue
        for f, want in (('_data', D), ('_shift_count', N)):
            v = s.heap.get((S, f))
            ctx.decide(True if v is want or v is not None and base(v) is want else False if v in (B, D, N) or v is not None and num_val(v) is not None else None, 'ranges kept', C + f, fi.where(), show(v)[:80] if v is not None else 'not set')
        v = s.heap.get((S, '_remove_bits'))
        c = eng.content(s, v) if v is not None and v.op == 'obj' else v
        srt = None
        order = [e for e in s.items() if isinstance(e, Ev) and e.kind in ('Sort', 'Sorted') and e.a[0] is v]
        if c is None:
            ctx.unk('ranges kept', C, fi.where(), 'not followed')
            continue
        while c.op in ('perm', 'copy', 'sorted', 'lit'):
            c = c.args[0]
        if c.op == 'mapseq' and c.args[3] is TRUE and c.args[1].op == 'elem' and base(c.args[5]) is B:
            c = B
        lost = c.op == 'slice' and base(c.args[0]) is B and all(x is NONE or num_val(x) is not None for x in c.args[1:4]) or \
            c.op == 'mapseq' and base(c.args[5]) is B and c.args[3] is not TRUE and understood(c.args[3])
        ctx.decide(True if base(c) is B else False if lost else None, 'ranges kept', C, fi.where(), 'the ranges kept are %s' % show(c)[:100])
        if len(order) != 1:
            sure = all(isinstance(e, LoopItem) or isinstance(e, Ev) and e.kind not in ('CallUnknown', 'Insert') for e in s.items())
            ctx.decide(False if not order and base(c) is B and sure else None, 'ranges in order', C, fi.where(), 'sorted %d times' % len(order))
            continue
        ctx.decide(ascending(order[0]), 'ranges in order', C, order[0].loc, 'by word, then by bit')


def ascending(e):
    key, rev = e.a[1], e.a[2]
    r = rev in (True, TRUE, 'True') or str(rev) == 'True'
    if len(e.a) < 4 or not e.a[3]:
        if key in (None, NONE) or str(key) == 'None':
            return not r
        return None
    ks = [v for _, v in e.a[3]]
    if len(ks) != 1:
        return None
    k = ks[0]
    if isinstance(k, tuple):
        k = k[0] if len(k) == 1 else mk('tuple', *k)
    if not isinstance(k, T):
        return None
    parts = list(k.args) if k.op == 'tuple' else None
    if parts is not None:
        ids = [place(x) for x in parts]
        return (not r) if ids == [0, 1] else False if None not in ids else None
    if k.op == 'poly':
        co = {}
        for m, c in k.args:
            if not m:
                continue
            if len(m) != 1 or m[0][1] != 1 or place(m[0][0]) is None:
                return None
            co[place(m[0][0])] = c
        if set(co) == {0, 1} and co[1] > 0 and co[0] > 31 * co[1]:
            return not r
        if set(co) == {0, 1} and co[1] < 0 and co[0] < 31 * co[1]:
            return r
        return False
    if place(k) is not None:
        return False
    return None


def place(x):
    if x.op == 'index' and x.args[0] is mk('sym', 'sortelem'):
        v = num_val(x.args[1])
        return int(v) if v is not None else None
    return None


def removed(ctx):
    fi = ctx.func('compressor.shiftcompressor', 'ShiftCompressor.compress')
    C = 'compress'
    eng, sts = ctx.run(fi)
    if sts is None:
        return ctx.unk('removed', C, fi.where(), 'not analysed')
    R = mk('attr', S, '_remove_bits')
    for s in sts:
        if s.exit[0] != 'return':
            continue
        its = [it for it in s.items() if isinstance(it, LoopItem)]
        ls = [it for it in its if any(isinstance(e, Ev) and e.kind == 'DelSlice' for b in it.loop.bodies for e in b.trace)]
        if len(ls) != 1 or any(isinstance(it, Alt) for it in s.items()):
            deep = any(isinstance(e, Ev) and e.kind in ('DelSlice', 'DelItem', 'Pop') for it in loops(s.items()) for b in it.loop.bodies for e in b.trace)
            if any(f.op != 'in' for f in s.facts):
                ctx.unk('removed', C, fi.where(), 'a path that removes nothing')
                continue
            ctx.unk('removed', C, fi.where(), '%d loops that remove%s' % (len(ls), ' inside others' if deep else ''))
            continue
        L = ls[0].loop
        dels = {e.a[0] for b in L.bodies for e in b.trace if isinstance(e, Ev) and e.kind == 'DelSlice'}
        if len(dels) != 1:
            ctx.unk('removed', C, L.loc, 'from several things')
            continue
        A = list(dels)[0]
        # the bits are those of all the data, and what is left is given
        packs = [e for e in s.items() if isinstance(e, Ev) and e.kind == 'Call' and e.a[0] == 'struct.pack']
        dt = mk('attr', S, '_data')
        if len(packs) == 1 and len(packs[0].a[1]) == 2:
            x = packs[0].a[1][1]
            src = unver(base(x.args[0])) if x.op == 'star' else None
            ctx.decide(True if src is dt else False if src is not None and src.op == 'slice' and unver(base(src.args[0])) is dt and any(num_val(y) not in (None, 0) for y in src.args[1:3]) else None, 'data', C, packs[0].loc, 'the bits of %s' % show(x)[:80])
        else:
            ctx.unk('data', C, fi.where(), 'the data are packed in another way')
        out = s.heap.get((S, 'compressed_buffer'))
        ctx.decide(True if out is not None and out.op in ('call', 'mcall') and has(out, A) else False if out is None or out is NONE or out.op == 'call' and not has(out, A) and any(x.op == 'ext' and x.args[0] == 'struct.pack' for x in walk(out)) else None,
                   'result', C, fi.where(), 'gives %s' % (show(out)[:80] if out is not None else None))
        # every range, from the last to the first
        el, r = walk_of(L, R)
        ctx.decide({'down': True, 'up': False, 'part': False, None: None}[r], 'every range', C, L.loc, {'down': 'from the last to the first', 'up': 'the first are removed first, the others have moved', 'part': 'not all the ranges: %s' % (show(L.seq)[:80] if isinstance(L.seq, T) else ''), None: 'over %s' % (show(L.seq)[:80] if isinstance(L.seq, T) else None)}[r])
        if el is None:
            continue
        n = mk('attr', S, '_shift_count')
        lo = add(mul(const(32), mk('index', el, const(0))), mk('index', el, const(1)))
        for b in L.bodies:
            for fs, tr in paths(b.trace) or ():
                fs = tuple(b.facts) + fs
                if inconsistent(fs):
                    continue
                if b.kind in ('break', 'return', 'raise'):
                    ctx.decide(False if plain(fs) and not any(has(f, A) for f in fs) else None, 'every range', C, L.loc, 'ends early')
                    continue
                ds = [e for e in tr if isinstance(e, Ev) and e.kind == 'DelSlice']
                if any(isinstance(e, LoopItem) for e in tr):
                    ctx.unk('removed', C, L.loc, 'a loop inside')
                    continue
                if len(ds) != 1:
                    ctx.decide(None if not plain(fs) or any(has(f, A) for f in fs) or len(ds) > 1 else False, 'removed', C, L.loc, 'nothing is removed when %s' % ' and '.join(show(f) for f in fs)[:120])
                    continue
                d = ds[0]
                a, z, st = [flat(x) for x in d.a[1:4]]
                same = a is lo and z is add(lo, n) and (st is NONE or num_val(st) == 1)
                ctx.decide(True if same else False if closed(a) and closed(z) and closed(st) else None, 'removed', C, d.loc, 'bits %s to %s' % (show(d.a[1])[:80], show(d.a[2])[:80]))


def closed(t):
    return all(x.op in ('poly', 'const', 'index', 'attr', 'sym', 'elem', 'none', 'range', 'len', 'v0') for x in walk(t))


def flat(t):
    """a sum without the moments its parts were read at"""
    if t.op == 'poly':
        out = const(0)
        for m, c in t.args:
            x = const(c)
            for a, e in m:
                for _ in range(e if e > 0 else 0):
                    x = mul(x, unver(a))
                if e < 0:
                    return t
            out = add(out, x)
        return out
    return unver(t)


def walk_of(L, R):
    """the range at hand, and how the list is walked: down, up, part of it"""
    q = L.seq
    if not isinstance(q, T) or L.elem is None:
        return None, None
    q = base(q)
    here = unver(L.elem)
    if q.op == 'range':
        lo, hi, st = q.args[0], q.args[1], q.args[2] if len(q.args) > 2 else const(1)
        item = mk('index', R, here)
        n = [x for x in list(walk(lo)) + list(walk(hi)) if x.op == 'len' and unver(base(x.args[0])) is R]
        if not n:
            return item, None
        n = n[0]
        if num_val(st) == -1:
            if lo is sub(n, const(1)) and num_val(hi) == -1:
                return item, 'down'
            if num_val(sub(lo, n)) == -1 and num_val(hi) == 0 or num_val(sub(lo, n)) is not None:
                return item, 'part'
            return item, 'part' if num_val(sub(lo, n)) is not None and num_val(hi) is not None else None
        if num_val(st) == 1:
            if num_val(lo) == 0 and hi is n:
                # the place may be counted from the end
                here_ = [x for b in L.bodies for e in b.trace if isinstance(e, Ev) and e.kind == 'DelSlice' for x in walk(e.a[1]) if x.op in ('index', 'elem')]
                for x in here_:
                    if unver(x) in (item, mk('elem', R, here)):
                        return unver(x), 'up'
                return None, None
            return item, None
        return item, 'part' if num_val(st) is not None and abs(num_val(st)) > 1 else None
    rev = False
    while q.op in ('reversed', 'rev', 'copy'):
        rev = rev != (q.op != 'copy')
        q = base(q.args[0])
    if q.op == 'slice' and unver(base(q.args[0])) is R:
        if q.args[1] is NONE and q.args[2] is NONE and num_val(q.args[3]) == -1:
            return here, 'up' if rev else 'down'
        if q.args[1] is NONE and q.args[2] is NONE and q.args[3] is NONE:
            return here, 'down' if rev else 'up'
        return here, 'part' if all(x is NONE or num_val(x) is not None for x in q.args[1:4]) else None
    if unver(q) is R:
        return here, 'down' if rev else 'up'
    return here, None
