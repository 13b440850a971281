"""C41: the progress bar moves one step at a time, is always as wide as it was made, and closes once.

Every path of a call of progress is placed in one of the situations of the specification by its facts
(already closed, within the printing distance of the end, the percentage has grown enough, or not);
what it writes and the values it leaves in the counters are compared with those of the situation.
"""
from ..terms import *
from ..report import understood, events
from ..engine import Ev, LoopItem, Alt
from ..prove import prove, inconsistent
from .c39 import unver, plain

S = mk('sym', 'self')

FIELDS = ('iteration', '_total', '_print_dist', '_prev_percent', '_bar_length')


def run(ctx):
    ctx.part(made)
    ctx.part(moves)


def at(n):
    return mk('attr', S, n)


def made(ctx):
    fi = ctx.func('report.print_progress', 'TextProgressBar.__init__')
    ps = [a.arg for a in fi.node.args.args]
    eng, sts = ctx.run(fi, opaque_classes=())
    for s in sts or []:
        if s.exit[0] != 'return':
            continue
        for f, p in (('iteration', 'iteration'), ('_total', 'total'), ('_bar_length', 'bar_length'), ('_print_dist', 'print_dist')):
            v = s.heap.get((S, f))
            if p not in ps:
                ctx.unk('made', 'TextProgressBar.' + p, fi.where(), 'no such parameter')
                continue
            ctx.decide(True if v is mk('sym', p) else False if v is not None and (num_val(v) is not None or v.op == 'sym' or v.op == 'poly' and understood(v)) else None, 'made', 'TextProgressBar.' + p, fi.where(), show(v)[:60] if v is not None else 'not kept')
        v = s.heap.get((S, '_prev_percent'))
        ctx.decide(True if v is NONE else False if v is not None and num_val(v) is not None else None, 'made', 'TextProgressBar', fi.where(), 'nothing has been drawn yet')


def moves(ctx):
    fi = ctx.func('report.print_progress', 'TextProgressBar.progress')
    C = 'progress'
    eng, sts = ctx.run(fi, opaque_classes=(), limit=120)
    if sts is None:
        return ctx.unk('moves', C, fi.where(), 'not analysed')
    it, tot, dist, prev, bl = at('iteration'), at('_total'), at('_print_dist'), at('_prev_percent'), at('_bar_length')
    none = mk('isnone', prev)
    pc = mul(const(100), mul(it, power(tot)))
    for s in sts:
        fs = tuple(s.facts)
        if inconsistent(fs):
            continue
        if s.exit[0] != 'return':
            ctx.decide(False if plain(fs) else None, 'moves', C, fi.where(), 'fails with %s' % show(s.exit[1])[:60])
            continue
        if any(isinstance(x, (LoopItem, Alt)) for x in s.items()):
            ctx.unk('moves', C, fi.where(), 'a loop or branch that is not followed')
            continue
        evs = [e for e in s.items() if isinstance(e, Ev)]
        wr = [e for e in evs if e.kind == 'Print' or e.kind in ('Call', 'CallUnknown', 'MCall') and isinstance(e.a[0], str) and e.a[0].endswith('stdout.write') or e.kind == 'MCall' and 'write' in e.a[1:2]]
        odd = any(e.kind in ('CallUnknown', 'Print', 'MCall') for e in evs)
        it2 = s.heap.get((S, 'iteration'), it)
        pv2 = s.heap.get((S, '_prev_percent'), prev)
        at_end = prove(fs, cmp_eq(it, tot))
        not_end = prove(fs, neg_lit(cmp_eq(it, tot))) or neg_lit(cmp_eq(it, tot)) in fs or neg_lit(cmp_eq(tot, it)) in fs or prove(fs, cmp_gt(sub(tot, it)))
        started, fresh = neg_lit(none) in fs, none in fs
        near = prove(fs, cmp_ge(sub(add(it, dist), tot)))
        far = prove(fs, cmp_ge(sub(sub(tot, add(it, dist)), const(1)))) or prove(fs, cmp_gt(sub(tot, add(it, dist))))
        grown = prove(fs, cmp_ge(sub(sub(pc, prev), dist)))
        small = cmp_ge(sub(sub(add(prev, dist), pc), const(1))) in fs or prove(fs, cmp_gt(sub(add(prev, dist), pc)))
        simple = plain(fs) and not odd and all(x.args[1] in FIELDS for f in fs for x in walk(f) if x.op == 'attr' and x.args[0] is S)
        no = False if simple else None
        for e in wr:
            width(ctx, C, e, bl)
        full = [e for e in wr if whole(e, bl)]
        feeds = sum(x.count('\n') for e in wr for x in walk_all(e) if isinstance(x, str))
        bars = [e for e in wr if cells(e) is not None]
        if started and at_end:
            ctx.decide(True if not wr and it2 is it else no, 'closed once', C, fi.where(), 'nothing more once it is closed')
            continue
        if near:
            if not fresh and not not_end:
                ctx.decide(no if wr else None, 'closed once', C, fi.where(), 'closed again after the end was reached')
                continue
            ctx.decide(True if it2 is tot or prove(fs, cmp_eq(it2, tot)) else False if simple and understood(it2) else None, 'closes', C, fi.where(), 'the count is left at %s' % show(it2)[:60])
            ctx.decide(True if pv2 is not NONE and pv2 is not prev else None if pv2 is prev and started else no, 'closes', C, fi.where(), 'remembers it was drawn')
            ctx.decide(True if full and feeds == 1 else no if simple and (not bars or feeds != 1 or len(bars) == 1 and wrong(bars[0], bl)) else None, 'closes', C, fi.where(), 'a full bar and %d line feeds' % feeds)
            continue
        if not far:
            if prove_neither(fs, it, dist, tot):
                ctx.decide(no, 'moves', C, fi.where(), 'the same near the end and far from it: %s' % ' and '.join(map(show, fs))[:160])
            else:
                ctx.unk('moves', C, fi.where(), 'near the end or not: %s' % ' and '.join(map(show, fs))[:160])
            continue
        step = sub(it2, it)
        shut = it2 is tot or prove(fs, cmp_eq(it2, tot))
        last = prove(fs, cmp_ge(sub(add(add(it, const(1)), dist), tot)))
        ctx.decide(True if num_val(step) == 1 or shut and last else False if simple and understood(step) else None, 'one step', C, fi.where(), 'the count becomes %s' % show(it2)[:60])
        if fresh or grown:
            ctx.decide(True if bars else no if not wr else None, 'drawn', C, fi.where(), 'a bar is drawn')
            want = pc if pv2.op != 'const' else None
            ctx.decide(True if pv2 is pc or shut and pv2 is not NONE and pv2 is not prev else False if simple and (pv2 is prev or pv2 is NONE or understood(pv2)) else None, 'drawn', C, fi.where(), 'the percentage drawn is kept: %s' % show(pv2)[:60])
            ctx.decide(True if feeds == (1 if shut else 0) else no, 'closes', C, fi.where(), '%d line feeds' % feeds)
        elif small:
            ctx.decide(True if not wr and pv2 is prev else no, 'drawn', C, fi.where(), 'nothing is drawn before the percentage has grown enough')
        else:
            both = not inconsistent(fs + (cmp_ge(sub(sub(pc, prev), dist)),)) and not inconsistent(fs + (cmp_ge(sub(sub(add(prev, dist), pc), const(1))),))
            lin = simple and all(x.op not in ('call', 'mcall', 'index', 'elem', 'int', 'floordiv', 'mod') for f in fs for x in walk(f))
            ctx.decide(False if both and lin else None, 'drawn', C, fi.where(), 'whether the percentage has grown: %s' % ' and '.join(map(show, fs))[:160])


def power(t):
    return div(const(1), t)


def prove_neither(fs, it, dist, tot):
    return not inconsistent(fs + (cmp_ge(sub(add(it, dist), tot)),)) and not inconsistent(fs + (cmp_ge(sub(sub(tot, add(it, dist)), const(1))),))


def walk_all(e):
    out = []
    for a in e.a[1:]:
        for x in (a if isinstance(a, tuple) else (a,)):
            if isinstance(x, T):
                for y in walk(x):
                    out.append(y)
                    out.extend(z for z in y.args if isinstance(z, str)) if y.op in ('const', 'str', 'tuple') else None
            else:
                out.append(x)
    return out


def text(x):
    if isinstance(x, str):
        return x
    if isinstance(x, T) and x.op == 'const' and isinstance(x.args[0], str):
        return x.args[0]
    return None


def cells(e):
    """how many cells the bar written has: a term, or None when there is none"""
    tot = None
    for x in walk_all(e):
        if isinstance(x, T) and x.op == 'str' and len(x.args) == 2:
            a, b = x.args
            if text(b) is not None and text(a) is None:
                a, b = b, a
            if text(a) is not None and len(text(a)) == 1 and isinstance(b, T) and text(b) is None and b.op in ('poly', 'attr', 'call', 'const', 'max', 'min', 'floordiv', 'int', 'mcall'):
                tot = b if tot is None else add(tot, b)
    return tot


def width(ctx, C, e, bl):
    n = cells(e)
    if n is None:
        return
    if any(isinstance(x, T) and any(isinstance(y, str) and y in ('ljust', 'rjust', 'center', 'zfill') for y in x.args) or isinstance(x, str) and x in ('ljust', 'rjust', 'center') for x in walk_all(e)):
        return ctx.unk('width', C, e.loc, 'the text is built by another call')
    ctx.decide(True if n is bl else False if all(x.op in ('poly', 'attr', 'sym', 'const', 'call', 'builtin') for x in walk(n)) else None, 'width', C, e.loc, 'a bar of %s cells' % show(n)[:100])


def whole(e, bl):
    """a bar all of which is filled, with 100 beside it"""
    n = cells(e)
    if n is not bl:
        return False
    one = [x for x in walk_all(e) if isinstance(x, T) and x.op == 'str' and len(x.args) == 2 and any(isinstance(a, str) and len(a) == 1 or text(a) is not None and len(text(a)) == 1 for a in x.args)]
    return any(bl in [a for a in x.args if isinstance(a, T)] for x in one) and any(isinstance(x, T) and num_val(x) == 100 or isinstance(x, str) and '100' in x for x in walk_all(e))


def wrong(e, bl):
    """the bar written for the end is not full, or another percentage than 100 is beside it"""
    ws = walk_all(e)
    ns = [num_val(x) for x in ws if isinstance(x, T) and num_val(x) is not None]
    return cells(e) is bl and not any('100' in x for x in ws if isinstance(x, str)) and 100 not in ns and any(n > 1 for n in ns) and not any(isinstance(x, T) and x.op in ('call', 'mcall') for x in ws)
