"""C12: the distances between writing and reading a storage.

The round of one instruction is read off the summary: which samples are taken, what each adds to the smallest, the largest,
the sum and the count, how the running distance moves, and in which order reads and writes of one instruction are seen.
"""
from ..terms import *
from ..prove import prove, inconsistent
from ..report import events, loops_of, understood, conj
from ..fold import flat_paths
from ..shape import *
from ..engine import Ev, LoopItem, Alt
from .c11 import table_of, fresh, ignore_of, method, seq_of, mentions_ignore

MOD = 'metadata.metadata_collector'


def run(ctx):
    ctx.part(distances)


def distances(ctx):
    f = ctx.func(MOD, 'MetadataCollector.collect')
    eng, sts = ctx.run(f)
    if sts is None:
        return ctx.unk('budget', 'MetadataCollector.collect')
    for s in sts:
        if s.exit[0] != 'return':
            continue
        R = Reading(ctx, s, f)
        if R.ok:
            R.check()


def writes_to(it, D):
    return any(ev.kind in ('SetItem', 'Inc', 'DelItem') and ev.a[0] is D for ev, ls in events([it]))


class Reading(object):
    def __init__(self, ctx, s, f):
        self.ctx, self.s, self.f, self.ok = ctx, s, f, False
        self.items = list(s.items())
        self.t = {}
        for p in ('min', 'max', 'mean'):
            self.t[p] = table_of(ctx, 'MetadataCollector', 'storage_%s_dist' % p, s)
            if self.t[p] is None:
                return ctx.unk('table', p)
            fresh(ctx, self.t[p], 'storage_%s_dist' % p, s, f)
        self.ok = self.mean() and self.rounds()

    # ------------------------------------------------------------ the mean from sum and count
    def mean(self):
        ctx, D = self.ctx, self.t['mean']
        evs = [(ev, ls) for ev, ls in events(self.items) if ev.a and ev.a[0] is D and ev.kind in ('SetItem', 'Inc')]
        if not evs:
            ctx.decide(None if any(ev.kind not in ('SetItem', 'Inc', 'SetAttr', 'NewObj', 'New', 'NewDict', 'NewList', 'Print', 'Append', 'Sort', 'Div', 'Index', 'Get') and any(isinstance(x, T) and has(x, D) for x in ev.a)
                               for ev, ls in events(self.items)) else False, 'mean', 'written', self.f.where(), 'the mean is never set')
            return False
        acc = set()
        for ev, ls in evs:
            k, v = ev.a[1], ev.a[2]
            if ev.kind != 'SetItem' or not ls or len(ls) != 1:
                ctx.unk('mean', 'written', ev.loc, 'set in another way')
                return False
            q = quotient(v)
            known = (self.t['min'], self.t['max'])
            cells = [c for c in [cell(y) for y in walk(v)] if c is not None]
            if q is None and cells and all(c[0] in known for c in cells):
                ctx.bad('mean', 'quotient', ev.loc, 'the mean is made of the extremes: %s' % show(v)[:100])
                return False
            if q is None:
                ctx.decide(False if v.op == 'floordiv' and part(v.args[0], k) and part(v.args[1], k) else None, 'mean', 'quotient', ev.loc, 'set to %s' % show(v)[:120])
                return False
            n, d = part(q[0], k), part(q[1], k)
            if n is None or d is None or n == d:
                ctx.unk('mean', 'quotient', ev.loc, 'set to %s' % show(v)[:120])
                return False
            acc.add((n, d))
            L, b = ls[0]
            ctx.decide(True if (L.seq is not None and (L.seq is n[0] or L.seq.op in ('keys', 'items', 'copy', 'perm') and L.seq.args[0] is n[0])) else None, 'mean', 'keys', L.loc, 'for the storages of %s' % (show(L.seq)[:80] if L.seq is not None else '?'))
            if b.kind == 'break':
                ctx.bad('mean', 'complete', L.loc, 'the means stop early')
        for L in {ls[0][0] for ev, ls in evs}:
            for b in L.bodies:
                if b.kind == 'next' and not inconsistent(tuple(b.facts)) and not any(ev.a and ev.a[0] is D for ev, _ in events(b.trace)):
                    ctx.decide(False if all(clear(x) for x in b.facts) else None, 'mean', 'complete', L.loc, 'no mean under %s' % conj(b.facts)[-160:])
        if len(acc) != 1:
            ctx.unk('mean', 'written', self.f.where(), 'several')
            return False
        (self.sum, self.cnt), = acc
        return True

    # ------------------------------------------------------------ the round
    def rounds(self):
        top = [it for it in loops_of(self.items)]
        outer = [it.loop for it in self.items if isinstance(it, LoopItem) and writes_to(it, self.t['min'])]
        if len(outer) != 1 or not outer[0].bodies:
            never = not outer and not any(ev.a and any(isinstance(x, T) and has(x, self.t['min']) for x in ev.a) and ev.kind not in ('NewDict', 'SetAttr', 'New', 'NewObj') for ev, ls in events(self.items))
            self.ctx.decide(False if never else None, 'round', 'loop', self.f.where(), 'the smallest distance is set in %d loops' % len(outer))
            return False
        self.L = outer[0]
        return True

    def check(self):
        ctx, L = self.ctx, self.L
        for b in L.bodies:
            if b.kind == 'break':
                ctx.bad('complete', 'instructions', L.loc, 'stops early under %s' % conj(b.facts)[:160])
        x = L.elem
        for b in L.bodies:
            if b.kind != 'next' or inconsistent(tuple(b.facts)):
                continue
            for p in flat_paths(b.trace) or []:
                fs = tuple(b.facts)
                for it in p:
                    if isinstance(it, Ev):
                        fs += tuple(q for q in it.facts if q not in fs)
                if inconsistent(fs):
                    continue
                self.round(p, fs, x)

    def round(self, p, fs, x):
        ctx, L = self.ctx, self.L
        samp = [n for n, it in enumerate(p) if isinstance(it, LoopItem) and writes_to(it, self.t['min'])]
        ign = ignore_of(fs, x)
        if ign is True:
            any_ = any(writes_to(it, D) for it in p for D in self.t.values())
            return ctx.decide(not any_, 'ignored', 'round', L.loc, 'an ignored instruction gives distances')
        if len(samp) != 1:
            return ctx.decide(False if not samp and ign is False and all(understood(q) for q in fs) and not self.loops_left(p) else None, 'sampled', 'round', L.loc, 'no distance is taken for an instruction under %s' % conj(fs)[-160:])
        if ign is None:
            ctx.decide(None if mentions_ignore(list(fs) + [L.elem]) else False, 'ignored', 'round', L.loc, 'ignored instructions give distances too')
        S = p[samp[0]].loop
        self.samples(S, x)
        if self.dist is None:
            return
        # the writes of the instruction
        wr = [n for n, it in enumerate(p) if isinstance(it, LoopItem) and n != samp[0] and (writes_to(it, self.defd) or writes_to(it, self.dist))]
        if len(wr) > 1 and any(n < samp[0] and method(seq_of(p[n].loop) or TRUE, 'storages_written') is x and any(ev.kind == 'SetItem' and ev.a[0] is self.defd and truth_of(ev.a[2]) for ev, ls in events([p[n]])) for n in wr):
            return ctx.bad('order', 'round', p[wr[0]].loop.loc, 'what an instruction writes is noted before what it reads is measured')
        if len(wr) != 1:
            return ctx.decide(False if not wr and all(understood(q) for q in fs) and not self.touched(p, samp[0]) else None, 'written', 'round', L.loc, 'writes of an instruction are not noted')
        W = p[wr[0]].loop
        src = seq_of(W)
        good = src is not None and method(src, 'storages_written') is x
        clearly = src is not None and method(src, 'storages_read') is x or src is not None and method(src, 'storages_used') is x
        ctx.decide(True if good else (False if clearly else None), 'written', 'storages', W.loc, 'over %s' % (show(src)[:100] if src is not None else '?'))
        ctx.decide(wr[0] > samp[0], 'order', 'round', W.loc, 'what an instruction writes is noted before what it reads is measured')
        for b in W.bodies:
            if b.kind == 'break':
                ctx.bad('written', 'complete', W.loc, 'stops early')
            if b.kind != 'next' or inconsistent(tuple(b.facts)):
                continue
            for q in flat_paths(b.trace) or []:
                fin = final(q)
                d1, z = fin.get((self.defd, W.elem)), fin.get((self.dist, W.elem))
                odd = [k for k in fin if k[0] in (self.defd, self.dist) and k[1] is not W.elem]
                if odd:
                    ctx.decide(False if all(clear(k[1]) for k in odd) else None, 'written', 'mark', W.loc, 'another storage is marked: %s' % show(odd[0][1])[:60])
                    continue
                g = all(understood(y) for y in b.facts)
                ctx.decide(True if d1 is not None and truth_of(d1) is True else (False if (d1 is None and g) or (d1 is not None and truth_of(d1) is False) else None), 'written', 'mark', W.loc, 'marked %s' % (show(d1) if d1 is not None else 'nothing'))
                if z is None:
                    # fine when the distance is zero whenever nothing is marked; a second write while marked restarts it
                    ctx.decide(False if g else None, 'written', 'restart', W.loc, 'the distance does not start again at a write under %s' % conj(b.facts)[-120:])
                else:
                    ctx.decide(True if num_val(z) == 0 else (False if num_val(z) is not None else None), 'written', 'restart', W.loc, 'the distance restarts at %s' % show(z)[:60])

    def loops_left(self, p):
        return False

    def touched(self, p, n):
        return any(ev.a and isinstance(ev.a[0], T) and ev.a[0] in (self.defd, self.dist) and ev.kind not in ('Index', 'Read') for i, it in enumerate(p) if i != n for ev, ls in events([it]))

    # ------------------------------------------------------------ one storage
    def samples(self, S, x):
        ctx = self.ctx
        self.dist = self.defd = None
        s = S.elem
        full = S.seq is not None and S.seq.op == 'range' and num_val(S.seq.args[0]) == 0 and num_val(S.seq.args[2]) == 1
        if full:
            hi = S.seq.args[1]
            h = has_names(hi)
            n = names_count(ctx)
            if h is None and n is not None and num_val(hi) is not None:
                h = num_val(hi) - n
                h = h if h >= 0 else None if num_val(hi) >= 18 else h
            ctx.decide(True if h == 0 else (None if h is None else h >= 0), 'storages', 'range', S.loc, 'storages up to %s' % show(hi)[:60])
        elif S.seq is not None and S.seq.op == 'range':
            ctx.decide(False if num_val(S.seq.args[0]) is not None and num_val(S.seq.args[0]) > 0 else None, 'storages', 'range', S.loc, 'storages %s' % show(S.seq)[:80])
        elif S.seq is not None and method(seq_of(S), 'storages_read') is x:
            return ctx.unk('storages', 'range', S.loc, 'only the storages read')
        else:
            return ctx.unk('storages', 'range', S.loc, 'storages %s' % (show(S.seq)[:80] if S.seq is not None else '?'))
        for b in S.bodies:
            if b.kind == 'break':
                ctx.bad('complete', 'storages', S.loc, 'stops early under %s' % conj(b.facts)[:160])
        paths = []
        for b in S.bodies:
            if b.kind != 'next' or inconsistent(tuple(b.facts)):
                continue
            for q in flat_paths(b.trace) or []:
                fs = tuple(b.facts)
                for it in q:
                    if isinstance(it, Ev):
                        fs += tuple(g for g in it.facts if g not in fs)
                if inconsistent(fs):
                    continue
                if any(isinstance(it, LoopItem) for it in q):
                    ctx.unk('sample', 'loop', S.loc, 'a loop in the round of a storage')
                    return
                paths.append((fs, final(q)))
        # the sampled value
        ds = set()
        for fs, fin in paths:
            d = self.sample(fin, s)
            if d is not None:
                ds.add(cell(d))
        if len(ds) != 1 or None in ds or next(iter(ds))[1] is not s:
            ctx.decide(None, 'sample', 'value', S.loc, 'samples %s' % ', '.join(show(d[0])[:60] if d else '?' for d in ds))
            return
        dist = next(iter(ds))[0]
        # the mark under which samples are taken
        marks = None
        for fs, fin in paths:
            if self.sample(fin, s) is None:
                continue
            m = {c[0] for g in fs if g.op == 'truth' for c in [cell(g.args[0])] if c is not None and c[1] is s and c[0] not in (dist,) + tuple(self.t.values())}
            marks = m if marks is None else marks & m
        if not marks or len(marks) != 1:
            ctx.unk('sample', 'mark', S.loc, 'samples are not taken under one mark')
            return
        self.dist, self.defd = dist, next(iter(marks))
        for fs, fin in paths:
            self.storage(S, x, s, fs, fin)

    def sample(self, fin, s):
        """value added to the sum on this path"""
        v = fin.get((self.sum[0], s))
        if v is None:
            return None
        v = comp(v, self.sum[1])
        if v is None:
            return None
        old = [y for y in walk(v) if part(y, s) == self.sum]
        if old:
            return shift_form(v, old[0]) if len(old) == 1 else None
        return v

    def storage(self, S, x, s, fs, fin):
        ctx = self.ctx
        dist, defd = self.dist, self.defd
        for k in fin:
            if k[1] is not s and k[0] in (dist, defd, self.sum[0], self.cnt[0]) + tuple(self.t.values()):
                return ctx.decide(False if clear(k[1]) else None, 'sample', 'storage', S.loc, 'the entry of %s is changed' % show(k[1])[:60])
        mark = next((f.op != 'not' for f in fs for g in [f.args[0] if f.op == 'not' else f] if g.op == 'truth' and cell(g.args[0]) == (defd, s)), None)
        read = next((f.op != 'not' for f in fs for g in [f.args[0] if f.op == 'not' else f] if g.op == 'in' and g.args[0] is s and method(g.args[1], 'storages_read') is x), None)
        d = self.sample(fin, s)
        cnt = fin.get((self.cnt[0], s))
        cnt = comp(cnt, self.cnt[1]) if cnt is not None else None
        touched = [p for p in ('min', 'max') if (self.t[p], s) in fin]
        dv = fin.get((dist, s))
        g = all(understood(q) for q in fs)
        where = S.loc
        if d is None and cnt is None and not touched:
            if mark is False:
                mk_ = fin.get((defd, s))
                ctx.decide(True if mk_ is None or truth_of(mk_) is False else (False if truth_of(mk_) is True else None), 'idle', 'mark', where, 'marked as written without a write')
                return
            if mark is True and read is False:
                o = offset(dv, dist, s)
                if dv is not None and dv.op == 'min' and any(num_val(y) is not None for y in dv.args):
                    ctx.bad('step', 'distance', where, 'the distance stops growing: %s' % show(dv)[:80])
                    return
                ctx.decide(True if o == 1 else (False if o is not None or dv is None and g else None), 'step', 'distance', where, 'the distance grows by %s over an instruction that does not read the storage' % (o if o is not None else show(dv)[:60] if dv is not None else 'nothing'))
                m = fin.get((defd, s))
                ctx.decide(True if m is None or truth_of(m) is True else (False if truth_of(m) is False else None), 'step', 'mark', where, 'the mark is dropped without a read')
                return
            if mark is True and read is True:
                return ctx.decide(False if g else None, 'sampled', 'storage', where, 'a read of a written storage gives no distance under %s' % conj(fs)[-160:])
            # neither condition tested on this path
            return ctx.decide(None, 'sampled', 'storage', where, 'nothing done under %s' % conj(fs)[-160:])
        # a sample
        if mark is not True:
            ctx.decide(False if mark is False else None, 'sample', 'when', where, 'a distance is taken for a storage never written')
        if read is not True:
            other = [q for q in fs if q.op == 'in' and q.args[0] is s and (method(q.args[1], 'storages_written') is x or method(q.args[1], 'storages_used') is x)]
            ctx.decide(False if read is False or other else None, 'sample', 'when', where, 'a distance is taken at an instruction that does not read the storage')
        if mark is True and read is True:
            ctx.ok('sample', 'when', where, 'written before and read now')
        if d is None or cnt is None:
            return ctx.decide(False if g else None, 'sample', 'together', where, 'the sample does not reach sum and count')
        first = None
        for q in fs:
            h = q.args[0] if q.op == 'not' else q
            if h.op == 'in' and h.args[0] is s and h.args[1] in (self.sum[0], self.cnt[0]) and not (len(h.args) > 2 and h.args[2].op == 'mut'):
                first = q.op == 'not'
        ctx.decide(True if cell(d) == (dist, s) else None, 'sample', 'value', where, 'sampled %s' % show(d)[:80])
        n = shift_count(cnt, self.cnt, s)
        if first is None:
            return ctx.unk('sample', 'first', where, 'first sample told in another way')
        if first:
            ctx.decide(True if num_val(cnt) == 1 else (False if num_val(cnt) is not None else None), 'sample', 'count', where, 'first count %s' % show(cnt)[:60])
            v = fin.get((self.sum[0], s))
            for p in ('min', 'max'):
                w = fin.get((self.t[p], s))
                ctx.decide(True if w is d else (False if w is None or clear(w) else None), 'sample', 'first-' + p, where, 'first %s is %s' % (p, show(w)[:80] if w is not None else 'not set'))
        else:
            ctx.decide(True if n == 1 else (False if n is not None or num_val(cnt) is not None else None), 'sample', 'count', where, 'counts %s' % show(cnt)[:60])
            if not any(part(y, s) == self.sum for y in walk(comp(fin.get((self.sum[0], s)), self.sum[1]))):
                ctx.bad('sample', 'sum', where, 'the sum starts again')
            for p in ('min', 'max'):
                self.extreme(p, fin.get((self.t[p], s)), d, s, fs, where)
        m = fin.get((defd, s))
        if m is not None and m.op in ('eq0', 'ge0', 'gt0', 'not') and has(m, s) and all(y is s or y.op in ('eq0', 'ge0', 'gt0', 'not', 'poly', 'num', 'const', 'range') for y in walk(subst(m, {s: const(0)}))):
            # kept for some storages only
            m = FALSE if prove(fs, neg_lit(m)) else TRUE
        ctx.decide(True if m is not None and truth_of(m) is False else (False if (m is None and g) or (m is not None and truth_of(m) is True) else None), 'sample', 'once', where, 'a write is sampled at every later read')

    def extreme(self, p, w, d, s, fs, where):
        ctx = self.ctx
        old = next((y for q in fs for y in walk(q) if cell(y) == (self.t[p], s)), None)
        if w is not None and w.op in ('min', 'max') and len(w.args) == 2:
            o = [a for a in w.args if cell(a) == (self.t[p], s)]
            e = [a for a in w.args if a is d]
            return ctx.decide(w.op == p if o and e else None, 'sample', p, where, 'becomes %s' % show(w)[:80])
        if w is None or cell(w) == (self.t[p], s):
            q = 'max' if p == 'min' else 'min'
            other = next((y for g in fs for y in walk(g) if cell(y) == (self.t[q], s)), None)
            if other is not None and prove(fs, cmp_ge(sub(other, d)) if p == 'max' else cmp_ge(sub(d, other))):
                return ctx.ok('sample', p, where, 'on the other side of the range')
            if old is None and w is not None:
                old = w
            if old is None:
                g = all(understood(q) for q in fs)
                return ctx.decide(False if g else None, 'sample', p, where, 'not compared with the sample under %s' % conj(fs)[-120:])
            lit = cmp_ge(sub(d, old)) if p == 'min' else cmp_ge(sub(old, d))
            return ctx.decide(True if prove(fs, lit) else (False if all(understood(q) for q in fs) else None), 'sample', p, where, 'kept under %s' % conj([q for q in fs if has(q, self.t[p])])[-160:])
        if w is d:
            if old is None:
                return ctx.decide(False if all(understood(q) for q in fs) else None, 'sample', p, where, 'replaced whatever it was')
            lit = cmp_ge(sub(old, d)) if p == 'min' else cmp_ge(sub(d, old))
            return ctx.decide(True if prove(fs, lit) else (False if all(understood(q) for q in fs) else None), 'sample', p, where, 'replaced under %s' % conj([q for q in fs if has(q, self.t[p])])[-160:])
        ctx.decide(False if clear(w) and not has_op(w, 'min', 'max') else None, 'sample', p, where, 'becomes %s' % show(w)[:80])


def final(path):
    """{(container, key): value} left by a straight path"""
    out = {}
    for it in path:
        if isinstance(it, Ev) and it.kind == 'SetItem' and len(it.a) >= 3:
            out[(it.a[0], it.a[1])] = it.a[2]
        elif isinstance(it, Ev) and it.kind == 'Inc':
            k = (it.a[0], it.a[1])
            out[k] = add(out[k], it.a[2]) if k in out else mk('inc', *it.a[:3])
        elif isinstance(it, Ev) and it.kind in ('DelItem', 'Pop') and len(it.a) >= 2:
            out[(it.a[0], it.a[1])] = mk('unk', 'removed')
    return out


def cell(t):
    if t is not None and t.op == 'index' and len(t.args) >= 2:
        return t.args[0], t.args[1]
    return None


def part(t, k):
    """(container, component) when t is container[k] or container[k][i]"""
    c = cell(t)
    if c is None:
        return None
    if c[1] is k:
        return c[0], None
    c2 = cell(c[0])
    if c2 is not None and c2[1] is k and num_val(c[1]) is not None:
        return c2[0], int(num_val(c[1]))
    return None


def comp(v, i):
    if i is None:
        return v
    if v.op in ('tuple', 'seq', 'lit') and len(v.args) > i and isinstance(v.args[i], T):
        return v.args[i]
    return None


def quotient(v):
    if v.op in ('div', 'truediv') and len(v.args) == 2:
        return v.args
    if v.op == 'poly':
        ms = [(m, c) for m, c in v.args]
        if len(ms) == 1 and ms[0][1] == 1:
            m = ms[0][0]
            for a, e in m:
                if a.op in ('inv', 'recip') and e == 1:
                    rest = poly({tuple((x, n) for x, n in m if x is not a): 1})
                    return rest, a.args[0]
                if e == -1:
                    rest = poly({tuple((x, n) for x, n in m if x is not a): 1})
                    return rest, a
    return None


def truth_of(t):
    v = t.args[0] if t.op == 'const' else None
    if isinstance(v, (bool, int)):
        return bool(v)
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    return None


def offset(v, D, s):
    if v is None:
        return None
    if v.op == 'inc':
        return num_val(v.args[2])
    for y in walk(v):
        if cell(y) == (D, s):
            o = shift_form(v, y)
            return num_val(o) if o is not None else None
    return None


def shift_count(v, cnt, s):
    if v.op == 'inc':
        return num_val(v.args[2])
    for y in walk(v):
        if part(y, s) == cnt:
            o = shift_form(v, y)
            return num_val(o) if o is not None else None
    return None


def names_count(ctx):
    """the number of storage names, from the class body"""
    import ast
    c = next((n for m in ctx.prog.mods.values() for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef) and n.name == 'AReg'), None)
    if c is None:
        return None
    env, n = {}, None
    for st in c.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            k, v = st.targets[0].id, st.value
            if isinstance(v, ast.Constant):
                env[k] = v.value
            if k == 'STORAGE_NAMES':
                if isinstance(v, ast.List):
                    n = len(v.elts)
                elif isinstance(v, ast.ListComp) and len(v.generators) == 1 and not v.generators[0].ifs and isinstance(v.generators[0].iter, ast.Call) and getattr(v.generators[0].iter.func, 'id', '') == 'range':
                    a = [x.value if isinstance(x, ast.Constant) else env.get(getattr(x, 'id', '')) for x in v.generators[0].iter.args]
                    if len(a) > 2 or not all(isinstance(x, int) for x in a):
                        return None
                    n = a[0] if len(a) == 1 else a[1] - a[0]
                else:
                    return None
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and getattr(st.value.func.value, 'id', '') == 'STORAGE_NAMES':
            if st.value.func.attr == 'extend' and isinstance(st.value.args[0], ast.List) and n is not None:
                n += len(st.value.args[0].elts)
            elif st.value.func.attr == 'append' and n is not None:
                n += 1
            else:
                return None
    return n


def has_names(t):
    """offset of t from the number of storage names; None when it is something else"""
    for y in walk(t):
        if y.op == 'len' and any(z.op in ('unbound', 'attr', 'const', 'global') and 'STORAGE_NAMES' in str(z.args) for z in walk(y)):
            o = shift_form(t, y)
            return num_val(o) if o is not None else None
    return None
