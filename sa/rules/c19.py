"""C19: elimination drops exactly the candidates that are ruled out by their own score or by a certain one at the same address."""
from ..terms import *
from ..prove import prove, inconsistent
from ..report import conj
from ..engine import LoopItem, Ev
from ..fold import loop_index
from ..trans import at_init, at_next
from ..shape import *

MOD = '=recover_program'
CHANGES = ('Append', 'CallUnknown', 'DelItem', 'Extend', 'Insert', 'Next', 'Pop', 'Remove', 'SetAttr', 'SetItem', 'SetSlice', 'Sort', 'Update', 'Clear',
           'Reverse')
NAME = 'remove_bad_candidates_at_addr'


def run(ctx):
    ctx.part(elimination)


def score_of(t):
    """the score of the candidate at an index: (list, index, version)"""
    if t.op == 'mcall' and t.args[1] == 'score' and t.args[0].op == 'index':
        return t.args[0]
    return None


class Scan(object):
    """a loop that walks the list by an index it carries and pops some of the elements"""

    def __init__(self, eng, L, V, before):
        self.eng, self.L, self.V, self.ok = eng, L, V, False
        self.ver = L.hav.get(('ver', V))
        self.before = before
        self.scores = set()
        for b in L.bodies:
            for q in b.facts:
                for x in walk(q):
                    e = score_of(x)
                    if e is not None:
                        self.scores.add(x)
        if len(self.scores) != 1:
            return
        self.x = list(self.scores)[0]
        self.e = score_of(self.x)
        if self.e.args[0] is not V:
            return
        self.i = self.e.args[1]
        self.ok = True

    def counters(self):
        """carried values that start at 0 and only grow by constants: {hav: [(body, amount)]}"""
        out = {}
        for k, hv in self.L.hav.items():
            if hv is None or hv.op != 'hav' or k[0] != 'env' or hv is self.i:
                continue
            steps = []
            for b in self.L.bodies:
                v = self.eng.get_key(b.state, k)
                d = const_of(sub(v, hv)) if v is not None else None
                if d is None or d < 0:
                    break
                steps.append((b, d))
            else:
                init = at_init(self.eng, self.L, hv)
                if const_of(init) == 0:
                    out[hv] = steps
        return out


def const_of(t):
    return num_val(t) if t is not None and is_num(t) else None


def can(fs, *extra):
    return not inconsistent(tuple(fs) + extra)


def elimination(ctx):
    f = ctx.func(MOD, NAME)
    eng, sts = ctx.run(f, limit=60)
    if not sts:
        return ctx.unk('budget', NAME)
    params = [a.arg for a in f.node.args.args]
    if len(params) != 1:
        return ctx.unk('shape', NAME, f.where(), 'parameters %s' % ', '.join(params))
    V = mk('sym', params[0])
    for s in sts:
        if inconsistent(tuple(s.facts)):
            continue
        state(ctx, f, eng, s, V)


def state(ctx, f, eng, s, V):
    if s.exit[0] != 'return':
        return ctx.unk('exit', NAME, f.where(), 'ends with %s' % s.exit[0])
    loops = []
    for it in s.items():
        if isinstance(it, LoopItem):
            loops.append(it)
        elif isinstance(it, Ev) and it.kind in CHANGES and any(a is V for a in it.a):
            return ctx.unk('shape', NAME, it.loc, 'the list is changed by %s outside a scan' % it.kind)
    if not loops:
        ls = set(x for q in s.facts for x in walk(q) if x.op == 'len' and x.args[0] is V)
        plain = all(set(pd(q.args[0] if q.op != 'not' else q.args[0].args[0])) <= {(), ((y, 1),)} for q in s.facts for y in ls) if len(ls) == 1 and all(
            (q.args[0] if q.op == 'not' else q).op in ('ge0', 'gt0', 'eq0') for q in s.facts) else not s.facts
        some = not inconsistent(tuple(s.facts) + tuple(cmp_ge(sub(y, const(1))) for y in ls))
        return ctx.decide(True if ls and plain and not some else False if plain and some else None, 'scan', NAME, f.where(), 'no candidate is looked at under %s' % conj(s.facts)[:80])
    # what is known about the classes of candidates as the scans go
    ones = {}        # counter at the end of its scan -> (at least one certain candidate was seen whenever it is positive)
    mids = {}        # counter that is positive whenever a candidate between was met
    zero_left, mid_left = True, True
    prev = None
    for it in loops:
        L = it.loop
        w = L.loc
        if it.body is not None:
            return ctx.unk('scan', NAME, w, 'the scan ends early')
        sc = Scan(eng, L, V, prev)
        if not sc.ok:
            if idle(L) and not any(mentions_out(q, L.lid) for q in after(loops, it, s)):
                continue                      # changes nothing and nothing depends on it
            return ctx.unk('scan', NAME, w, 'not an indexed scan of the list')
        x, i = sc.x, sc.i
        ONE = eq(x, const(1))
        lo, hi = ge(x, const(0)), ge(const(1), x)
        rng = (lo, hi)
        below = (lo, gt(const(1), x))
        mid = (gt(x, const(0)), gt(const(1), x))
        cs = sc.counters()
        isone, ismid = {}, {}
        for hv, steps in cs.items():
            up = [b for b, d in steps if d > 0]
            # it grows for certain candidates only, and for all of them
            if up and all(not can(b.facts, *below) for b in up) and all(d > 0 or not can(b.facts, ONE) for b, d in steps):
                isone[hv] = True
            if up and all(d > 0 or not can(b.facts, *mid) for b, d in steps):
                ismid[hv] = True
        ctx.decide(same(at_init(eng, L, i), const(0)), 'start', NAME, w, 'the scan starts at index %s' % show(at_init(eng, L, i)))
        keeps = []
        for b in L.bodies:
            if inconsistent(tuple(b.facts)):
                continue
            if b.kind != 'next':
                ctx.unk('scan', NAME, w, 'an iteration ends with %s' % b.kind)
                continue
            pops = [e for e in b.trace if isinstance(e, Ev) and e.kind in ('Pop', 'DelItem')]
            other = [e for e in b.trace if not isinstance(e, Ev) or e.kind in CHANGES and e.kind not in ('Pop', 'DelItem')]
            if other:
                ctx.unk('scan', NAME, w, 'an iteration does more than look and pop')
                continue
            own = tuple(b.facts)
            fs = own + tuple(s.facts)
            seen = [hv for hv in isone if prove(fs, ge(hv, const(1))) is True] + \
                   [o for o in ones if prove(fs, ge(o, const(1))) is True]
            clearly = all(about(q, sc, cs, ones, mids) for q in own)
            nxt = eng.get_key(b.state, key_of(L, i)) if key_of(L, i) else None
            where = pops[0].loc if pops else w
            ctx.decide(True if len(pops) < 2 else None, 'pop', NAME, where, 'an iteration pops %d' % len(pops))
            if pops:
                ctx.decide(False if is_num(pops[0].a[1]) or pops[0].a[1].op == 'len' else same(pops[0].a[1], i), 'pop', NAME, where, 'pops index %s having looked at the score at %s' % (show(pops[0].a[1]), show(i)))
                ctx.decide(same(nxt, i), 'advance', NAME, where, 'after a removal the scan goes on at %s' % show(nxt))
                okzero = not can(fs, gt(x, const(0)), ge(const(1), x))
                sub1 = not can(fs, ONE)
                good = okzero or (sub1 and bool(seen))
                ctx.decide(True if good else (False if clearly else None), 'removed', NAME, where,
                           'a candidate is removed under %s%s' % (conj(fs)[-220:], '' if not sub1 else ', with no certain candidate known'))
            else:
                ctx.decide(False if nxt is not None and num_val(nxt) is not None else same(nxt, add(i, const(1))), 'advance', NAME, where, 'after keeping a candidate the scan goes on at %s' % show(nxt))
                keeps.append((b, clearly))
        # what survives this scan
        if all(not can(b.facts, eq(x, const(0))) for b, _ in keeps):
            zero_left = False
        if mid_left:
            sure = [o for o in ones]
            left = False
            for b, _ in keeps:
                if can(b.facts, *mid):
                    # left only when no certain candidate is anywhere in the list
                    if not any(prove(tuple(b.facts), ge(const(0), o)) is True for o in sure):
                        left = True
            mid_left = left
        for hv in isone:
            o = out_of(eng, L, hv)
            if o is not None:
                ones[o] = True
        for hv in ismid:
            o = out_of(eng, L, hv)
            if o is not None:
                mids[o] = True
        prev = sc
    fs = tuple(s.facts)
    if mid_left and any(prove(fs, ge(const(0), m)) is True for m in mids):
        mid_left = False          # none was met
    if mid_left and any(prove(fs, ge(const(0), o)) is True for o in ones):
        mid_left = False          # no certain candidate
    known = not any(has_op(q, 'fresh', 'call') for q in fs)
    ctx.decide(True if not zero_left else (False if known else None), 'complete', NAME, f.where(), 'a candidate with score 0 can stay')
    ctx.decide(True if not mid_left else (False if known else None), 'complete', NAME, f.where(),
               'a candidate below 1 can stay next to a certain one under %s' % conj(fs)[-200:])
    last = ([o for o in loops if Scan(eng, o.loop, V, None).ok] or loops)[-1].loop
    end = mk('len', V, mk('out', last.lid, ('ver', V)))
    for it in loops:
        L, sc = it.loop, Scan(eng, it.loop, V, None)
        if not sc.ok:
            continue
        o = out_of(eng, L, sc.i)
        want = ge(o, mk('len', V, mk('out', L.lid, ('ver', V)))) if o is not None else None
        ctx.decide(True if want is not None and prove(fs, want) is True else (None if want is None else False), 'end', NAME, L.loc,
                   'the scan can end before the end of the list')
    want = sub(mk('len', V, mk('v0')), end)
    got = s.exit[1]
    good = True if got is want else None
    if good is None and not has_op(got, 'fresh', 'call', 'mcall', 'agg'):
        good = False
    ctx.decide(good, 'number', NAME, f.where(), 'returns %s for the number removed' % show(got)[:160])


def ge(a, b):
    return cmp_ge(sub(a, b))


def gt(a, b):
    return cmp_gt(sub(a, b))


def eq(a, b):
    return cmp_eq(a, b)


def key_of(L, hv):
    return next((k for k, v in L.hav.items() if v is hv), None)


def out_of(eng, L, hv):
    k = key_of(L, hv)
    return mk('out', L.lid, eng.key_name(k)) if k is not None else None


def idle(L):
    return all(isinstance(t, LoopItem) and idle(t.loop) or isinstance(t, Ev) and t.kind not in CHANGES and t.kind not in ('SetAttr', 'SetItem', 'Append', 'CallUnknown')
               for b in L.bodies for t in b.trace) and all(b.kind == 'next' for b in L.bodies)


def after(loops, it, s):
    out = list(s.facts)
    for o in loops[loops.index(it) + 1:]:
        for b in o.loop.bodies:
            out += list(b.facts)
    return out


def mentions_out(q, lid):
    return any(x.op in ('out', 'after') and x.args[0] == lid and not isinstance(x.args[1], tuple) for x in walk(q))


def same(a, b):
    if a is None or b is None:
        return None
    if a is b:
        return True
    return False if const_of(sub(a, b)) is not None else None


def about(q, sc, cs, ones, mids):
    """a literal only about the score, the index and counters of the scan"""
    okay = set([sc.x, sc.i]) | set(cs) | set(ones) | set(mids)
    for a in atoms(q):
        if a in okay or a.op == 'len':
            continue
        return False
    return True


def atoms(q):
    out = []

    def go(t):
        if t.op in ('hav', 'out', 'mcall', 'index', 'len', 'sym', 'attr', 'iota'):
            out.append(t)
            return
        rec(t.args)

    def rec(v):
        if isinstance(v, T):
            go(v)
        elif isinstance(v, tuple):
            for c in v:
                rec(c)
    go(q)
    return out
