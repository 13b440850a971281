"""C36: the report — every corrupted address is counted once and falls into one class, the ratio and the depths follow from the counts."""
import itertools
import re
from fractions import Fraction
from ..terms import *
from ..prove import prove, inconsistent
from ..engine import LoopItem, Ev, Alt
from ..fold import loop_index, init_of, out_key, counting, steps
from ..shape import has

MOD = '=recover_program'
FUN = '_print_report'
NAMES = ('ERRORS', 'LOSING', 'TIDE', 'RECOVERED', 'RATIO')
ATOMS = ('L', 'LE', 'E', 'S', 'T', 'M', 'ME')      # best reads as the original, has its encoding; first two: same encoding, score, text; second: as the best


def run(ctx):
    ctx.part(report)


def printed(items):
    """placeholders of the printed texts: {word before: term}, first definition wins per state"""
    out = {}
    for e in flat_events(items):
        if e.kind != 'Print':
            continue
        for a in (e.a[0] if e.a and isinstance(e.a[0], (tuple, list)) else e.a):
            if not isinstance(a, T) or a.op != 'mcall' or a.args[1] != 'format' or a.args[0].op != 'const' or not isinstance(a.args[0].args[0], str):
                continue
            vals, i = a.args[2:], 0
            text = a.args[0].args[0]
            for m in re.finditer(r'([A-Za-z_ ]*):?[ ]*\{(\d*)[^}]*\}', text):
                k = int(m.group(2)) if m.group(2) else i
                i += 1
                w = m.group(1).strip().upper()
                if k < len(vals) and isinstance(vals[k], T):
                    out.setdefault(w, (vals[k], e))
    return out


def flat_events(items):
    for it in items:
        if isinstance(it, Ev):
            yield it
        elif isinstance(it, Alt):
            for fs, tr in it.paths:
                for e in flat_events(tr):
                    yield e


class Roles(object):
    def __init__(self, ori, rec, L, trace):
        self.ori, self.rec, self.L = ori, rec, L
        self.sorted = {}            # sorted copy -> what it is a copy of
        self.sorts = [e for e in deep(trace) if e.kind in ('Sort', 'Sorted')]
        for e in self.sorts:
            if e.kind == 'Sorted':
                objs = [a for a in e.a if isinstance(a, T) and a.op == 'obj']
                src = [a for a in e.a if isinstance(a, T) and a.op != 'obj' and self.which(a)]
                if objs and src:
                    self.sorted[objs[0]] = src[0]

    def entry(self, t, of):
        """t is the entry of the sequence `of` at this iteration: True / False (another one) / None"""
        if t.op == 'elem' and t.args[0] is of:
            return True if t.args[1] is self.L.iota else None
        if t.op == 'index' and t.args[0] is of:
            if t.args[1] is self.L.iota:
                return True
            d = num_val(sub(t.args[1], self.L.iota)) if isinstance(t.args[1], T) and t.args[1].op in ('poly', 'sym', 'const') else None
            return False if d is not None or num_val(t.args[1]) is not None else None
        return None

    def which(self, t):
        """O the original, R the candidates, 0 / 1 the first candidates once sorted, u0 / u1 unsorted; with ! when of another address"""
        if t in self.sorted:
            return self.which(self.sorted[t]) and 'S'
        o = self.entry(t, self.ori)
        if o is not None:
            return 'O' if o else 'O!'
        r = self.entry(t, self.rec)
        if r is not None:
            return 'R' if r else 'R!'
        if t.op in ('index', 'elem') and isinstance(t.args[0], T):
            w = self.which(t.args[0])
            n = num_val(t.args[1]) if isinstance(t.args[1], T) else None
            if w in ('R', 'S') and n in (0, 1):
                perm = w == 'S' or any(x.op == 'mut' and any(y == 'perm' for y in x.args[1:] if isinstance(y, str)) for x in walk(t.args[2]) if isinstance(x, T))
                return ('' if perm else 'u') + str(int(n))
            if w in ('R', 'S') and n is not None and (n == -1 or n > 1):
                return 'x'
            if w == 'R!':
                return 'R!'
        return None


def deep(items):
    for it in items:
        if isinstance(it, Ev):
            yield it
        elif isinstance(it, LoopItem):
            for b in it.loop.bodies:
                for e in deep(b.trace):
                    yield e
        elif isinstance(it, Alt):
            for fs, tr in it.paths:
                for e in deep(tr):
                    yield e


def quality(t, R):
    """(what, whose): text / encoding / score of a role"""
    if t.op == 'strof':
        w = R.which(t.args[0])
        return ('text', w) if w else None
    if t.op == 'attr' and t.args[1] == 'encoding':
        w = R.which(t.args[0])
        return ('enc', w) if w else None
    if t.op == 'mcall' and t.args[1] == 'score':
        w = R.which(t.args[0])
        return ('score', w) if w else None
    if t.op == 'call' and t.args and t.args[0].op == 'fn' and len(t.args) == 2:
        w = R.which(t.args[1])
        n = str(t.args[0].args[0]).rsplit('.', 1)[-1]
        if w and n in ('score', '__str__'):
            return ('score' if n == 'score' else 'text', w)
    return None


def pair(p, R):
    """(quality, role a, role b) when p is a - b"""
    d = pd(p)
    if len(d) != 2 or sorted(d.values()) != [Fraction(-1), Fraction(1)]:
        return None
    q = {}
    for m, c in d.items():
        if len(m) != 1 or m[0][1] != 1:
            return None
        x = quality(m[0][0], R)
        if x is None:
            return None
        q[int(c)] = x
    if q[1][0] != q[-1][0]:
        return None
    return q[1][0], q[1][1], q[-1][1]


def atom(h, R):
    """(atom name, value of the literal's truth) / 'wrong' message / None"""
    if h.op == 'eq0':
        r = pair(h.args[0], R)
    elif h.op == 'eq':
        a, b = quality(h.args[0], R), quality(h.args[1], R)
        r = (a[0], a[1], b[1]) if a and b and a[0] == b[0] else None
    elif h.op in ('gt0', 'ge0'):
        r = pair(h.args[0], R)
        if r and r[0] == 'score' and {r[1], r[2]} == {'0', '1'}:
            # the first is never below the second
            if h.op == 'gt0':
                return ('S', False) if r[1] == '0' else ('never', True)
            return ('always', True) if r[1] == '0' else ('S', True)
        return None
    else:
        return None
    if r is None:
        return None
    what, a, b = r
    k = frozenset((a, b))
    for x in k:
        if x.endswith('!'):
            return ('wrong', 'an entry of another address (`%s`) is compared' % show(h)[:120])
        if x.startswith('u'):
            return ('wrong', 'candidate %s is compared before the candidates of the address are in order of score' % x[1])
    if 'x' in k and what in ('text', 'enc') and k & {'0', '1', 'O'}:
        return ('wrong', 'a candidate that is neither the best nor the second is compared (`%s`)' % show(h)[:120])
    if what == 'text' and k == {'0', 'O'}:
        return ('L', True)
    if what == 'enc' and k == {'0', 'O'}:
        return ('LE', True)
    if what == 'text' and k == {'1', 'O'}:
        return ('M', True)
    if what == 'enc' and k == {'1', 'O'}:
        return ('ME', True)
    if k == {'0', '1'}:
        return ({'enc': 'E', 'score': 'S', 'text': 'T'}[what], True)
    return None


def plain(h):
    """a literal of the search for the original among the candidates, or of counting: it says nothing about the classes"""
    return h.op in ('exists', 'in', 'truth', 'isnone', 'ge0', 'gt0', 'forall')


def about(h, R):
    return any(quality(x, R) is not None and quality(x, R)[1].lstrip('u') in ('0', '1') for x in walk(h))


def sizes(facts, R):
    """which numbers of candidates (0..3) the facts allow"""
    out = []
    for n in (0, 1, 2, 3):
        fs = []
        for f in facts:
            m = {x: const(n) for x in walk(f) if x.op == 'len' and (R.which(x.args[0]) in ('R', 'S'))}
            # whether the list is empty, asked by its truth
            m.update({x: TRUE if n else FALSE for x in walk(f) if x.op == 'truth' and R.which(x.args[0]) in ('R', 'S')})
            fs.append(subst(f, m) if m else f)
        if FALSE in fs or inconsistent(tuple(fs)):
            continue
        out.append(n)
    return out


def klass(v):
    if not v['L']:
        return 'LOSING'
    return 'TIDE' if v['S'] and not v['T'] else 'RECOVERED'


def report(ctx):
    f = ctx.func(MOD, FUN)
    ps = [mk('sym', a.arg) for a in f.node.args.args]
    if len(ps) < 2:
        return ctx.unk('signature', f.qual, f.where())
    ori, rec = ps[:2]
    eng, sts = ctx.run(f, limit=120)
    if not sts:
        return ctx.unk('budget', f.qual, f.where())
    done = set()
    for s in sts:
        if s.exit[0] == 'raise':
            continue
        P = printed(s.items())
        index = loop_index(s.items())
        if not all(n in P for n in NAMES):
            ctx.unk('figures', f.qual, f.where(), 'the printed figures are not all followed: %s' % sorted(P))
            continue
        lids = {x.args[0] for n in NAMES[:4] for x in walk(P[n][0]) if x.op == 'out'}
        if len(lids) != 1 or next(iter(lids)) not in index:
            missing = [n for n in NAMES[:4] if num_val(P[n][0]) is not None]
            if missing:
                ctx.bad('figures', f.qual, P[missing[0]][1].loc, '%s is always %s' % (missing[0], show(P[missing[0]][0])))
            else:
                ctx.unk('figures', f.qual, f.where(), 'the figures are not gathered in one loop')
            continue
        L = index[next(iter(lids))]
        key = (L.lid, tuple(P[n][0] for n in NAMES), tuple(x for x in s.facts if any(y.op == 'out' for y in walk(x))))
        if key in done:
            continue
        done.add(key)
        covers(ctx, f, L, ori, rec)
        classes(ctx, f, eng, L, P, ori, rec)
        ratio(ctx, f, s, P)
        if 'DEPTHS' in P:
            depths(ctx, f, eng, L, P['DEPTHS'], ori, rec)


def covers(ctx, f, L, ori, rec):
    q = L.seq
    while q.op in ('enumerate', 'list', 'items') and isinstance(q.args[0], T) or q.op == 'mcall' and q.args[1] == 'items':
        q = q.args[0]
    if L.bodies and any(b.kind in ('break', 'return') for b in L.bodies):
        b = [b for b in L.bodies if b.kind in ('break', 'return')][0]
        return ctx.bad('every-address', f.qual, L.loc, 'the loop over the addresses is left early when %s' % conj(b.facts))
    if q is ori or q is rec or q.op == 'zip' and set(q.args[:2]) == {ori, rec}:
        return ctx.ok('every-address', f.qual, L.loc, 'every address of the program is reported')
    if q.op == 'range' and len(q.args) >= 2:
        lo, hi = q.args[0], q.args[1]
        st = q.args[2] if len(q.args) > 2 else const(1)
        n = [x for x in walk(hi) if x.op == 'len' and x.args[0] in (ori, rec)]
        if n and hi.op == 'min' and any(num_val(x) is not None for x in hi.args):
            return ctx.bad('every-address', f.qual, L.loc, 'no more than %s addresses are reported' % min(num_val(x) for x in hi.args if num_val(x) is not None))
        if n:
            a, b, c = num_val(lo), num_val(sub(hi, n[0])), num_val(st)
            if None not in (a, b, c):
                return ctx.decide((a, b, c) == (0, 0, 1), 'every-address', f.qual, L.loc,
                                  'the addresses from %d by %d to the number of addresses%+d are reported' % (a, c, b) if b else 'the addresses from %d by %d on are reported' % (a, c))
    ctx.unk('every-address', f.qual, L.loc, 'what the loop goes over is not followed: %s' % show(L.seq)[:120])


def conj(fs):
    return ' and '.join(show(x)[:90] for x in fs) or 'always'


def values(eng, L, t, b):
    """(value after the body) - (value before) of a figure computed from what the loop leaves"""
    after, before = {}, {}
    for x in walk(t):
        if x.op == 'out' and x.args[0] == L.lid:
            k = out_key(x)
            h = L.hav.get(k)
            v = eng.get_key(b.state, k)
            if h is None or v is None:
                return None
            after[x], before[x] = v, h
    return sub(subst(t, after), subst(t, before))


def start(eng, L, t):
    m = {}
    for x in walk(t):
        if x.op == 'out' and x.args[0] == L.lid:
            v = init_of(eng, L, out_key(x))
            if v is None:
                return None
            m[x] = v
    return num_val(subst(t, m))


def classes(ctx, f, eng, L, P, ori, rec):
    for n in NAMES[:4]:
        v = start(eng, L, P[n][0])
        if v is None:
            ctx.unk('from-zero', f.qual, L.loc, '%s before the first address is not followed' % n)
        else:
            ctx.decide(v == 0, 'from-zero', f.qual, L.loc, '%s is %s before the first address' % (n, v))
    for b in L.bodies:
        if b.kind not in ('next', 'break') or inconsistent(tuple(b.facts)):
            continue
        R = Roles(ori, rec, L, b.trace)
        deltas = {}
        for n in NAMES[:4]:
            d = values(eng, L, P[n][0], b)
            deltas[n] = None if d is None else num_val(d)
            if d is not None and deltas[n] is None and d.op in ('poly', 'out', 'len', 'find') and n != NAMES[0] and \
                    not any(x.op in ('truth', 'eq0', 'ge0', 'gt0', 'not', 'ite', 'call', 'unk', 'in', 'exists', 'eq') for x in [d] + ([y for m, c in d.args for y, e in m] if d.op == 'poly' else [])):
                ctx.bad('classes', f.qual, L.loc, 'an address adds `%s` to %s' % (show(d)[:60], n))
        order(ctx, f, L, b, R)
        fixed, free, odd, wrong, never = {}, [], [], None, False
        for g in b.facts:
            pos, h = (False, g.args[0]) if g.op == 'not' else (True, g)
            a = atom(h, R)
            if a is None:
                if about(h, R):
                    odd.append(h)
                elif not plain(h) and not any(x.op in ('len', 'encoding') or x.op == 'attr' and x.args[1] == 'encoding' for x in walk(h)):
                    free.append(h)
                continue
            if a[0] == 'wrong':
                wrong = a[1]
            elif a[0] == 'never':
                never = never or pos
            elif a[0] == 'always':
                never = never or not pos
            else:
                v = pos == a[1]
                if fixed.setdefault(a[0], v) != v:
                    never = True
        if never:
            continue
        if wrong:
            ctx.bad('classes', f.qual, L.loc, wrong)
            continue
        if None in deltas.values():
            ctx.unk('classes', f.qual, L.loc, 'what is added under %s is not followed' % conj(b.facts))
            continue
        ns = sizes(b.facts, R)
        want = set()
        if 0 in ns or 1 in ns:
            want.add(None)
        if 2 in ns or 3 in ns:
            for vals in itertools.product((True, False), repeat=len(ATOMS)):
                v = dict(zip(ATOMS, vals))
                if any(v[k] != x for k, x in fixed.items()) or v['E'] or v['LE'] and not v['L'] or v['ME'] and not v['M'] or v['LE'] and v['ME'] or v['L'] + v['T'] + v['M'] == 2:
                    continue
                want.add(klass(v))
        got = tuple(int(deltas[n]) if deltas[n] == int(deltas[n]) else deltas[n] for n in NAMES[:4])
        for w in sorted(want, key=str):
            exp = (0, 0, 0, 0) if w is None else (1,) + tuple(int(n == w) for n in NAMES[1:4])
            if got == exp:
                ctx.ok('classes', f.qual, L.loc, '%s: %s' % (w or 'not corrupted', conj(b.facts)))
                continue
            if odd or free or len(want) > 1 and (R.sorted or not R.sorts):
                ctx.unk('classes', f.qual, L.loc, 'the conditions are not all followed: %s' % conj(odd + free))
                continue
            added = ', '.join('%s %+d' % (n, d) for n, d in zip(NAMES, got) if d) or 'nothing'
            ctx.bad('classes', f.qual, L.loc, 'an address %s may be counted as %s, when %s' % (
                'with at most one candidate' if w is None else {'LOSING': 'whose best candidate reads differently from the original',
                                                              'TIDE': 'whose two best candidates have the same score and read differently, the best as the original',
                                                              'RECOVERED': 'whose best candidate reads as the original and is not tied with another text'}[w], added,
                conj([g for g in b.facts if not plain(g.args[0] if g.op == 'not' else g)])))


def order(ctx, f, L, b, R):
    for e in R.sorts:
        src = [a for a in e.a if isinstance(a, T) and R.which(a) in ('R', 'S')]
        if not src:
            continue
        rev, ks = None, None
        for a in e.a:
            if isinstance(a, T) and a.op == 'const' and a.args[1] == 'bool':
                rev = a is TRUE
            if isinstance(a, tuple) and a and all(isinstance(x, tuple) and len(x) == 2 for x in a):
                ks = [k for fs, k in a]
        if rev is None:
            rev = False if not any(isinstance(a, T) and a.op not in ('const', 'lambda', 'fn', 'obj', 'index', 'elem') for a in e.a) else None
        sign = set()
        for k in ks or ():
            if k.op == 'tuple' and k.args:
                k = k.args[0]
            c = 0
            for m, co in pd(k).items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'mcall' and m[0][0].args[1] == 'score' and m[0][0].args[0].op in ('sortelem', 'sym'):
                    c = 1 if co > 0 else -1
            if len(pd(k)) != 1:
                c = 0
            if k.op == 'call' and k.args[0].op == 'builtin' and k.args[0].args[0] in ('round', 'int', 'str', 'repr') and any(x.op == 'mcall' and x.args[1] == 'score' for x in walk(k)):
                ctx.bad('order', f.qual, e.loc, 'the candidates are in order of `%s`, not of their score' % show(k)[:80])
                return
            sign.add(c)
        if rev is None or len(sign) != 1 or 0 in sign:
            ctx.unk('order', f.qual, e.loc, 'the order of the candidates is not followed')
        else:
            ctx.decide((sign == {1}) == rev, 'order', f.qual, e.loc, 'the candidates are put in %s order of score' % ('descending' if (sign == {1}) == rev else 'ascending'))


def ratio(ctx, f, s, P):
    rt, loc = P['RATIO'][0], P['RATIO'][1].loc
    e, r = P['ERRORS'][0], P['RECOVERED'][0]
    if inconsistent(tuple(s.facts)):
        return
    if prove(s.facts, cmp_ge(sub(neg(e), const(0)))) or prove(s.facts, cmp_eq(e, const(0))):
        v = num_val(rt)
        if v is None:
            return ctx.unk('ratio', f.qual, loc, 'the ratio without errors is not followed: %s' % show(rt)[:80])
        return ctx.decide(v == 1, 'ratio', f.qual, loc, 'without errors the ratio is %s' % v)
    if rt is div(r, e):
        if any(x.op == 'not' or x.op in ('ge0', 'gt0', 'truth') for x in s.facts if any(y.op == 'out' for y in walk(x))):
            return ctx.ok('ratio', f.qual, loc, 'recovered by errors')
        return ctx.bad('ratio', f.qual, loc, 'the number of errors may be 0 where the ratio is taken')
    known = {x for x in walk(rt) if x.op == 'out'}
    nice = rt.op in ('poly', 'out', 'const') and all(x.op in ('out', 'poly', 'const') for x in walk(rt))
    ctx.decide(False if nice and known | {1} else None, 'ratio', f.qual, loc, 'with errors the ratio is `%s`' % show(rt)[:120])


def depths(ctx, f, eng, L, printed_at, ori, rec):
    D, ev = printed_at
    if D.op != 'obj':
        return ctx.unk('depths', f.qual, ev.loc, 'the printed depths are not a table of this function')
    for b in L.bodies:
        if b.kind != 'next' or inconsistent(tuple(b.facts)):
            continue
        R = Roles(ori, rec, L, b.trace)
        ns = sizes(b.facts, R)
        c = counting(b.trace, D)
        if c is None:
            ctx.unk('depths', f.qual, L.loc, 'how the depths are counted is not followed')
            continue
        used = [x for x in c if x[2]]
        if not any(n in ns for n in (2, 3)):
            if used:
                ctx.bad('depths', f.qual, L.loc, 'a depth is counted for an address with at most one candidate')
            continue
        if not used:
            ctx.bad('depths', f.qual, L.loc, 'no depth is counted for an address with several candidates, when %s' % conj(b.facts))
            continue
        # the innermost loops, one per address
        for I in {x[0][-1][0].lid: x[0][-1][0] for x in used if x[0]}.values():
            depth(ctx, f, eng, L, I, [x for x in used if x[0] and x[0][-1][0] is I], R)
        if any(not x[0] for x in used):
            ctx.unk('depths', f.qual, L.loc, 'a depth is counted outside the loop over the candidates')


def original(fs, I, R):
    """whether the facts say that the candidate of this iteration is the original: True / False / None"""
    for g in fs:
        pos, h = (False, g.args[0]) if g.op == 'not' else (True, g)
        if h.op != 'eq0':
            continue
        d = pd(h.args[0])
        if len(d) != 2 or sorted(d.values()) != [Fraction(-1), Fraction(1)]:
            continue
        who = set()
        for m in d:
            x = m[0][0] if len(m) == 1 else None
            if x is not None and x.op == 'attr' and x.args[1] == 'encoding':
                y = x.args[0]
                who.add('c' if y is I.elem or y.op in ('elem', 'index') and y.args[1] is I.iota else R.which(y))
        if who == {'c', 'O'}:
            return pos
    return None


def settled(g):
    if g.op == 'not':
        v = settled(g.args[0])
        return None if v is None else not v
    if g.op == 'const':
        return bool(g.args[0])
    if g.op == 'truth' and g.args[0].op == 'const':
        return bool(g.args[0].args[0])
    if g.op == 'truth' and num_val(g.args[0]) is not None:
        return num_val(g.args[0]) != 0
    return True if g is TRUE else False if g is FALSE else None


def depth(ctx, f, eng, L, I, used, R):
    over = I.seq
    w = R.which(over)
    if w not in ('R', 'S') and not (over.op == 'range'):
        return ctx.unk('depths', f.qual, I.loc, 'what the depths are counted over is not followed: %s' % show(over)[:100])
    keys = set()
    for loops, fs, amounts, p in used:
        for k, a in amounts.items():
            ctx.decide(num_val(a) == 1 if num_val(a) is not None else (False if a.op == 'reset' else None), 'depths', f.qual, I.loc, 'the count of a depth grows by %s' % show(a))
            keys.add(k)
        o = original(fs, I, R)
        ctx.decide(o, 'depths', f.qual, I.loc, 'the depth is counted at a candidate which %s the original' % ('is' if o else 'is not'))
    hk = {}
    for k in keys:
        h = [x for x in I.hav if I.hav[x] is k]
        if not h:
            v = num_val(k)
            if k is I.iota or any(x.op == 'sym' for x in walk(k)) and num_val(sub(k, I.iota)) == 0:
                ctx.ok('depths', f.qual, I.loc, 'the place in the order is the depth')
            elif v is not None or num_val(sub(k, I.iota)) is not None:
                ctx.bad('depths', f.qual, I.loc, 'the depth counted is %s' % show(k))
            else:
                hs = [x for x in I.hav if I.hav[x] is not None and has(k, I.hav[x])]
                d = num_val(sub(k, I.hav[hs[0]])) if len(hs) == 1 else None
                if d:
                    ctx.bad('depths', f.qual, I.loc, 'the depth counted is %+d off the number of candidates before the original' % d)
                else:
                    ctx.unk('depths', f.qual, I.loc, 'the depth counted is not followed: %s' % show(k)[:80])
            continue
        hk[h[0]] = k
    for k, hv in hk.items():
        v = init_of(eng, I, k)
        n = None if v is None else num_val(v)
        if v is not None and n is None and any(v is L.hav[x] for x in L.hav):
            ctx.bad('depths', f.qual, I.loc, 'the depth goes on from the address before')
        elif n is None:
            ctx.unk('depths', f.qual, I.loc, 'the depth before the first candidate is not followed')
        else:
            ctx.decide(n == 0, 'depths', f.qual, I.loc, 'the depth of the first candidate is %s' % n)
        for b in I.bodies:
            if b.kind != 'next' or inconsistent(tuple(b.facts)):
                continue
            o = original(b.facts, I, R)
            a = eng.get_key(b.state, k)
            d = num_val(sub(a, hv)) if a is not None else None
            if a is not None and a.op in ('min', 'max') and any(num_val(x) is not None for x in a.args) and any(x.op == 'poly' and num_val(sub(x, hv)) is not None for x in a.args):
                ctx.bad('depths', f.qual, I.loc, 'the depth is cut: `%s`' % show(a)[:80])
                continue
            if d is None:
                ctx.unk('depths', f.qual, I.loc, 'how the depth grows is not followed')
                continue
            # a flag telling whether the original was met
            flags = []
            for g in b.facts:
                h = g.args[0] if g.op == 'not' else g
                for x in walk(h):
                    kk = [y for y in I.hav if I.hav[y] is x and y != k]
                    if kk and x.op == 'hav':
                        i = init_of(eng, I, kk[0])
                        flags.append(None if i is None else settled(subst(g, {x: i})))
            if o is True:
                continue                    # after the original nothing more is counted
            met = any(x is False for x in flags)        # only once the original was met
            extra = [g for g in b.facts if original((g,), I, R) is None and not any(x.op == 'hav' for x in walk(g)) and
                     not (g.op in ('in', 'ge0') or g.op == 'truth' or g.op == 'not' and g.args[0].op == 'truth')]
            if met:
                continue
            if o is None and d == 0 and (extra or None in flags):
                ctx.unk('depths', f.qual, I.loc, 'under what the depth grows is not followed')
                continue
            if d == 1:
                ctx.ok('depths', f.qual, I.loc, 'one deeper for every candidate before the original')
            elif extra or None in flags:
                ctx.unk('depths', f.qual, I.loc, 'under what the depth grows is not followed: %s' % conj(extra))
            else:
                ctx.bad('depths', f.qual, I.loc, 'the depth grows by %s for a candidate before the original, when %s' % (d, conj(b.facts)))
