"""C28: the constraint that values of the assigned candidates sum up to the counts, and the problem built of three of them."""
from ..terms import *
from ..prove import inconsistent, prove
from ..report import conj, understood, events
from ..fold import loop_index, counting, flat_paths, steps, bumps
from ..engine import Ev, LoopItem, V0, Frame
from ..shape import has
from .c27 import signed

MOD = 'solution.solution_builders'
NAME = 'sum constraint'
SELF = mk('sym', 'self')


def run(ctx):
    c = ctx.cls(MOD, 'ExactFieldSumConstraint')
    b = ctx.cls(MOD, 'ProblemBuilder')
    fields = ctx.part(stored, c)
    if fields:
        ctx.part(constraint, c, *fields)
    ctx.part(problem, b)


def stored(ctx, c):
    """the attributes holding the counts and the function giving the values of a candidate"""
    f = c.find('__init__')
    ps = [a.arg for a in f.node.args.args]
    eng, sts = ctx.run(f, limit=20, selfcls=c)
    if not sts or len(sts) != 1 or len(ps) < 3:
        return ctx.unk('stored', NAME)
    got = {}
    for e, l in events(sts[0].items()):
        if e.kind == 'SetAttr' and e.a[0] is SELF:
            got[e.a[2]] = e.a[1]
    E, F = got.get(mk('sym', ps[1])), got.get(mk('sym', ps[2]))
    if not E or not F:
        return ctx.unk('stored', NAME)
    return mk('attr', SELF, E), mk('attr', SELF, F)


class Grid(object):
    """what is known about one key: whether it is counted, whether it has a limit, its count and its limit (0 to 3 each)"""
    def __init__(self, D, E, covered):
        self.D, self.E = D, E
        self.all = [(d, e, n, m) for d in (True, False) for e in (True, False) for n in range(5) for m in range(5)
                    if (d or e) and (d or n == 0) and (e or m == 0) and (e or n > 0) and not (covered and e and not d)]

    def value(self, t, s):
        d, e, n, m = s
        if t.op == 'index' and t.args[1] is BOUND:
            if t.args[0] is self.D:
                return n if d else KeyError
            if t.args[0] is self.E:
                return m if e else KeyError
        if t.op in ('get', 'mcall') and BOUND in t.args and num_val(t.args[-1]) == 0:
            if t.args[0] is self.D:
                return n
            if t.args[0] is self.E:
                return m
        return None

    def num(self, t, s):
        r = {}
        for x in walk(t):
            v = self.value(x, s)
            if v is KeyError:
                return KeyError
            if v is not None:
                r[x] = const(v)
        v = num_val(add(subst(t, r), const(0)))
        return v

    def holds(self, p, s):
        """True / False / KeyError; None when not understood"""
        if p.op == 'not':
            r = self.holds(p.args[0], s)
            return r if r is None or r is KeyError else not r
        if p.op in ('and_', 'or_'):
            stop = p.op == 'or_'
            rs = [self.holds(a, s) for a in p.args]
            return stop if stop in rs else None if None in rs else KeyError if KeyError in rs else not stop
        if p.op == 'in' and p.args[0] is BOUND:
            if p.args[1] is self.D:
                return s[0]
            if p.args[1] is self.E:
                return s[1]
            return None
        if p.op in ('ge0', 'eq0'):
            v = self.num(p.args[0], s)
            if v is None or v is KeyError:
                return v
            return v >= 0 if p.op == 'ge0' else v == 0
        return None

    def keep(self, states, p, want):
        """the states in which p is want; None when p is not understood"""
        out = []
        for s in states:
            r = self.holds(p, s)
            if r is None:
                return None
            if r is want or r is KeyError:
                # a state in which the test fails with an error stays: nothing keeps it out
                out.append(s)
        return out


def about_loop(q):
    """a literal saying only that a position is within a list"""
    pos, h = signed(q)
    return h.op == 'ge0' and not reads(h)


def reads(t):
    """does a term depend on anything but lengths and positions?"""
    t = subst(t, {x: const(1) for x in walk(t) if x.op == 'len'})
    return any(x.op in ('index', 'attr', 'call', 'mcall', 'get', 'elem', 'unk', 'out', 'hav') for x in walk(t))


def judge(g, facts, seqs):
    """what the literals say about the keys: (states of any key, [states of each witness], [literals left]);
    seqs are the collections the keys come from"""
    every, wits, rest = list(g.all), {}, []
    for q in facts:
        pos, h = signed(q)
        if h.op == 'exists' and h.args[0] in seqs:
            dom = [s for s in every if domain(g, h.args[0], s)]
            r = g.keep(dom, h.args[1], pos)
            if r is None:
                rest.append(q)
            elif pos:
                wits.setdefault(('exists', q), dom)
                wits[('exists', q)] = [s for s in wits[('exists', q)] if s in r]
            else:
                every = [s for s in every if s not in dom or s in r]
            continue
        ws = [x for x in walk(q) if x.op == 'elem' and x.args[0] in seqs]
        if ws and not about_loop(q):
            w = ws[0]
            p = subst(h, {w: BOUND})
            if w.args[0] not in (g.D, g.E) and p.op == 'in' and p.args[1] is w.args[0]:
                continue
            dom = wits.get(w, [s for s in g.all if domain(g, w.args[0], s)])
            r = g.keep(dom, p, pos)
            if r is None:
                rest.append(q)
            else:
                wits[w] = r
            continue
        if not about_loop(q):
            rest.append(q)
    return every, [w for w in wits.values()], rest


def domain(g, seq, s):
    return s[0] if seq is g.D else s[1] if seq is g.E else True


def constraint(ctx, c, E, F):
    f = c.find('__call__')
    ps = [mk('sym', a.arg) for a in f.node.args.args]
    if len(ps) < 5:
        return ctx.unk('parameters', NAME)
    variables, domains, assignments, forward = ps[1:5]
    eng, sts = ctx.run(f, limit=120, selfcls=c)
    if not sts:
        return ctx.unk('budget', NAME)
    P = (variables, domains, assignments, forward, E, F)
    seen = set()
    for s in sts:
        if inconsistent(tuple(s.facts)):
            continue
        index = loop_index(s.items())
        D = counter(s, E)
        if D is None:
            ctx.decide(None, 'counts', NAME, f.where(), 'the counts of a path are unknown')
            continue
        covered = counted(ctx, eng, s, index, D, P, f, seen)
        g = Grid(D, E, covered)
        missing, rest = None, []
        fwd = None
        for q in s.facts:
            pos, h = signed(q)
            m = lacks(ctx, eng, index, h, P, seen)
            if m is not None:
                missing = m == pos
            elif h.op == 'truth' and h.args[0] is forward:
                fwd = pos
            else:
                rest.append(q)
        every, wits, rest = judge(g, rest, (D, E))
        v = s.exit[1]
        yes = v is TRUE
        if s.exit[0] != 'return' or v is not TRUE and v is not FALSE:
            ctx.decide(None, 'answer', NAME, f.where(), 'the answer of a path is unknown')
            continue
        if yes:
            rest = [q for q in rest if not about_var(q, P)]
            if missing is False:
                wrong = [x for x in every if not x[1] or x[2] != x[3]]
            else:
                wrong = [x for x in every if not x[1] or x[2] > x[3]]
            if missing is None and not wrong:
                wrong = [x for x in every if x[2] != x[3]]
            ctx.decide(True if not wrong else False if not rest else None, 'accepted', NAME, f.where(),
                       'an assignment is accepted although a value is counted %s' % (example(wrong) if wrong else ''))
            if fwd and missing:
                hides = any(hidden(it) for it in s.items() if isinstance(it, LoopItem))
                ctx.decide(True if hides else False, 'hides', NAME, f.where(), 'no candidate is hidden when asked to look forward')
        else:
            bad = [w for w in wits if w and all(not x[1] or x[2] > x[3] or missing is False and x[2] != x[3] for x in w)]
            if bad or empty_domain(rest, P):
                ctx.ok('refused', NAME, f.where())
            else:
                left = [q for q in rest if not about_var(q, P)]
                odd = [x for w in wits for x in w if x[1] and x[2] <= x[3] and not (missing is False and x[2] != x[3])]
                ctx.decide(False if not left else None, 'refused', NAME, f.where(), 'an assignment is refused although %s' %
                           ('a value may be counted ' + example(odd) if odd else 'no count is wrong'))
        for it in s.items():
            if isinstance(it, LoopItem):
                forwardloop(ctx, g, s, it, P, fwd, seen)
            elif isinstance(it, Ev) and hide(it):
                ctx.decide(None, 'hidden', NAME, it.loc, 'a candidate is hidden outside of the walk over the variables')


def example(xs):
    x = xs[0]
    return '%d times where %s' % (x[2], ('the limit is %d' % x[3]) if x[1] else 'there is no limit for it')


def about_var(q, P):
    """a literal about which variables are assigned, or what a domain holds"""
    pos, h = signed(q)
    if h.op == 'in' and h.args[1] in (P[0], P[2]):
        return True
    return h.op in ('truth', 'eq0') and any(x.op == 'index' and x.args[0] is P[1] for x in walk(h)) and not any(x.op == 'attr' for x in walk(h))


def empty_domain(facts, P):
    for q in facts:
        pos, h = signed(q)
        t = None
        if h.op == 'truth' and not pos:
            t = h.args[0]
        elif h.op == 'eq0' and pos:
            ls = [x for x in walk(h.args[0]) if x.op == 'len']
            t = ls[0].args[0] if len(ls) == 1 and num_val(sub(h.args[0], ls[0])) == 0 else None
        if t is not None and t.op == 'index' and t.args[0] is P[1]:
            v = t.args[1]
            if any(signed(r)[0] is False and signed(r)[1].op == 'in' and signed(r)[1].args[0] is v and signed(r)[1].args[1] is P[2] for r in facts):
                return True
    return False


def counter(s, E):
    """the dictionary of counts"""
    got = set()
    for e, l in events(s.items()):
        if e.kind in ('SetItem', 'Inc') and e.a[0].op == 'obj':
            got.add(e.a[0])
    return got.pop() if len(got) == 1 else None


def lacks(ctx, eng, index, h, P, seen):
    """True when the literal says that a variable is not assigned, False when it says that all are"""
    variables, assignments = P[0], P[2]
    if h.op == 'exists' and h.args[0] is variables:
        pos, p = signed(h.args[1])
        if p.op == 'in' and p.args[0] is BOUND and p.args[1] is assignments and not pos:
            return True
    if h.op == 'truth' and h.args[0].op == 'out':
        st = steps(eng, h.args[0], index)
        if st is None:
            return None
        init, ss = st
        if init not in (TRUE, FALSE) or not all(x.op == 'keep' or x.op == 'set' and x.amount in (TRUE, FALSE) for x in ss):
            return None
        flag = not (init is TRUE)
        on, L = TRUE if flag else FALSE, index[h.args[0].args[0]]
        if ('missing', L.loc) not in seen:
            seen.add(('missing', L.loc))
            for x in ss:
                if inconsistent(x.facts):
                    continue
                a = assigned(x.facts, L, P)
                if L.seq is not variables or a is None:
                    ctx.decide(None, 'missing', NAME, x.loc, 'it is unknown which variables are missing')
                elif x.op == 'set':
                    ctx.decide((x.amount is on) == (not a) and (x.amount is on), 'missing', NAME, x.loc, 'a variable counts as missing wrongly')
                else:
                    ctx.decide(a, 'missing', NAME, x.loc, 'a variable without a value does not count as missing')
        return flag
    return None


def assigned(facts, L, P):
    for q in facts:
        pos, h = signed(q)
        if h.op == 'in' and h.args[0] is L.elem and h.args[1] is P[2]:
            return pos
    return None


def ignored(facts, inst):
    for q in facts:
        pos, h = signed(q)
        if h.op == 'truth' and h.args[0].op == 'attr' and h.args[0].args[1] == 'ignore' and h.args[0].args[0] is inst:
            return pos
    return None


def values_of(t, F):
    """the candidate whose values t is"""
    return t.args[1] if t is not None and t is not False and t.op == 'call' and t.args[0] is F and len(t.args) == 2 else None


def counted(ctx, eng, s, index, D, P, f, seen):
    """are the keys with a limit all in the counts from the start?"""
    variables, domains, assignments, forward, E, F = P
    covered = False
    for it in s.items():
        if isinstance(it, Ev) and it.kind == 'NewDict' and it.a[0] is D:
            if len(it.a) > 1 and it.a[1] is E:
                covered = True
        if not isinstance(it, LoopItem):
            continue
        L = it.loop
        if not writes(it, D):
            continue
        sets = [e for b in L.bodies for e in b.trace if isinstance(e, Ev) and e.kind == 'SetItem' and e.a[0] is D]
        if L.seq is E and len(L.bodies) == 1 and len(sets) == 1 and sets[0].a[1] is L.elem and it.body is None:
            ctx.decide(num_val(sets[0].a[2]) == 0 if num_val(sets[0].a[2]) is not None else None, 'starts', NAME, L.loc, 'a count does not start at 0')
            covered = num_val(sets[0].a[2]) == 0
            continue
        if ('count', L.loc) in seen:
            continue
        seen.add(('count', L.loc))
        if L.seq is not variables:
            ctx.decide(None, 'counts', NAME, L.loc, 'the counts are taken from something else than the variables')
            continue
        for b in L.bodies:
            if inconsistent(b.facts):
                continue
            a = assigned(b.facts, L, P)
            inst = mk('index', assignments, L.elem, V0)
            inst = next((x for q in b.facts for x in walk(q) if x.op == 'index' and x.args[0] is assignments and x.args[1] is L.elem), inst)
            ig = ignored(b.facts, inst)
            inner = [x for x in b.trace if isinstance(x, LoopItem) and writes(x, D)]
            direct = [e for e in b.trace if isinstance(e, Ev) and e.kind in ('SetItem', 'Inc') and e.a[0] is D]
            if b.kind == 'break' and a is not None:
                ctx.decide(False, 'counts', NAME, L.loc, 'the variables behind %s are not counted' % ('a missing one' if not a else 'an ignored one' if ig else 'a counted one'))
                continue
            if not inner and not direct:
                ctx.decide(True if a is False or a and ig else False if a and (ig is False or ig is None and all(understood(q, allow=('index',)) for q in b.facts)) else None,
                           'counts', NAME, L.loc, 'the values of an assigned candidate are not counted')
                continue
            if direct or len(inner) != 1:
                ctx.decide(None, 'counts', NAME, L.loc, 'a variable is counted in an unknown way')
                continue
            I = inner[0].loop
            x = values_of(I.seq, F)
            if x is None:
                ctx.decide(None, 'counts', NAME, I.loc, 'the values counted are unknown')
                continue
            good = x.op == 'index' and x.args[0] is assignments and x.args[1] is L.elem
            ctx.decide(True if good and ignored(b.facts, x) is False else False if good else None, 'counts', NAME, I.loc, 'the values of an ignored candidate are counted')
            for bb in I.bodies:
                ps = flat_paths(bb.trace)
                for p in ps or ((),):
                    r = bumps(p, D, tuple(b.facts) + tuple(bb.facts)) if ps is not None else None
                    reset = [v for v in (r or {}).values() if v.op == 'reset']
                    if reset:
                        ctx.decide(False if all(num_val(v.args[0]) is not None for v in reset) else None, 'each-value', NAME, I.loc, 'a value counted before is not added to')
                    elif r is None:
                        ctx.decide(None, 'each-value', NAME, I.loc, 'a count changes in an unknown way')
                    else:
                        one = len(r) == 1 and I.elem in r and num_val(r[I.elem]) == 1
                        ctx.decide(False if bb.kind == 'break' or not one and all(num_val(n) is not None for n in r.values()) else True if one else None, 'each-value', NAME, I.loc,
                                   'a value of a candidate is not counted once')
    return covered


def writes(it, D):
    return any(e.kind in ('SetItem', 'Inc') and e.a[0] is D for b in it.loop.bodies for e, l in events(b.trace))


def hide(e):
    """the (domain, candidate) hidden by an event"""
    if e.kind == 'CallUnknown':
        t, args = e.a[0], e.a[1]
        if t.op == 'attr' and t.args[1] == 'hideValue' and len(args) == 1:
            return t.args[0], args[0]
    if e.kind == 'MCall' and len(e.a) >= 2 and e.a[1] == 'hideValue':
        return e.a[0], e.a[2][0] if isinstance(e.a[2], tuple) else e.a[2]
    return None


def hidden(it):
    return any(hide(e) for b in it.loop.bodies for e, l in events(b.trace))


def forwardloop(ctx, g, s, it, P, fwd, seen):
    variables, domains, assignments, forward, E, F = P
    L = it.loop
    if not hidden(it):
        return
    if fwd is not True:
        ctx.decide(False if fwd is False or not any(has(q, forward) for q in s.facts) else None, 'hidden', NAME, L.loc, 'candidates are hidden without being asked to look forward')
        return
    if ('hide', L.loc) in seen:
        return
    seen.add(('hide', L.loc))
    if L.seq is not variables:
        return ctx.decide(None, 'hidden', NAME, L.loc, 'candidates of unknown variables are hidden')
    for b in L.bodies:
        if inconsistent(b.facts):
            continue
        a = assigned(b.facts, L, P)
        ds = [x.loop for x in b.trace if isinstance(x, LoopItem) and hidden(x)]
        out = [e for e in b.trace if isinstance(e, Ev) and hide(e)]
        if out or len(ds) > 1:
            ctx.decide(None, 'hidden', NAME, L.loc, 'candidates are hidden in an unknown way')
        elif not ds:
            ctx.decide(True if a else False if a is False and b.kind == 'next' else None, 'hidden', NAME, L.loc, 'the candidates of a missing variable are not looked at')
            if a and b.kind != 'next':
                ctx.decide(False if b.kind == 'break' else None, 'hidden', NAME, L.loc, 'the variables behind an assigned one are not looked at')
        else:
            if a is not False:
                ctx.decide(False if a else None, 'hidden', NAME, L.loc, 'candidates of an assigned variable are hidden')
            candidates(ctx, g, L, b, ds[0], P)


def candidates(ctx, g, L, b, I, P):
    variables, domains, assignments, forward, E, F = P
    dom = next((x for x in walk(I.elem) if x.op == 'index' and x.args[0] is domains and x.args[1] is L.elem), None)
    if dom is None:
        return ctx.decide(None, 'hidden', NAME, I.loc, 'the candidates looked at are unknown')
    full = I.seq is None or I.seq is False or I.seq.op != 'slice' or I.seq.args[0] is not dom or int_val(I.seq.args[1]) in (None, 0) and no_end(I.seq.args[2])
    ctx.decide(full, 'hidden', NAME, I.loc, 'not every candidate of a missing variable is looked at')
    ctx.decide(I.seq is not dom or I.copied, 'hidden', NAME, I.loc, 'candidates are hidden from the list that is being walked')
    for bb in I.bodies:
        if inconsistent(bb.facts):
            continue
        hs = [e for e in bb.trace if isinstance(e, Ev) and hide(e)]
        again = False
        for x in bb.trace:
            if isinstance(x, LoopItem) and hidden(x):
                if x.body is not None:
                    hs += [e for e in x.body.trace if isinstance(e, Ev) and hide(e)]
                again |= any(y.kind == 'next' and any(hide(e) for e, l in events(y.trace)) for y in x.loop.bodies)
        if again:
            ctx.decide(False, 'once', NAME, I.loc, 'a candidate is hidden once for each of its values')
            continue
        seqs = set(t for q in bb.facts for t in walk(q) if values_of(t, F) is I.elem)
        every, wits, rest = judge(g, bb.facts, seqs)
        ig = ignored(bb.facts, I.elem)
        others = [q for q in rest if not (signed(q)[1].op == 'truth' and has(q, I.elem)) and not (signed(q)[1].op == 'in' and signed(q)[1].args[0] is I.elem)
                  and not about_var(q, P) and not (signed(q)[1].op == 'in' and signed(q)[1].args[0] is L.elem)
                  and not (signed(q)[1].op == 'truth' and signed(q)[1].args[0] is forward)
                  and not (signed(q)[1].op == 'in' and signed(q)[1].args[0].op == 'elem' and signed(q)[1].args[0].args[0] is signed(q)[1].args[1])]
        others = [q for q in others if not by_amount(q, seqs)]
        none = any(not signed(q)[0] and signed(q)[1].op == 'truth' and signed(q)[1].args[0] is I.elem for q in bb.facts)
        over = lambda x: not x[1] or x[2] + 1 > x[3]
        if bb.kind not in ('next',):
            ctx.decide(False if bb.kind == 'break' and not others else None, 'hidden', NAME, I.loc, 'the candidates behind one are not looked at')
        elif hs:
            ok = len(hs) == 1 and hide(hs[0])[0] is dom and hide(hs[0])[1] is I.elem
            if not ok:
                ctx.decide(None, 'hidden', NAME, hs[0].loc, 'something unknown is hidden')
                continue
            ctx.decide(True if ig is False else False if not others else None, 'hidden', NAME, hs[0].loc, 'an ignored candidate is hidden')
            good = [w for w in wits if w and all(over(x) for x in w)]
            ctx.decide(True if good else False if not others else None, 'hidden', NAME, hs[0].loc, 'a candidate is hidden although its values fit in the counts')
        else:
            wrong = [x for x in every if over(x)]
            ctx.decide(True if ig or none or not wrong else False if not others else None, 'hidden', NAME, I.loc, 'a candidate whose values exceed the counts is not hidden')


def by_amount(q, seqs):
    """a count is compared with the number of values"""
    h = signed(q)[1]
    if h.op not in ('ge0', 'gt0'):
        return False
    ats = set(x for m in pd(h.args[0]) for x, e in m)
    return any(x.op == 'len' and x.args[0] in seqs for x in ats) and any(x.op == 'index' for x in ats) and all(x.op in ('len', 'index', 'hav', 'out') for x in ats)


def no_end(t):
    return t is None or t is NONE or t.op == 'const' and t.args[0] is None


PAIRS = {'condition_count': 'conditional_field', 'instruction_count': 'opcode_field', 'storage_count': 'storages_used'}


def problem(ctx, b):
    f = b.find('build')
    name = 'problem'
    program, metadata = [mk('sym', a.arg) for a in f.node.args.args][1:3]
    eng, sts = ctx.run(f, limit=60, selfcls=b)
    if not sts:
        return ctx.unk('budget', name)
    for s in sts:
        if inconsistent(tuple(s.facts)):
            continue
        made, got = {}, {}
        for e, l in events(s.items()):
            if e.kind == 'NewObj' and len(e.a) > 2:
                made[e.a[0]] = (e.a[1], e.a[2])
        adds = [(e, l) for e, l in events(s.items()) if called(e, 'addVariable')]
        ctx.decide(True if adds else None, 'variables', name, f.where(), 'no variable is added')
        for e, l in adds:
            args = called(e, 'addVariable')
            if len(l) != 1 or len(args) != 2 or l[0][0].seq not in (program, mk('items', program), mk('keys', program)):
                ctx.decide(None, 'variables', name, e.loc, 'a variable is added in an unknown way')
                continue
            L, body = l[0]
            key = args[0] if args[0].op == 'elem' and args[0].args[0] is program else None
            lst = mk('index', program, key, V0) if key is not None else None
            if lst is None:
                ctx.decide(None, 'variables', name, e.loc, 'a variable of unknown name is added')
                continue
            src = whole(eng, s, body, args[1])
            ctx.decide(True if src is lst else False if src is not None and src.op in ('slice', 'part') and src.args[0] is lst else None,
                       'variables', name, e.loc, 'a variable does not get all the candidates of its address')
            for b in L.bodies:
                if inconsistent(b.facts):
                    continue
                n = [x for x, y in events(b.trace) if called(x, 'addVariable')]
                fs = [q for q in b.facts if has(q, lst) and not (signed(q)[1].op == 'in')]
                some = prove(tuple(b.facts), mk('ge0', sub(mk('len', lst, V0), const(1)))) or any(signed(q)[0] and signed(q)[1].op == 'truth' and signed(q)[1].args[0] is lst for q in fs)
                empty = prove(tuple(b.facts), mk('ge0', neg(mk('len', lst, V0)))) or any(not signed(q)[0] and signed(q)[1].op == 'truth' and signed(q)[1].args[0] is lst for q in fs)
                simple = all(not has(q, lst) or q in fs for q in b.facts)
                if b.kind != 'next':
                    ctx.decide(False if b.kind == 'break' else None, 'variables', name, L.loc, 'the addresses behind one are left out')
                elif n:
                    ctx.decide(True if some and len(n) == 1 else False if len(n) > 1 or simple else None, 'variables', name, L.loc, 'an address without candidates becomes a variable')
                else:
                    ctx.decide(True if empty else False if simple else None, 'variables', name, L.loc, 'an address with candidates does not become a variable')
        for e, l in events(s.items()):
            args = called(e, 'addConstraint')
            if args is None:
                continue
            k, a = made.get(args[0], (None, ())) if args else (None, ())
            if k != 'ExactFieldSumConstraint' or len(a) < 2 or l:
                ctx.decide(None, 'constraints', name, e.loc, 'an unknown constraint is added')
                continue
            m = a[0].args[1] if a[0].op == 'attr' and a[0].args[0] is metadata else None
            vals = field_of(eng, s, f, a[1])
            if m not in PAIRS or vals is None:
                ctx.decide(None, 'constraints', name, e.loc, 'a constraint of unknown counts or values is added')
                continue
            got[m] = got.get(m, 0) + 1
            scope = args[1] if len(args) > 1 else getattr(e, 'kw', {}).get('variables', NONE)
            if scope is not NONE:
                ctx.decide(all_of(eng, s, scope, program), 'constraints', name, e.loc, 'the constraint of %s holds for some of the addresses only' % m)
            ctx.decide(vals == PAIRS[m], 'constraints', name, e.loc, 'the limits of %s are applied to %s' % (m, vals))
        for m in sorted(PAIRS):
            ctx.decide(True if got.get(m) else False, 'constraints', name, f.where(), 'no constraint of %s is added' % m)


def called(e, meth):
    if e.kind == 'CallUnknown' and e.a[0].op == 'attr' and e.a[0].args[1] == meth:
        return e.a[1]
    if e.kind == 'MCall' and len(e.a) > 2 and e.a[1] == meth:
        return e.a[2] if isinstance(e.a[2], tuple) else (e.a[2],)
    return None


def whole(eng, s, body, t):
    """the list whose elements t holds, all of them; a slice of it when only some"""
    if t.op != 'obj':
        return t
    c = body.state.heap.get((t, '#'))
    if c is None:
        return None
    if c.op == 'mapseq' and len(c.args) > 5:
        i, v, n, filt = c.args[0], c.args[1], c.args[2], c.args[3:]
        src = v.args[0] if v.op == 'elem' and v.args[1] is i else None
        if src is None or n.op != 'len' or n.args[0] is not src:
            return None
        return src if filt[:2] == (TRUE, TRUE) else mk('part', src) if filt[0] is not TRUE and filt[0].op != 'unk' else None
    if c.op in ('copy', 'seq') and c.args and hasattr(c.args[0], 'op'):
        return c.args[0]
    if c.op == 'cat' and len(c.args) == 1:
        return c.args[0]
    return None


def all_of(eng, s, t, program):
    """are these all the addresses with candidates?"""
    c = eng.content(s, t) if t.op == 'obj' else t
    while c is not None and c.op in ('copy', 'keys', 'seq', 'cat') and len(c.args) == 1:
        c = c.args[0]
    if c is program:
        return True
    if c is None or c.op != 'mapseq' or len(c.args) < 4:
        return None
    f = c.args[3]
    for q in (f.args if f.op == 'and_' else () if f is TRUE else (f,)):
        h = signed(q)[1]
        if h.op not in ('ge0', 'gt0', 'eq0'):
            return None
        ns = set(x for m in pd(h.args[0]) for x, e in m)
        if len(ns) != 1 or next(iter(ns)).op != 'len':
            return None
        if not inconsistent((neg_lit(q), cmp_ge(sub(next(iter(ns)), const(1))))):
            return False
    return True


def field_of(eng, s, f, kf):
    """the field of a candidate a function gives, in a list"""
    if kf.op not in ('lambda', 'fn', 'bound'):
        return None
    st = s.fork()
    st.exit = None
    x = mk('sym', 'sortelem')
    r = eng.call(st, Frame(None, f.mod, None, None, 0), f.node, kf, [x], {})
    got = set()
    for v, s2 in r:
        if v.op == 'obj':
            c = s2.heap.get((v, '#'))
            v = c.args[0] if c is not None and c.op in ('cat', 'seq') and len(c.args) == 1 else None
            while v is not None and v.op in ('cat', 'seq', 'unit', 'tuple', 'list') and len(v.args) == 1:
                v = v.args[0]
            got.add(v.args[1] if v is not None and v.op == 'attr' and v.args[0] is x else None)
        elif v.op == 'tuple' and len(v.args) == 1 and v.args[0].op == 'attr' and v.args[0].args[0] is x:
            got.add(v.args[0].args[1])
        elif v.op in ('mcall', 'call') and has(v, x):
            m = v.args[1] if v.op == 'mcall' and v.args[0] is x else v.args[0].args[1] if v.op == 'call' and v.args[0].op == 'attr' and v.args[0].args[0] is x and len(v.args) == 1 else None
            got.add(m)
        else:
            got.add(None)
    return got.pop() if len(got) == 1 else None
