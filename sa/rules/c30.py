"""C30: gaps between addresses, hidden candidates and empty counts never make scoring, elimination, figures or reports fail.

Every division, logarithm, position and look-up by computed address reached on some path is judged with what the path knows.
A count is followed to the loop that makes it: it may be divided by where the path shows that the loop counted something."""
import ast
from ..terms import *
from ..prove import prove, inconsistent, atoms
from ..report import conj, understood
from ..engine import Ev, LoopItem, Alt
from ..fold import loop_index
from ..trans import at_init, at_next
from ..shape import has

SKIP = {'run_recovery', 'Recuperator.recover', 'Recuperator._recover', 'ProbabilisticRecuperator._recover', 'ProbabilisticRecuperator.recover'}
AREAS = ('semantic_codec.metadata', 'semantic_codec.solution', 'semantic_codec.corruption', 'semantic_codec.report', 'semantic_codec.interleaver', 'semantic_codec.probability', 'recover_program')


def run(ctx):
    swept, found = [], {}
    for mn in sorted(ctx.prog.mods):
        if not mn.startswith(AREAS):
            continue
        m = ctx.prog.mods[mn]
        for f in list(m.funcs.values()) + [f for k in m.classes.values() for f in k.methods.values()]:
            if f.qual not in SKIP and any(isinstance(n, (ast.BinOp, ast.Subscript, ast.Call, ast.AugAssign)) for n in ast.walk(f.node)):
                swept.append(f)
    if not swept:
        ctx.unk('sources', 'none')
    for f in swept:
        ctx.part(function, f, found)
    # what a function settles by itself holds wherever it is called from
    settled = {(rule, loc) for (qual, rule, loc, what), rs in found.items() if '(%s)' % qual.split('.')[-1] in loc or '(%s)' % qual in loc
               if all(r for r, _ in rs)}
    settled -= {(rule, loc) for (qual, rule, loc, what), rs in found.items() if ('(%s)' % qual.split('.')[-1] in loc or '(%s)' % qual in loc) and not all(r for r, _ in rs)}
    for (qual, rule, loc, what), rs in found.items():
        own = '(%s)' % qual.split('.')[-1] in loc or '(%s)' % qual in loc
        if not own and (rule, loc) in settled:
            continue
        bad = [fs for r, fs in rs if r is False]
        if bad and own and qual.split('.')[-1].startswith('_'):
            # a helper: what it is given where it is called decides
            calls = [r for (q2, r2, l2, w2), rs2 in found.items() if q2 != qual and (r2, l2) == (rule, loc) for r, _ in rs2]
            if calls and False not in calls:
                bad, rs = [], [(True if all(calls) else None, ())]
        text = {'division': '%s may be zero', 'logarithm': '%s may be zero', 'address': 'looks up %s, which may be no address of the program',
                'position': 'reads %s, which may lie past the end'}[rule] % what
        ctx.decide(False if bad else (None if any(r is None for r, _ in rs) else True), rule, qual, loc, text + (' under %s' % conj(bad[0])[:160] if bad else ''))


def reached(items, facts=()):
    """(event, loops around it, facts of the path taken to it)"""
    for it in items:
        if isinstance(it, Ev):
            yield it, facts
        elif isinstance(it, LoopItem):
            for b in ([it.body] if it.body is not None else []) or it.loop.bodies:
                for x in reached(b.trace, facts + tuple(b.facts) + tuple(it.loop.head_facts or ())):
                    yield x
        elif isinstance(it, Alt):
            for fs, tr in it.paths:
                for x in reached(tr, facts + tuple(fs)):
                    yield x


def function(ctx, f, found):
    eng, sts = ctx.run(f, limit=30)
    if sts is None:
        return ctx.unk('budget', f.qual, f.where())
    merged = any('merged' in n for n in eng.notes)
    for s in sts:
        items = list(s.items())
        loops = loop_index(items)
        for e, facts in reached(items, tuple(s.facts)):
            if e.kind not in ('Div', 'Log', 'Index'):
                continue
            facts = tuple(dict.fromkeys(facts))
            if FALSE in facts:
                continue
            if e.caught:
                found.setdefault((f.qual, {'Div': 'division', 'Log': 'logarithm', 'Index': 'address'}[e.kind], e.loc, 'guarded by a handler'), []).append((True, ()))
                continue
            now = tuple(dict.fromkeys(facts[:0] + tuple(e.facts or ())))
            if e.kind == 'Div':
                r = nonzero(eng, loops, facts, e.a[0])
                if e.kind == 'Div' and r is None:
                    r = nonzero(eng, loops, now, e.a[0])
                rule, what = 'division', 'the divisor %s' % show(e.a[0])[:120]
            elif e.kind == 'Log':
                x = e.a[0]
                r = True if prove(facts, cmp_gt(x)) else (False if prove(facts, cmp_ge(neg(x))) else None)
                rule, what = 'logarithm', 'the argument %s' % show(x)[:120]
            else:
                r = present(now, e)
                if r == ():
                    continue
                rule, what = ('address' if not islist(e) else 'position'), '%s at %s' % (show(e.a[0])[:80], show(e.a[1])[:100])
            if r is False and (inconsistent(facts) or merged):
                r = True if inconsistent(facts) else None
            found.setdefault((f.qual, rule, e.loc, what), []).append((r, facts))


def islist(e):
    return any(isinstance(x, T) and x.op == 'len' for x in walk(e.a[1]))


# ----------------------------------------------------------------- divisors
def nonzero(eng, loops, facts, d):
    """True / False / None; parameters and table contents are the caller's"""
    if num_val(d) is not None:
        return num_val(d) != 0
    if prove(facts, cmp_gt(d)) or prove(facts, neg_lit(cmp_eq(d, const(0)))):
        return True
    if prove(facts, cmp_eq(d, const(0))):
        return False
    c = counter(eng, loops, d)
    if c is not None:
        return counted(eng, c, facts, d)
    if d.op == 'poly' and len(d.args) == 1:
        rs = [nonzero(eng, loops, facts, a) for a, e in d.args[0][0]]
        return False if False in rs else (None if None in rs else True)
    if d.op == 'poly' and len(d.args) == 2 and any(m == () and c > 0 for m, c in d.args):
        rest = [(m, c) for m, c in d.args if m != ()]
        if rest[0][1] > 0 and all(a.op == 'len' or counter(eng, loops, a) for a, e in rest[0][0]):
            return True
    return None


def counter(eng, loops, d):
    """(loop, key, variable at its head, start) for a variable a loop changes"""
    if d.op not in ('out', 'hav') or d.args[0] not in loops:
        return None
    L = loops[d.args[0]]
    for k, hv in L.hav.items():
        if hv is not None and hv.op == 'hav' and (d is hv or d.op == 'out' and eng.key_name(k) == d.args[1]):
            return L, k, hv, at_init(eng, L, hv)
    return None


def change(eng, L, b, k, hv):
    v = eng.get_key(b.state, k)
    return None if v is None else sub(v, hv)


def counted(eng, c, facts, d):
    """is a count made by a loop known to be positive where it is used?"""
    L, k, hv, start = c
    if num_val(start) is None or num_val(start) < 0:
        return None
    if num_val(start) > 0:
        low = True
    else:
        low = False
    steps = []
    for b in L.bodies:
        if b.kind in ('return', 'raise'):
            continue
        x = change(eng, L, b, k, hv)
        if x is None or num_val(x) is None and not never_less(x):
            return None
        if num_val(x) is not None and num_val(x) < 0:
            return None
        steps.append((b, x))
    if low:
        return True
    # something else the same loop counts is known to be positive, and is never counted alone
    for f in facts:
        for o in [x for x in walk(f) if x.op == d.op and x.args[0] is d.args[0] and x is not d]:
            if not (prove((f,), cmp_gt(o)) or prove(facts, cmp_gt(o))):
                continue
            k2 = next((q for q, h in L.hav.items() if h is not None and h.op == 'hav' and (h is o or eng.key_name(q) == o.args[1])), None)
            if k2 is None:
                return None
            h2 = L.hav[k2]
            i2 = at_init(eng, L, h2)
            if num_val(i2) is None or num_val(i2) > 0:
                return None
            alone = [b for b, x in steps if not (num_val(x) or 0) > 0 and eng.get_key(b.state, k2) is not h2]
            if not alone:
                return True
            told = {x for f in facts if f.op in ('ge0', 'gt0', 'eq0', 'not') for x in atoms(f) if x.op == d.op and x.args[0] is d.args[0] and x is not o}
            pd_ = [b for b in alone if all(understood(g) for g in b.facts) and not inconsistent(tuple(b.facts))]
            return False if pd_ and d not in told and not told else None
    if any(x.op == 'exists' and has(x, L.seq) for f in facts for x in walk(f)) if isinstance(L.seq, T) else False:
        return None
    about = [f for f in facts if has(f, d) and not over(f, d)]
    if about and not (all(atoms(f) <= {d} for f in about) and not inconsistent(tuple(about) + (cmp_eq(d, const(0)),))):
        return None
    # an element of the same list known to be counted
    if not isinstance(L.seq, T):
        # a loop written with its own position: the elements it reads
        read = {x for b, x0 in steps for f in b.facts for x in walk(f) if x.op in ('elem', 'index') and any(h is not None and has(x.args[1], h) for h in list(L.hav.values()) + [L.iota])}
        if any(base(x.args[0]) is base(y.args[0]) for x in read for f in facts for y in walk(f) if y.op in ('elem', 'index') and y not in read):
            return None
    else:
        others = {x for f in facts for x in walk(f) if x.op in ('elem', 'index') and base(x.args[0]) is base(L.seq) and x.args[1] is not L.iota and x is not L.elem}
        if others:
            for b, x in steps:
                if (num_val(x) or 0) <= 0:
                    continue
                tests = [f for f in b.facts if has(f, L.elem) and f.op != 'in']
                for o in others:
                    if tests and all(subst(f, {L.elem: o}) in facts for f in tests):
                        return True
            return None
    # nothing on the path speaks about the count: can the loop leave it at its start?
    if any(num_val(x) == 0 for b, x in steps):
        return False
    if any(x.op in ('out', 'agg') or has_loop(x) for b, x in steps):
        return False if all(num_val(x) is None for b, x in steps) else None
    return None


def base(s):
    while isinstance(s, T) and s.op in ('copy', 'perm') and isinstance(s.args[0], T):
        s = s.args[0]
    return s


def over(f, d):
    """speaks about the quotient, after the division"""
    return any(x.op == 'poly' and any(a is d and e < 0 for m, c in x.args for a, e in m) for x in walk(f))


def has_loop(x):
    return any(y.op in ('out', 'agg') for y in walk(x))


def never_less(x):
    """a sum of counts"""
    return x.op in ('out', 'len', 'agg') or x.op == 'poly' and all(c > 0 and all(a.op in ('out', 'len', 'agg') and e > 0 for a, e in m) for m, c in x.args)


# ----------------------------------------------------------------- tables and lists
def present(facts, e):
    box, key = e.a[0], e.a[1]
    if num_val(key) is not None or not (key.op in ('poly', 'hav') or key.op == 'sym' and str(key.args[0]).startswith('i_')):
        return ()
    name = box.args[1] if box.op == 'attr' else (box.args[0] if box.op == 'sym' else None)
    ver = e.a[2] if len(e.a) > 2 else mk('v0')
    if key.op == 'poly' and isinstance(name, str) and name.strip('_').endswith('program') and not any(x.op == 'len' and x.args[0] is box for f in facts + (key,) for x in walk(f)):
        if any(x.op == 'in' and x.args[0] is key and x.args[1] in (box, mk('keys', box)) for x in facts):
            return True
        known = [x for x in facts if x.op == 'in' and x.args[0] is key]
        other = [x for f in facts for x in walk(f) if x.op in ('truth', 'isnone', 'exists', 'call', 'mcall') and has(x, key)]
        loose = any(m == () for m, c in key.args) or any(a.op == 'sym' and str(a.args[0]).startswith('i_') for m, c in key.args for a, e in m)
        if known or other or not loose:
            return None
        # an address computed from another one
        return False
    ln = mk('len', box, ver) if isinstance(ver, T) else None
    if ln is None or not any(has(f, ln) for f in facts):
        return ()
    if prove(facts, cmp_gt(sub(ln, key))):
        return True
    if prove(facts, cmp_ge(sub(ln, key))) or prove(facts, cmp_ge(sub(key, ln))):
        return False
    return ()
