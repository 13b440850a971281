"""C17: the control flow score of a candidate follows the shares of the valid candidates just before and just after it."""
from ..terms import *
from ..prove import prove, inconsistent
from ..report import events, loops_of, conj
from ..shape import *
from ..tally import Reader, atom, relations, plain, clear_all
from .c12 import cell
from .c14 import writer, filed, fact

MOD = 'metadata.recuperator'
ALWAYS = 14
NAMES = ('flag', 'same', 'valid')


def run(ctx):
    ctx.part(score)


def score(ctx):
    f = writer(ctx, '_compute_proper_cfg', 'pcfg')
    if f is None:
        return ctx.unk('filed', 'pcfg', '', 'no method files this score')
    params = [a.arg for a in f.node.args.args]
    if 'inst' not in params or 'addr' not in params:
        return ctx.unk('shape', 'pcfg', f.where(), 'parameters %s' % ', '.join(params))
    I, A = mk('sym', 'inst'), mk('sym', 'addr')
    P = mk('attr', mk('sym', 'self'), '_program')
    M = mk('attr', mk('sym', 'self'), '_model')
    cond = mk('attr', I, 'conditional_field')

    def side(s):
        c = cell(s)
        if s.op == 'dget' or c is None:
            return None
        if c[0] is not P:
            return None
        o = shift_form(c[1], A)
        o = None if o is None else num_val(o)
        return None if o is None else 'prev' if o == -4 else 'next' if o == 4 else 'candidates %d bytes away' % o

    feats = {
        'valid': lambda h, x: -1 if h.op == 'truth' and h.args[0].op == 'attr' and h.args[0].args == (x, 'ignore') else 0,
        'same': lambda h, x: 1 if h is cmp_eq(mk('attr', x, 'conditional_field'), cond) else 0,
        'flag': lambda h, x: 1 if h.op == 'truth' and h.args[0].op == 'mcall' and h.args[0].args[0] is x and h.args[0].args[1] == 'modifies_flags' else 0,
    }
    eng, sts = ctx.run(f, limit=120)
    if not sts:
        return ctx.unk('budget', 'pcfg')
    rel = tuple(relations('prev', ('flag', 'same'), ('valid',)) + relations('next', ('same',), ('valid',)))
    rel += tuple(cmp_ge(sub(atom(l), atom(l, ('valid',)))) for l in ('prev', 'next'))
    for s in sts:
        fs0 = tuple(s.facts)
        if inconsistent(fs0):
            continue
        rd = Reader(eng, list(s.items()), feats, side)
        fs = tuple(rd.canonical(q) for q in fs0)
        if any(q is FALSE for q in fs):
            continue
        fs = tuple(q for q in fs if q is not TRUE) + missing(fs0, P, A) + rel
        if inconsistent(fs):
            continue
        for text, loc in rd.why:
            ctx.bad('count', 'pcfg', loc, text)
        clearly = clear_all(fs)
        for y in {y for q in fs0 for y in vwalk(q)} | {y for ev, ls in events(s.items()) for a in ev.a if isinstance(a, T) for y in vwalk(a)}:
            c = cell(y)
            if c is not None and c[0] is P and not has_op(c[1], 'elem') and not any(h.op == 'in' and h.args[0] is c[1] for h in fs0):
                ctx.decide(False if clearly else None, 'total', 'pcfg', f.where(), 'candidates at %s looked up, which may not be there' % show(c[1]))
        for ev, ls in events(s.items()):
            if ev.kind == 'Div' and not ls:
                d = rd.canonical(ev.a[0])
                facts = tuple(rd.canonical(q) for q in ev.facts) + missing(tuple(ev.facts), P, A) + rel
                if any(q is FALSE for q in facts) or inconsistent(facts):
                    continue
                if all(positive(facts, x) for x in factors(d)):
                    ctx.ok('division', 'pcfg', ev.loc)
                else:
                    ctx.decide(False if clear_all(facts) and plain(d) else None, 'division', 'pcfg', ev.loc, 'division by %s' % show(d)[:160])
        put = filed(s, 'pcfg')
        if fact(fs0, 'ignore') is True:
            continue
        where = put[-1][1].loc if put else f.where()
        if s.exit[0] != 'raise' and not put:
            ctx.decide(False if clearly else None, 'filed', 'pcfg', where, 'no score under %s' % conj(fs0)[-200:])
            continue
        if put and put[-1][2]:
            ctx.unk('filed', 'pcfg', where, 'filed in a loop')
            continue
        v = rd.canonical(put[-1][0]) if s.exit[0] != 'raise' else None
        rows(ctx, s, v, fs, clearly, where, cond, M)


def missing(fs, P, A):
    """nothing there: no candidates counted"""
    out = ()
    for label, d in (('prev', -4), ('next', 4)):
        k = add(A, const(d))
        for q in fs:
            h = q.args[0] if q.op == 'not' else q
            if q.op == 'not' and h.op == 'in' and h.args[0] is k and h.args[1] is P:
                out += (cmp_ge(neg(atom(label))),)
            if q.op == 'not' and h.op == 'truth' and cell(h.args[0]) == (P, k):
                out += (cmp_ge(neg(atom(label))),)
            if q.op == 'isnone' and cell(h.args[0]) == (P, k):
                out += (cmp_ge(neg(atom(label))),)
    return out


def factors(d):
    ms = list(pd(d).items())
    if len(ms) == 1:
        return [a for a, e in ms[0][0]] + [const(ms[0][1])]
    return [d]


def positive(fs, d):
    v = num_val(d)
    if v is not None:
        return v != 0
    return prove(fs, cmp_ge(sub(d, const(1)))) is True


def rows(ctx, s, v, fs, clearly, where, cond, M):
    w = lambda n: mk('attr', M, n)
    V, S, F, U = atom('prev', ('valid',)), atom('prev', ('valid', 'same')), atom('prev', ('valid', 'flag')), atom('prev', ('valid', 'same', 'flag'))
    N, B = atom('next', ('valid',)), atom('next', ('valid', 'same'))
    tests = [cmp_eq(cond, const(ALWAYS)), cmp_ge(sub(F, const(1))), cmp_ge(sub(S, const(1))), cmp_ge(sub(B, const(1)))]
    got = []
    expand(fs, tests, (), got)
    both, prev, cpsr = w('both_conditionals_are_equals'), w('prev_conditionals_are_equals'), w('branch_after_cpsr')
    for always, fl, sm, af in sorted(got):
        if not always and fl and sm:
            E = [mul(w('branch_after_cpsr_and_prev_cond_are_equals'), div(sub(add(S, F), U), V))]
            E += [mul(w('branch_after_cpsr_and_near_cond_are_equals'), div(mul(sub(add(S, F), U), B), mul(V, N)))] if af else []
        elif not always and fl:
            E = [mul(cpsr, div(F, V))]
            E += [mul(w('branch_after_cpsr_and_after_cond_are_equals'), div(mul(F, B), mul(V, N)))] if af else []
        elif always and fl:
            E = [mul(sub(const(1), cpsr), div(F, V))]
        elif sm:
            E = [mul(prev, div(S, V))]
            E += [mul(both, div(mul(S, B), mul(V, N)))] if af else []
        elif always and af:
            E = [mul(prev, div(B, N))]
        else:
            E = []
        name = '%s, flags %s, same before %s, same after %s' % ('unconditional' if always else 'conditional', *('yes' if b else 'no' for b in (fl, sm, af)))
        # the weights of the model are positive
        g = fs + tuple(t if b else neg_lit(t) for t, b in zip(tests, (always, fl, sm, af))) + tuple(cmp_gt(e) for e in E)
        if inconsistent(g):
            continue
        if s.exit[0] == 'raise':
            over = any(says(q, E, lambda e: cmp_gt(sub(e, const(1)))) for q in fs)
            ctx.decide(True if over else (False if clearly else None), 'total', 'pcfg', where, 'fails for %s under %s' % (name, conj(fs)[-200:]))
            continue
        ps = parts(v)
        good = match(ps, E, g) if E else False
        low = v is w('low_probability')
        if low:
            zero = not E or any(says(q, E, lambda e: cmp_eq(e, const(0))) or says(q, E, lambda e: cmp_ge(neg(e))) for q in fs)
            ctx.decide(True if zero else (False if clearly else None), 'row', 'pcfg', where, '%s gets the low probability' % name)
            continue
        ctx.decide(True if good else (False if clearly and plain(v) and not has_op(v, 'min', 'ite') else None), 'row', 'pcfg', where,
                   '%s: the score is %s' % (name, show(v)[:200]))


def parts(v):
    ps = set(v.args) if v.op == 'max' else {v}
    return {p for p in ps if num_val(p) != 0} or {const(0)}


def match(ps, E, fs):
    if ps == set(E):
        return True
    return len(ps) == 1 and list(ps)[0] in E and all(e is list(ps)[0] or prove(fs, cmp_ge(sub(list(ps)[0], e))) is True for e in E)


def says(q, E, lit):
    for es in ([tmax(*E)], [tmax(const(0), *E)], E) if E else ():
        for e in es:
            if q is lit(e):
                return True
    return False


def expand(fs, tests, got, rows):
    if len(got) == len(tests):
        rows.append(got)
        return
    t = tests[len(got)]
    for val, lit in ((True, t), (False, neg_lit(t))):
        if neg_lit(lit) in fs:
            continue
        g = tuple(fs) + (lit,)
        if not inconsistent(g):
            expand(g, tests, got + (val,), rows)
