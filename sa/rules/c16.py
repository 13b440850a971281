"""C16: what the rules file is combined into the score of the candidate."""
from fractions import Fraction
from ..terms import *
from ..prove import prove, inconsistent
from ..report import events, loops_of, understood, conj
from ..fold import loop_index, steps
from ..shape import *
from ..engine import Ev, LoopItem, Alt
from .c14 import fact

MOD = 'metadata.recuperator'
ALL = ('pc', 'pr', 'prd', 'po', 'pcfg', 'pupo', 'pbd')
BASE = ('pc', 'po', 'pcfg')
CLASS = {'branch': BASE + ('pbd',), 'push or pop': BASE + ('pr', 'pupo'), 'other': BASE + ('pr', 'prd')}
FILED = {'branch': ('pc', 'po', 'pcfg', 'pbd'), 'push or pop': ('pc', 'po', 'pcfg', 'pupo'), 'other': ('pc', 'po', 'pcfg', 'pr', 'prd')}


def run(ctx):
    ctx.part(plain)
    ctx.part(removal)
    ctx.part(names)


def plain(ctx):
    function(ctx, 'probabilistic_rules', False)


def removal(ctx):
    function(ctx, 'probabilistic_rules_remove_step', True)


def function(ctx, name, step):
    f = ctx.func(MOD, name)
    params = [a.arg for a in f.node.args.args]
    if len(params) < 2:
        return ctx.unk('shape', name)
    D, I = mk('sym', params[0]), mk('sym', params[1])
    sets = [('all', ALL)] + [('no ' + k, tuple(x for x in ALL if x != k)) for k in ALL] + [(c, FILED[c]) for c in FILED]
    for label, have in sets:
        facts = tuple(mk('in', const(k), D, mk('v0')) if k in have else neg_lit(mk('in', const(k), D, mk('v0'))) for k in ALL)
        extra = ()
        if label in FILED:
            b, p = [mk('truth', mk('attr', I, a), mk('v0')) for a in ('is_branch', 'is_push_pop')]
            extra = {'branch': (b,), 'push or pop': (neg_lit(b), p), 'other': (neg_lit(b), neg_lit(p))}[label]
        eng, sts = ctx.run(f, facts=facts + extra)
        if sts is None:
            ctx.unk('budget', name)
            continue
        for s in sts:
            if not inconsistent(tuple(s.facts)) and not any(empty(q, D) for q in s.facts):
                state(ctx, eng, s, f, name, label, have, D, I, step)


def empty(q, D):
    """the path takes the scores, which have entries, for empty"""
    return q.op == 'not' and q.args[0].op == 'truth' and q.args[0].args[0] is D or \
        q.op == 'eq0' and q.args[0].op == 'len' and q.args[0].args[0] is D


def entry(t, D):
    """key when t is the score filed under it"""
    if t.op == 'index' and t.args[0] is D and t.args[1].op == 'const':
        return t.args[1].args[0]
    return None


def keys_of(t, D):
    """the factors of t as keys with exponent, and its numeric coefficient; None when t is something else"""
    if num_val(t) is not None:
        return {}, num_val(t)
    out, c = {}, None
    for m, k in pd(t).items():
        if c is not None:
            return None
        c = k
        for a, e in m:
            n = entry(a, D)
            if n is None:
                return None
            out[n] = e
    return out, c


def smallest(eng, t, D, index):
    """t is the smallest score filed (something not below one when there is none)"""
    if t.op == 'agg' and t.args[0] == 'min':
        return True if values_of(t.args[1], D) else None
    if t.op != 'out':
        return None
    r = steps(eng, t, index)
    if r is None or r[0] is None:
        return None
    init, st = r
    if num_val(init) is None:
        return None
    if num_val(init) < 1:
        return False
    for q in st:
        if len(q.chain) != 1:
            return None
        L, b = q.chain[0]
        S = L.seq
        if S is None or not (S.op in ('values', 'items') and S.args[0] is D or S is D or S.op == 'keys' and S.args[0] is D):
            return None
        hv = [h for k, h in L.hav.items() if k[0] == 'env']
        x = next((y for g in tuple(q.facts) + ((q.amount,) if q.amount is not None else ()) for y in walk(g) if y.op == 'index' and y.args[0] is D and y.args[1].op == 'elem'), None)
        if x is None:
            return None
        if b.kind == 'break':
            if q.amount is not None and any(prove(q.facts, cmp_eq(q.amount, const(0))) for _ in (0,)):
                continue
            val = q.amount if q.op == 'set' else None
            vs = [val] if val is not None else hv if q.op == 'keep' else []
            if vs and all(clear(g, allow=hv) for g in q.facts) and all(clear(y, allow=hv) and not inconsistent(tuple(q.facts) + (mk('gt0', y),)) for y in vs):
                return False
            # a small score, not zero, ends the walk
            if vs and all(clear(g, allow=hv) for g in q.facts) and all(clear(y, allow=hv) for y in vs):
                some = {y: const(Fraction(1, 10 ** 6)) for y in vs}
                some.update({h: const(2) for h in hv if h not in some})
                if not any(subst(g, some) is FALSE for g in q.facts if any(y in some for y in walk(g))):
                    return False
            return None
        if q.op == 'keep':
            if not any(prove(q.facts, cmp_ge(sub(x, h))) for h in hv):
                return False if any(has(g, x) for g in q.facts) else None
        elif q.op == 'set' and q.amount is x:
            if not any(prove(q.facts, cmp_ge(sub(h, x))) for h in hv):
                return False
        elif q.op == 'set' and q.amount.op == 'min' and any(a is x for a in q.amount.args) and any(a in hv for a in q.amount.args):
            pass
        elif q.op == 'set' and q.amount.op == 'max':
            return False
        else:
            return None
    return True


def values_of(t, D):
    while t.op in ('copy', 'perm', 'values') and isinstance(t.args[0], T):
        if t.op == 'values':
            return t.args[0] is D
        t = t.args[0]
    return False


def state(ctx, eng, s, f, name, label, have, D, I, step):
    fs = tuple(s.facts)
    construct = '%s/%s' % (name, label)
    index = loop_index(s.items())
    low = None
    for g in fs:
        h = g.args[0] if g.op == 'not' else g
        if h.op in ('eq0', 'ge0', 'gt0'):
            for y in walk(h):
                if y.op in ('out', 'agg') and low is None:
                    ok = smallest(eng, y, D, index)
                    if ok is False:
                        ctx.bad('smallest', construct, f.where(), 'not the smallest score: %s' % show(y)[:80])
                    elif ok:
                        low = y
    zero = low is not None and prove(fs, cmp_eq(low, const(0)))
    pos = low is not None and prove(fs, neg_lit(cmp_eq(low, const(0))))
    ign = fact(fs, 'ignore')
    br, pp = fact(fs, 'is_branch'), fact(fs, 'is_push_pop')
    cls = 'branch' if br else 'push or pop' if br is False and pp else 'other' if br is False and pp is False else None
    clearly = all(clear(q, allow=(low,) if low is not None else ()) for q in fs)
    if s.exit[0] == 'raise':
        if label == 'all' and not range_told(fs, D):
            ctx.decide(False if clearly else None, 'range', construct, f.where(), 'refused under %s' % conj(fs)[-160:])
        return
    if s.exit[0] != 'return' or s.exit[1] is None:
        return ctx.decide(False if clearly else None, 'score', construct, f.where(), 'no score under %s' % conj(fs)[-160:])
    v = s.exit[1]
    n = num_val(v)
    k0 = any(prove(fs, cmp_eq(mk('index', D, const(k), mk('v0')), const(0))) for k in have)
    if n == 0 and step:
        return ctx.decide(True if zero or ign or k0 else (False if clearly else None), 'zero', construct, f.where(), 'score zero under %s' % conj(fs)[-200:])
    if n == 1 and step and ('pc' not in have or 'po' not in have):
        return                # both are always filed
    if n == 1 and step:
        one = only(fs, D, have)
        ctx.decide(one if one is not None else (False if clearly else None), 'one', construct, f.where(), 'score one under %s' % conj(fs)[-200:])
        return ctx.decide(True if pos else (False if clearly else None), 'zero', construct, f.where(), 'score one although a score may be zero')
    if step and (zero or k0):
        return ctx.decide(False if clearly else None, 'zero', construct, f.where(), 'score %s although one is zero' % show(v)[:80])
    if cls is None:
        return ctx.decide(False if clearly and clear(v) else None, 'factors', construct, f.where(), 'score %s for every kind of instruction' % show(v)[:120])
    got = keys_of(v, D)
    if got is None:
        return ctx.decide(False if clear(v) and not has_op(v, 'min', 'max', 'phi', 'ite') else None, 'factors', construct, f.where(), 'score is %s' % show(v)[:160])
    want = {k: 1 for k in CLASS[cls] if k in have}
    ctx.decide(got == (want, 1), 'factors', construct, f.where(), 'score of a %s is the product of %s' % (cls, show(v)[:160]))
    rng = prove(fs, cmp_ge(v)) and prove(fs, cmp_ge(sub(const(1), v)))
    ctx.decide(True if rng else (False if clearly else None), 'range', construct, f.where(), 'returned without being checked')


def range_told(fs, D):
    for g in fs:
        if g.op in ('ge0', 'gt0'):
            for m, k in pd(g.args[0]).items():
                if m and all(entry(a, D) for a, e in m):
                    return True
    return False


def only(fs, D, have):
    """the largest of the condition, opcode and register scores is one"""
    want = {k for k in ('pc', 'po', 'pr') if k in have}
    for g in fs:
        if g.op == 'eq0':
            y = next((y for y in walk(g.args[0]) if y.op == 'max'), None)
            if y is not None:
                o = shift_form(g.args[0], y) if shift_form(g.args[0], y) is not None else None
                if o is None:
                    o = neg(shift_form(neg(g.args[0]), y)) if shift_form(neg(g.args[0]), y) is not None else None
                if o is None or abs(num_val(o) or 0) != 1:
                    return None
                got = {entry(a, D) for a in y.args if num_val(a) is None}
                rest = [num_val(a) for a in y.args if num_val(a) is not None]
                return got == want and all(x < 1 for x in rest)
    eq = {k for k in ('pc', 'po', 'pr') if prove(fs, cmp_eq(mk('index', D, const(k), mk('v0')), const(1)))}
    return True if eq & want else None


# ------------------------------------------------------------ names filed and names read
def names(ctx):
    """every score the recuperator files is one of those the combination reads"""
    import ast
    c = ctx.cls(MOD, 'ProbabilisticRecuperator')
    seen = 0
    for m in c.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute) and n.value.attr == 'scores_by_rule' \
                    and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                seen += 1
                ctx.decide(n.slice.value in ALL, 'name', n.slice.value, '%s line %d' % (m.where(), n.lineno), 'filed under a name no combination reads')
    if not seen:
        ctx.unk('name', 'ProbabilisticRecuperator', '', 'no score is filed under a literal name')
