"""C15: the score of a branch target follows where it leads."""
from ..terms import *
from ..prove import prove, inconsistent
from ..report import events, loops_of, understood, conj
from ..shape import *
from .c12 import cell
from .c14 import writer, filed, fact

MOD = 'metadata.recuperator'
MODEL = ('just_any_jump_is_valid', 'branch_to_this_method', 'branch_to_other_method_start')


def run(ctx):
    ctx.part(branch)


def branch(ctx):
    f = writer(ctx, '_compute_branch_address', 'pbd')
    if f is None:
        return ctx.unk('filed', 'pbd', '', 'no method files this score')
    eng, sts = ctx.run(f)
    if not sts:
        return ctx.unk('budget', 'pbd')
    for s in sts:
        fs = tuple(s.facts)
        if inconsistent(fs):
            continue
        if any(q.op == 'isnone' and q.args[0].op == 'index' and q.args[0].args[0].op == 'attr' and q.args[0].args[0].args[1] == '_functions' for q in fs):
            continue                    # the functions are pairs
        skip = fact(fs, 'ignore') is True or fact(fs, 'is_branch') is False
        clearly = all(clear(q) for q in fs)
        if s.exit[0] == 'raise':
            ctx.decide(False if clearly else None, 'total', 'pbd', f.where(), 'fails under %s' % conj(fs)[-200:])
            continue
        put = filed(s, 'pbd')
        if skip:
            ctx.decide(not put or None, 'optional', 'pbd', f.where(), 'filed under %s' % conj(fs)[-120:])
            continue
        if not put:
            ctx.decide(False if clearly else None, 'filed', 'pbd', f.where(), 'no score under %s' % conj(fs)[-200:])
            continue
        if len(put) > 1 or put[0][2]:
            ctx.unk('filed', 'pbd', put[0][1].loc, 'filed in another way')
            continue
        if fact(fs, 'is_branch') is None:
            ctx.decide(False if clearly else None, 'optional', 'pbd', put[0][1].loc, 'an instruction that does not branch gets the score')
        v, ev, _ = put[0]
        row(ctx, f, v, ev, fs, clearly)


def kind(v):
    """the row of the table a value belongs to"""
    for y in walk(v):
        if y.op == 'attr' and y.args[1] in MODEL:
            l = linear(v, y)
            if l is None or num_val(l[0]) is None or num_val(l[1]) != 0:
                return None
            return y.args[1], num_val(l[0])
    return None


EXPECT = {'unknown': ('just_any_jump_is_valid', 2), 'this': ('branch_to_this_method', 1), 'start': ('branch_to_other_method_start', 1),
          'outside': ('just_any_jump_is_valid', 1), 'else': ('just_any_jump_is_valid', 2)}


def row(ctx, f, v, ev, fs, clearly):
    k = kind(v)
    if k is None:
        return ctx.decide(False if clear(v) and num_val(v) is not None else None, 'row', 'pbd', ev.loc, 'score is %s' % show(v)[:120])
    params = [a.arg for a in f.node.args.args]
    P = {n: mk('sym', n) for n in params}
    if not all(n in P for n in ('inst', 'current_fn', 'lowest_addr', 'highest_addr')):
        return ctx.unk('row', 'pbd', f.where(), 'parameters %s' % ', '.join(params))
    j = mk('attr', P['inst'], 'jumping_address')
    F = mk('attr', mk('sym', 'self'), '_functions')
    cf, lo, hi = P['current_fn'], P['lowest_addr'], P['highest_addr']
    end = next((y for q in fs for y in walk(q) if y.op == 'index' and cell(y.args[0]) == (F, cf) and num_val(y.args[1]) == 1), None)
    wrong_end = next((y for q in fs for y in walk(q) if y.op == 'index' and cell(y.args[0]) == (F, cf) and num_val(y.args[1]) != 1), None)
    if end is None:
        end = mk('index', mk('index', F, cf, mk('v0')), const(1), mk('v0'))
    if any(has(q, mk('index', F, cf, mk('v0'))) for q in fs) and tests_in(fs, cf, F) is None:
        ctx.decide(False if clearly else None, 'total', 'pbd', ev.loc, 'fails when the code is in no known function')
    none = mk('isnone', j)
    tests = [none, mk('in', cf, F, mk('v0')), cmp_ge(sub(j, cf)), cmp_ge(sub(end, j)), mk('in', j, F, mk('v0')), cmp_ge(sub(j, hi), const(1)) if False else cmp_ge(sub(sub(j, hi), const(1))), cmp_ge(sub(sub(lo, j), const(1)))]
    rows = set()
    expand(fs, tests, [], rows)
    bad = sorted(r for r in rows if EXPECT[r] != k)
    msg = 'a target that is %s scores %s times %s' % (' or '.join(bad), float(k[1]), k[0])
    if bad and wrong_end is not None:
        return ctx.bad('row', 'pbd', ev.loc, msg)
    ctx.decide(True if not bad else (False if clearly else None), 'row', 'pbd', ev.loc, msg)


def expand(fs, tests, got, rows):
    n = len(got)
    if n and got[0] is True:
        rows.add('unknown')
        return
    if n == 4 and got[1] and got[2] and got[3]:
        rows.add('this')
        return
    if n == 5 and got[4]:
        rows.add('start')
        return
    if n == 6 and got[5]:
        rows.add('outside')
        return
    if n == 7:
        rows.add('outside' if got[6] else 'else')
        return
    t = tests[n]
    for val, lit in ((True, t), (False, neg_lit(t))):
        if lit in fs:
            return expand(fs, tests, got + [val], rows)
        if neg_lit(lit) in fs:
            continue
        g = tuple(fs) + (lit,)
        if not inconsistent(g):
            expand(g, tests, got + [val], rows)


def tests_in(fs, k, D):
    for q in fs:
        h = q.args[0] if q.op == 'not' else q
        if h.op == 'in' and h.args[0] is k and h.args[1] is D:
            return q.op != 'not'
    return None
