"""C01: the bit helpers compute exactly the bits they are asked for; bad ranges are refused.

Every path of each helper is summarised; a returning path must carry the facts that make
the range valid and return the specified bit-segment term; a raising path must carry a
fact that makes the range invalid.
"""
from ..terms import *
from .. import num
from ..prove import prove, simple, inconsistent
from ..sample import apart
from ..bitnorm import norm, canon_int, canon_bool, norm_eq0

S = sym


def rng(lo, hi):
    return [cmp_ge(lo), cmp_ge(sub(hi, lo)), cmp_ge(sub(const(31), hi))]


def ranges(ctx, name, names, valid_of, result_of):
    fi = ctx.func('architecture.bits', 'Bits.' + name)
    ps = [a.arg for a in fi.node.args.args]
    if fi.is_static is False and ps[:1] in (['self'], ['cls']):
        ps = ps[1:]
    args = {p: S(p) for p in ps}
    v = [args[p] for p in ps]
    if len(v) < names:
        return ctx.unk('bit-helper', name, fi.where(), 'parameters %s' % ps)
    eng, sts = ctx.run(fi, args=args)
    if sts is None:
        return ctx.unk('bit-helper', name, fi.where(), 'not analysed')
    valid = valid_of(*v)
    want = result_of(*v)
    nret = 0
    for s in sts:
        facts = s.facts
        loc = fi.where()
        if s.exit[0] == 'raise':
            # under a valid range the path must be infeasible
            f = tuple(facts) + tuple(valid)
            if inconsistent(f) or FALSE in f:
                ctx.ok('invalid-only', name, loc, 'raises only outside the range')
            else:
                ctx.decide(False if all(simple(x) for x in facts) else None, 'invalid-only', name, loc,
                           'raises %s for a valid range, under %s' % (show(s.exit[1]), ' & '.join(map(show, facts))))
            continue
        nret += 1
        for l in valid:
            r = prove(facts, l)
            ctx.decide(True if r else (False if all(simple(x) for x in facts) else None), 'range-checked', name, loc,
                       '' if r else 'returns without establishing %s' % show(l))
        got = norm(s.exit[1])
        if want is None:
            ctx.ok('result', name, loc)
        elif got is want:
            ctx.ok('result', name, loc, show(got))
        elif eq_under(facts, got, want):
            ctx.ok('result', name, loc, show(got))
        elif got in (TRUE, FALSE):
            # the decision was taken by a branch
            fs = [norm(f) for f in facts]
            lit = want if got is TRUE else neg_lit(want)
            if lit in fs:
                ctx.ok('result', name, loc, show(got))
            elif neg_lit(lit) in fs or (all(canon_bool(f) for f in fs) and not any(f.op != 'ge0' for f in fs)):
                ctx.bad('result', name, loc, 'answers %s although %s' % (show(got), ' & '.join(map(show, fs))))
            else:
                differs(ctx, name, loc, facts, got, want, valid)
        elif canon_bool(got) if want.op in ('not', 'eq0') else canon_int(got):
            ctx.bad('result', name, loc, 'computes %s instead of %s' % (show(got), show(want)))
        else:
            differs(ctx, name, loc, facts, got, want, valid)
    if nret == 0:
        ctx.bad('result', name, fi.where(), 'no path returns')


def differs(ctx, name, loc, facts, got, want, valid):
    words = {sym(w) for w in ('value', 'value_from', 'value_to')}
    env = None
    if all(x.op in KNOWN for t in tuple(facts) + (got,) for x in walk(t)):
        env = apart(tuple(facts) + tuple(valid), got, want, words)
    if env is None:
        return ctx.unk('result', name, loc, 'computes %s' % show(got))
    ctx.bad('result', name, loc, 'computes %s instead of %s, they differ for %s' % (
        show(got), show(want), ', '.join('%s=%s' % (show(k), hex(v) if v > 99 else v) for k, v in sorted(env.items(), key=lambda x: show(x[0])))))


KNOWN = {'sym', 'poly', 'const', 'pow2', 'floordiv', 'mod', 'max', 'min', 'and', 'or', 'xor', 'bits', 'zero', 'not', 'eq0', 'ge0', 'gt0'}


def eq_under(facts, a, b):
    """bit-segment terms equal when their coordinates are equal under the facts"""
    if a is b:
        return True
    if a.op == 'not' and b.op == 'not':
        return eq_under(facts, a.args[0], b.args[0])
    if a.op == 'eq0' and b.op == 'eq0':
        return eq_under(facts, a.args[0], b.args[0])
    if a.op == 'bits' and b.op == 'bits' and a.args[1] is b.args[1] and len(a.args[0]) == len(b.args[0]):
        for x, y in zip(a.args[0], b.args[0]):
            if x[2] is not y[2]:
                return False
            for i in (0, 1, 3):
                if not prove(facts, cmp_eq(x[i], y[i])):
                    return False
        return True
    if numericish(a) and numericish(b) and a.op != 'bits' and b.op != 'bits':
        return prove(facts, cmp_eq(a, b))
    return False


def bits(segs, bg):
    return mk('bits', tuple(segs), bg)


def on_range(value, lo, hi1):
    return neg_lit(norm_eq0(bits([(lo, hi1, value, const(0))], ZERO)))


def run(ctx):
    one = const(1)
    ranges(ctx, 'check_range', 2, lambda lo, hi: rng(lo, hi), lambda lo, hi: None)
    ranges(ctx, 'set', 2, lambda hi, lo: rng(lo, hi), lambda hi, lo: sub(pow2(add(hi, one)), pow2(lo)))
    ranges(ctx, 'copy_bits', 5,
           lambda vf, vt, a, b, d: rng(a, b) + rng(d, add(d, sub(b, a))),
           lambda vf, vt, a, b, d: bits([(d, add(d, sub(b, a), one), vf, sub(a, d))], vt))
    ranges(ctx, 'are_on', 3, lambda v, hi, lo: rng(lo, hi), lambda v, hi, lo: on_range(v, lo, add(hi, one)))
    ranges(ctx, 'is_on', 2, lambda v, b: [], lambda v, b: on_range(v, b, add(b, one)))
    ranges(ctx, 'on', 1, lambda b: [], lambda b: pow2(b))
