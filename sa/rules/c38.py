"""C38: putting a value in a field of an instruction changes that field and nothing else.

Each setter is summarised on every path; the word it returns is compared bit by bit with the
instruction given, the bits of the field replaced by the low bits of the value.
"""
import itertools
from ..terms import *
from ..bitnorm import norm
from ..bitvec import vec, holds, N
from ..sample import apart

INST, VAL = mk('sym', 'instruction'), mk('sym', 'value')
FIELDS = [('modify_cond', 28, 4), ('modify_opcode', 21, 4), ('modify_rn', 16, 4), ('modify_rd', 12, 4), ('modify_rs', 8, 4), ('modify_rm', 0, 4),
          ('modify_immediate', 0, None)]


def run(ctx):
    for name, lo, width in FIELDS:
        ctx.part(setter, name, lo, width)


def setter(ctx, name, lo, width):
    fi = ctx.func('architecture.instruction_modifier', 'InstructionModifier.' + name)
    ps = [a.arg for a in fi.node.args.args]
    if ps[:1] in (['self'], ['cls']):
        ps = ps[1:]
    if len(ps) < 2:
        return ctx.unk('field set', name, fi.where(), 'parameters %s' % ps)
    eng, sts = ctx.run(fi, args={ps[0]: INST, ps[1]: VAL})
    if sts is None:
        return ctx.unk('field set', name, fi.where(), 'not analysed')
    split = (25, 26, 27) if width is None else ()
    done = 0
    for vals in itertools.product((0, 1), repeat=len(split)):
        inst = [(INST, i) for i in range(32)] + [0] * (N - 32)
        for i, v in zip(split, vals):
            inst[i] = v
        env = {INST: inst, VAL: [(VAL, i) for i in range(N)]}
        w = width or (12 if vals == (0, 1, 0) else 8)
        want = list(inst)
        for i in range(w):
            want[lo + i] = (VAL, i)
        for s in sts:
            hs = [holds(norm(f), env) for f in s.facts]
            if False in hs:
                continue
            sure = None not in hs
            if s.exit[0] == 'raise':
                ctx.decide(False if sure else told(s, lo, w, vals, split, refused=True), 'field set', name, fi.where(), 'raises %s' % show(s.exit[1])[:80])
                continue
            if s.exit[1] is NONE:
                ctx.decide(False if sure else None, 'field set', name, fi.where(), 'gives nothing')
                continue
            got = vec(norm(s.exit[1]), env)
            done += 1
            wrong = [i for i in range(N) if got[i] != want[i] and got[i] is not None]
            lost = [i for i in range(N) if got[i] is None]
            if wrong:
                i = wrong[0]
                ctx.decide(False if sure else told(s, lo, w, vals, split), 'field set', name, fi.where(), 'bit %d of the result is %s, not %s' % (i, what(got[i]), what(want[i])))
            elif lost:
                ctx.decide(told(s, lo, w, vals, split), 'field set', name, fi.where(), 'computes %s' % show(s.exit[1])[:160])
            else:
                ctx.ok('field set', name, fi.where(), 'bits %d to %d%s' % (lo, lo + w - 1, ' when bits 27 to 25 are %d%d%d' % vals[::-1] if vals else ''))
    if not done:
        ctx.bad('field set', name, fi.where(), 'no path returns')


def told(s, lo, w, vals, split, refused=False):
    """a value for which a closed result differs from the one asked for, or is refused"""
    got = norm(s.exit[1]) if not refused else const(-1)
    want = mk('bits', ((const(lo), const(lo + w), VAL, const(-lo)),), INST)
    facts = tuple(norm(f) for f in s.facts) + (cmp_ge(INST), cmp_ge(VAL))
    if refused:
        facts += (cmp_ge(sub(const((1 << w) - 1), VAL)),)
    if split:
        here = mk('bits', ((const(25), const(28), INST, const(0)),), ZERO)
        facts += (cmp_eq(here, const(sum(v << i for v, i in zip(vals, split)))),)
    if not all(x.op in KNOWN for t in facts + (got,) for x in walk(t)):
        return None
    return False if apart(facts, got, want, {INST, VAL}) is not None else None


KNOWN = {'sym', 'poly', 'const', 'pow2', 'floordiv', 'mod', 'max', 'min', 'and', 'or', 'xor', 'bits', 'zero', 'not', 'eq0', 'ge0', 'gt0'}


def what(b):
    return str(b) if not isinstance(b, tuple) else 'bit %d of the %s' % (b[1], b[0].args[0])
