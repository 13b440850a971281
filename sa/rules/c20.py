"""C20: a recovery measures first, then scores and eliminates everywhere until a pass removes nothing, and only then constrains."""
from ..terms import *
from ..prove import prove, inconsistent
from ..report import conj, events
from ..engine import LoopItem, Ev
from ..fold import loop_index, steps
from ..shape import *

MOD = '=recover_program'
NAME = 'run_recovery'
REMOVE = 'remove_bad_candidates_at_addr'
OPAQUE = (REMOVE, 'report', 'collect', 'corrupt', 'from_functions_to_list_and_addr', 'print_report', 'write_binary', 'write', 'recover',
          'from_instruction_dict_to_list', 'from_instruction_list_to_dict', 'build')


def run(ctx):
    ctx.part(driver)


def called(e, name):
    """arguments of the call when the event calls this function or method: (receiver or None, args)"""
    if e.kind == 'Call' and e.a[0].split('.')[-1] == name:
        xs = args_of(e)
        return (xs[0], xs[1:]) if '.' in e.a[0] and xs else (None, xs)
    if e.kind == 'CallUnknown' and isinstance(e.a[0], T):
        f = e.a[0]
        if f.op == 'attr' and f.args[1] == name:
            return f.args[0], args_of(e)
    return None


def args_of(e):
    return [a for a in e.a[1]] if len(e.a) > 1 and isinstance(e.a[1], tuple) else [a for a in e.a[1:] if isinstance(a, T)]


class Flat(object):
    """events of a trace in order, with the loops that surround each"""
    def __init__(self, items):
        self.out = []
        self.go(items, ())

    def go(self, items, chain):
        for it in items:
            if isinstance(it, LoopItem):
                L = it.loop
                for b in ([it.body] if it.body is not None else []) + [b for b in L.bodies if b is not it.body]:
                    self.go(b.trace, chain + ((it, b),))
            elif isinstance(it, Ev):
                self.out.append((it, chain))

    def find(self, name):
        return [(i, e, ch, called(e, name)) for i, (e, ch) in enumerate(self.out) if called(e, name) is not None]


def driver(ctx):
    f = ctx.func(MOD, NAME)
    eng, sts = ctx.run(f, limit=120, opaque_funcs=OPAQUE)
    if not sts:
        return ctx.unk('budget', NAME) if sts is None else ctx.bad('ends', NAME, f.where(), 'the rounds never end')
    done = 0
    for s in sts:
        if s.exit[0] == 'return' and not inconsistent(tuple(s.facts)):
            done += 1
            one(ctx, f, eng, s)
    if not done:
        ctx.unk('exit', NAME, f.where(), 'never ends normally')


def one(ctx, f, eng, s):
    W = f.where()
    flat = Flat(s.items())
    corrupt = flat.find('corrupt')
    if len(corrupt) != 1 or corrupt[0][2]:
        return ctx.unk('shape', NAME, W, '%d calls that corrupt' % len(corrupt))
    ci, ce, _, (crecv, cargs) = corrupt[0]
    P = result(s, flat, ce)
    if P is None:
        return ctx.unk('shape', NAME, ce.loc, 'what the corruptor returns is not followed')
    # the original, and the copy that is corrupted
    ORIG = mk('sym', f.node.args.args[0].arg)
    given = cargs[0] if cargs else None
    copy = given
    if given is not None and given.op == 'call' and len(given.args) > 1:
        copy = given.args[1]
    verdict = copies(eng, s, copy, ORIG)
    ctx.decide(verdict, 'copy', NAME, ce.loc, 'the instructions handed to the corruptor (%s) are those of the original' % show(given)[:120])
    # metadata
    coll = [x for x in flat.find('collect') if not x[2]]
    rec = flat.find('recover')
    made = [(i, e) for i, (e, ch) in enumerate(flat.out) if e.kind == 'CallUnknown' and any(mentions(a, P) or a is P for a in args_of(e)) and
            any(a.op == 'obj' for a in args_of(e) if isinstance(a, T))]
    if not rec and made and not any(e.kind == 'CallUnknown' and e.a[0].op == 'attr' and e.a[0].args[0].op in ('call', 'new', 'obj') and
                                    'recuperator' in show(e.a[0].args[0]) for e, ch in flat.out):
        return ctx.bad('scored', NAME, made[0][1].loc, 'the recovery that is made never scores the candidates')
    if not rec or not made:
        return ctx.unk('shape', NAME, W, 'no recovery by an object made from the metadata and the corrupted program')
    M = next(a for a in args_of(made[0][1]) if isinstance(a, T) and a.op == 'obj')
    mine = [x for x in coll if x[3][0] is M]
    if not mine:
        ctx.decide(False if not any(x[3][0] is None for x in coll) else None, 'metadata', NAME, made[0][1].loc, 'the metadata handed to the recovery is never collected')
    for i, e, ch, (r, a) in mine:
        of = a[0] if a else None
        bad = of is not None and (of is P or mentions(of, P))
        ctx.decide(False if bad or i > ci and of is not None and (of is copy) or partial(eng, s, of) else True, 'metadata', NAME, e.loc, 'metadata is collected from %s' % (
            'the corrupted program' if bad else show(of)[:100] if not partial(eng, s, of) else 'a part of the program only'))
    for i, e in made:
        if not isinstance(e.a[0], T) or e.a[0].op != 'sym' or e.a[0].args[0] not in [x.arg for x in f.node.args.args]:
            continue
        a = args_of(e)
        v = e.kw.get('functions', a[2] if len(a) > 2 else NONE)
        ok = None
        if v is NONE:
            ok = False
        elif v.op in ('index', 'item') and num_val(v.args[1]) == 1 and any(x.op == 'sym' and x is ORIG for x in walk(v)):
            ok = True
        ctx.decide(ok, 'functions', NAME, e.loc, 'the recovery is told the functions: %s' % show(v)[:100])
    # the passes
    loops = [ch[0][0] for i, e, ch, c in rec if ch]
    if not loops or any(l is not loops[0] for l in loops):
        ctx.decide(False if not loops and clear_loopless(flat) else None, 'passes', NAME, rec[0][1].loc, 'the recovery runs once, whatever is removed')
        return
    top = loops[0]
    L = top.loop
    ends = [b for b in ([top.body] if top.body is not None else []) + [b for b in L.bodies if b is not top.body] if b.kind in ('break', 'return', 'next')]
    index = loop_index(s.items())
    for b in ends:
        sub_ = Flat(b.trace)
        rc, rm = sub_.find('recover'), sub_.find(REMOVE)
        ctx.decide(True if rc else None, 'pass', NAME, L.loc, 'a pass without recovery')
        ctx.decide(True if rm else (False if rc else None), 'pass', NAME, L.loc, 'a pass that removes nothing from the program')
        if not rc or not rm:
            continue
        ctx.decide(True if max(x[0] for x in rc) < min(x[0] for x in rm) else False, 'order', NAME, rm[0][1].loc, 'candidates are removed before they are scored')
        for i, e, ch, (r, a) in rm:
            everywhere(ctx, e, ch, a, P)
        # nothing is left in between: recover gets an object made in this pass or earlier from P
        stop = b.kind in ('break', 'return')
        if stop:
            ctx.decide(quiet(eng, b.facts, index, True, L), 'stop', NAME, L.loc, 'the passes end under %s' % conj(b.facts)[-200:])
        elif top.body is not None:
            ctx.decide(quiet(eng, b.facts, index, False, L), 'again', NAME, L.loc, 'another pass is made under %s' % conj(b.facts)[-200:])
    if top.body is None:
        # the condition of the loop, as it reads at the end of each pass
        for b in L.bodies:
            if b.kind != 'next' or inconsistent(tuple(b.facts)):
                continue
            m = {}
            for k in L.hav:
                v = eng.get_key(b.state, k) if k[0] == 'env' else None
                if v is not None:
                    m[mk('out', L.lid, eng.key_name(k))] = v
            qs = [subst(q, m) for q in s.facts if any(mentions(q, o) for o in m)] + list(b.facts)
            if inconsistent(tuple(qs)) or any(q.op == 'const' and q.args[0] is False for q in qs):
                continue
            ctx.decide(quiet(eng, qs, index, True, L), 'stop', NAME, L.loc, 'the passes end under %s' % conj(qs)[-160:])
    # after them
    last = max(i for i, (e, ch) in enumerate(flat.out) if any(it is top for it, b in ch))
    sets = [(i, e, ch) for i, (e, ch) in enumerate(flat.out) if e.kind == 'SetAttr' and e.a[1] == 'score_function' and i > last]
    build = [x for x in flat.find('build')]
    wr = [x for x in flat.find('write_binary') + flat.find('write') if x[0] > last]
    ctx.decide(True if build else None, 'constrain', NAME, W, 'the candidates left are never constrained')
    ctx.decide(True if wr else False if flat.find('write_binary') else None, 'written', NAME, W, 'the result is never written')
    for i, e, ch, (r, a) in build:
        ctx.decide(True if i > last else False, 'constrain', NAME, e.loc, 'constrains before the passes are over')
        ctx.decide(True if sets and min(x[0] for x in sets) < i else (None if sets else False), 'scores', NAME, e.loc, 'constrains with the scores of the elimination')
    for i, e, ch in sets:
        ctx.decide(True if e.a[2].op == 'fn' and str(e.a[2].args[0]).split(':')[-1].split('.')[-1] == 'probabilistic_rules' else
                   (False if e.a[2].op == 'fn' else None), 'scores', NAME, e.loc, 'the final score is %s' % show(e.a[2]))
        everywhere(ctx, e, ch, [e.a[0]], P)
    for i, e, ch, (r, a) in sorted(wr, key=lambda x: x[0])[-1:]:
        ctx.decide(True if a and a[-1] is P else (False if a and all(not mentions(x, P) for x in a) else None), 'written', NAME, e.loc,
                   'what is written is %s' % show(a[-1])[:100] if a else '')
        ctx.decide(True if not build or i > build[-1][0] else False, 'written', NAME, e.loc, 'written before it is constrained')


def partial(eng, s, t):
    """is the list a selection of the instructions of another one?"""
    c = eng.content(s, t) if t is not None and t.op == 'obj' else t
    return c is not None and c.op == 'mapseq' and len(c.args) > 3 and c.args[3] is not TRUE


def clear_loopless(flat):
    return True


def result(s, flat, e):
    """the value of an unknown call"""
    f = e.a[0]
    for i, (x, ch) in enumerate(flat.out):
        for a in x.a:
            for v in (a if isinstance(a, tuple) else (a,)):
                if isinstance(v, T):
                    for y in walk(v):
                        if y.op == 'call' and y.args and y.args[0] is f:
                            return y
    return None


def copies(eng, s, t, orig):
    """does the sequence hold new instructions only?"""
    if t is None:
        return None
    if t is orig or t.op in ('item', 'index') and mentions(t, orig):
        return False
    if t.op == 'call' and mentions(t, orig):
        return None
    c = t
    if t.op == 'obj':
        c = eng.content(s, t)
    if c is not None and c.op == 'mapseq':
        e = c.args[1]
        if e.op == 'new' or e.op == 'obj':
            return True
        if e.op == 'elem':
            return False
        if len(rs) == 1 and all(only(q, y) for q in fs if mentions(q, y)):
            return 'either'
    return None


def only(q, y):
    """the literal compares y with a number"""
    h = q.args[0] if q.op == 'not' else q
    return h.op in ('ge0', 'gt0', 'eq0') and set(pd(h.args[0])) <= {(), ((y, 1),)}


def started(eng, t, top, index):
    """the truth a carried flag has whenever a pass starts: True / False / 'wrong' when it depends on what happened before"""
    if has_op(t, 'call', 'fresh', 'mcall'):
        return None
    vals = set()
    hv = next((k for k, v in top.hav.items() if v is t), None)
    if hv is None:
        return 'wrong' if (has_op(t, 'hav') or mentions(t, top.iota)) and not has_op(t, 'out') else None
    vals.add(truth_const(top.inits.get(hv)))
    for b in top.bodies:
        if b.kind == 'next':
            v = eng.get_key(b.state, hv)
            w = truth_const(v)
            if w is None and v is not None:
                if mk('truth', v, mk('v0')) in b.facts:
                    w = True
                elif neg_lit(mk('truth', v, mk('v0'))) in b.facts:
                    w = False
            vals.add(w)
    if None in vals:
        return None
    return vals.pop() if len(vals) == 1 else 'wrong'


def everywhere(ctx, e, ch, a, P):
    """the call is made once per address of the program"""
    it, b = ch[-1] if ch else (None, None)
    x = a[0] if a else None
    chain = [l for l, _ in ch if l.loop.seq not in (None, False)]
    over = [l for l in chain if l.loop.seq is not False and mentions(l.loop.seq, P)]
    if not over:
        return ctx.unk('everywhere', NAME, e.loc, 'not in a walk over the program')
    l = over[0]
    seq = l.loop.seq
    full = seq.op in ('items', 'values', 'keys') and seq.args[0] is P or seq is P
    cut = seq.op == 'slice' or seq.op in ('slice', 'mapseq') and any(y.op == 'slice' for y in walk(seq))
    ctx.decide(True if full else (False if cut else None), 'everywhere', NAME, e.loc, 'walks over %s' % show(seq)[-120:])
    for l2 in chain:
        if l2 is not l and (l2.loop.seq.op == 'slice' or has_op(l2.loop.seq, 'slice')):
            ctx.decide(False, 'everywhere', NAME, e.loc, 'takes only part of the candidates: %s' % show(l2.loop.seq)[-100:])
    early = [b for b in l.loop.bodies if b.kind in ('break', 'return')]
    ctx.decide(False if early and l.body is not None else (None if early else True), 'everywhere', NAME, e.loc,
               'the walk stops early under %s' % (conj(early[0].facts)[-160:] if early else ''))
    for b in l.loop.bodies:
        if b.kind == 'next' and not any(x2.kind == e.kind and x2.loc == e.loc for x2, _ in Flat(b.trace).out):
            if not has_loops(b):
                plainly = all(not has_op(q, 'fresh') for q in b.facts)
                ctx.decide(False if plainly else None, 'everywhere', NAME, e.loc, 'an address is left out under %s' % conj(b.facts)[-160:])


def has_loops(b):
    return any(isinstance(i, LoopItem) for i in b.trace)


def removed_of(flat):
    """terms for the number removed at an address"""
    out = set()
    for i, e, ch, (r, a) in flat.find(REMOVE):
        for l, b in ch:
            for q in b.facts:
                for y in walk(q):
                    if y.op == 'call' and y.args and REMOVE in show(y.args[0]):
                        out.add(y)
    return out


def is_removed(y):
    return y.op == 'call' and y.args and REMOVE in show(y.args[0])


def quiet(eng, facts, index, want, top):
    """do the facts of the pass say that nothing (want) / something was removed in it?"""
    verdicts = []
    for q in facts:
        pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
        outs = [y for y in walk(h) if y.op == 'out']
        outs = [y for y in outs if not (isinstance(y.args[1], tuple))]
        if len(outs) != 1:
            continue
        r = reading(eng, outs[0], index, top)
        if r is None:
            continue
        kind = r[0]
        if kind == 'flag':                    # r[1]: value when nothing was removed
            if h.op == 'truth':
                verdicts.append((pos == r[1]) == want)
        elif kind == 'count':
            zero = cmp_eq(outs[0], const(0))
            if prove((q, cmp_ge(outs[0])), zero) is True:
                verdicts.append(want)
            elif prove((q, cmp_ge(outs[0])), cmp_ge(sub(outs[0], const(1)))) is True:
                verdicts.append(not want)
            else:
                verdicts.append(False)
        elif kind == 'wrong':
            verdicts.append(False)
    if any(v is True for v in verdicts):
        return True
    if verdicts:
        return False
    return None


def reading(eng, t, index, top):
    """what a value accumulated over the addresses says about the removals: ('flag', value when none), ('count',), ('wrong', why)"""
    st = steps(eng, t, index)
    if st is None:
        return None
    init, ss = st
    if not any(is_removed(y) for x in ss for q in x.facts for y in walk(q)) and not any(x.amount is not None and any(is_removed(y) for y in walk(x.amount)) for x in ss):
        return None
    if all(x.op in ('keep', 'sum') for x in ss) and num_val(init) == 0:
        for x in ss:
            some = state_of(x.facts)
            if x.op == 'keep':
                if some is not False:
                    return ('wrong',) if some in (True, 'either') else None
            elif is_removed(x.amount):
                continue
            elif num_val(x.amount) is not None and num_val(x.amount) > 0:
                if some is not True:
                    return ('wrong',) if some in (False, 'either') else None
            else:
                return None
        return ('count',)
    tv = truth_const(init)
    if tv is None:
        tv = started(eng, init, top, index)
    if tv is None:
        return None
    if tv == 'wrong':
        return ('wrong',)
    for x in ss:
        some = state_of(x.facts)
        if x.op == 'keep':
            if some is not False:
                return ('wrong',) if some in (True, 'either') else None
        elif x.op == 'set':
            v = truth_const(x.amount)
            if v is None:
                # decided by this address alone
                return ('wrong',) if not has_op(x.amount, 'hav', 'out', 'fresh') and any(is_removed(y) for y in walk(x.amount)) else None
            if some == 'either':
                return ('wrong',)
            if some is True and v == tv:
                return ('wrong',)
            if some is False:
                return ('wrong',)              # forgets what happened at the addresses before (or claims a removal)
            if some is None:
                return None
        else:
            return None
    return ('flag', tv)


def truth_const(t):
    if t is None:
        return None
    if t.op == 'const' and isinstance(t.args[0], bool):
        return t.args[0]
    v = num_val(t)
    return None if v is None else bool(v)


def state_of(fs):
    """True: something was removed at this address, False: nothing, None: unknown"""
    rs = set(y for q in fs for y in walk(q) if is_removed(y))
    for y in rs:
        nn = cmp_ge(y)
        if prove(tuple(fs) + (nn,), cmp_ge(sub(y, const(1)))) is True:
            return True
        if prove(tuple(fs) + (nn,), cmp_ge(neg(y))) is True:
            return False
        if len(rs) == 1 and all(only(q, y) for q in fs if mentions(q, y)):
            return 'either'
    return None


def only(q, y):
    """the literal compares y with a number"""
    h = q.args[0] if q.op == 'not' else q
    return h.op in ('ge0', 'gt0', 'eq0') and set(pd(h.args[0])) <= {(), ((y, 1),)}


def started(eng, t, top, index):
    """the truth a carried flag has whenever a pass starts: True / False / 'wrong' when it depends on what happened before"""
    if has_op(t, 'call', 'fresh', 'mcall'):
        return None
    vals = set()
    hv = next((k for k, v in top.hav.items() if v is t), None)
    if hv is None:
        return 'wrong' if (has_op(t, 'hav') or mentions(t, top.iota)) and not has_op(t, 'out') else None
    vals.add(truth_const(top.inits.get(hv)))
    for b in top.bodies:
        if b.kind == 'next':
            v = eng.get_key(b.state, hv)
            w = truth_const(v)
            if w is None and v is not None:
                if mk('truth', v, mk('v0')) in b.facts:
                    w = True
                elif neg_lit(mk('truth', v, mk('v0'))) in b.facts:
                    w = False
            vals.add(w)
    if None in vals:
        return None
    return vals.pop() if len(vals) == 1 else 'wrong'
