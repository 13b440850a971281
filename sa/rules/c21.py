"""C21: a scoring pass goes over all addresses upwards and gives every valid candidate every score, each with its own address and function."""
from ..terms import *
from ..prove import prove, inconsistent
from ..report import conj, events
from ..engine import LoopItem, Ev, Alt
from ..trans import at_init, at_next, carried
from ..shape import *
from .c14 import writer, CLS, MOD

WRITERS = (('_compute_conditional', 'pc'), ('_compute_opcode', 'po'), ('_compute_registers', 'pr'), ('_compute_push_pop', 'pupo'),
           ('_compute_branch_address', 'pbd'), ('_compute_register_distance', 'prd'), ('_compute_proper_cfg', 'pcfg'))
CONTEXT = ('prd', 'pcfg')
NAME = '_recover'


def run(ctx):
    ctx.part(scoring)


def paths(trace):
    """[(facts, [event or loop item])] of the straight paths of a trace"""
    outs = [((), [])]
    for it in trace:
        if isinstance(it, Alt):
            outs = [(fs + tuple(f2) + f3, tr + p) for fs, tr in outs for f2, t2 in it.paths for f3, p in paths(t2)]
            if len(outs) > 200:
                return None
        else:
            for fs, tr in outs:
                tr.append(it)
    return outs


def scoring(ctx):
    f = ctx.func(MOD, CLS + '.' + NAME)
    fis = {}
    for n, k in WRITERS:
        w = writer(ctx, n, k)
        if w is None:
            return ctx.unk('writer', k, '', 'no method files this score')
        fis[k] = w
    names = dict((w.name, k) for k, w in fis.items())
    if len(names) != len(fis):
        return ctx.unk('writer', NAME, f.where(), 'several scores are filed by one method')
    eng, sts = ctx.run(f, limit=60, opaque_funcs=tuple(names) + ('collect',))
    if not sts:
        return ctx.unk('budget', NAME)
    for s in sts:
        if inconsistent(tuple(s.facts)) or s.exit[0] == 'raise':
            continue
        one(ctx, f, eng, s, fis, names)


def contains(it, names):
    return any(e.kind == 'Call' and e.a[0].split('.')[-1] in names for e, _ in events([it]))


def one(ctx, f, eng, s, fis, names):
    P = mk('attr', mk('sym', 'self'), '_program')
    FN = mk('attr', mk('sym', 'self'), '_functions')
    tops = [it for it in s.items() if isinstance(it, LoopItem) and contains(it, names)]
    if not tops:
        return ctx.unk('walk', NAME, f.where(), 'no walk over the program')
    if len(tops) > 1:
        # several walks: every one must be over everything, which scores are given is left open
        return ctx.unk('walk', NAME, f.where(), '%d walks over the program' % len(tops))
    top = tops[0]
    L = top.loop
    if L.seq in (None, False):
        return ctx.unk('walk', NAME, L.loc, 'not a walk over a sequence')
    sorts = [(e, ls) for e, ls in events(s.items()) if e.kind in ('Sort', 'Sorted')]
    collected = [a for e, _ in events(s.items()) if e.kind == 'Call' and e.a[0].endswith('.collect') for a in (e.a[1],)]
    for b in L.bodies:
        for e, ls in events(b.trace):
            if e.kind == 'Call' and e.a[0].endswith('MetadataCollector.collect') and not ls and isinstance(e.a[1], (tuple, list)) and len(e.a[1]) > 1:
                what = e.a[1][1]
                if isinstance(what, T) and what is not P and (what.op == 'obj' or known_addr(what, P) or clear(what)):
                    ctx.bad('arguments', 'tables', e.loc, 'the tables are collected again, of %s alone' % show(what)[-100:])
        if b.kind in ('break', 'return'):
            ctx.decide(False if not has_op(conj_t(b.facts), 'fresh') else None, 'walk', NAME, L.loc, 'the walk stops early under %s' % conj(b.facts)[-160:])
    inner_seen = False
    for b in L.bodies:
        if b.kind != 'next' or inconsistent(tuple(b.facts)):
            continue
        ps = paths(b.trace)
        if ps is None:
            ctx.unk('budget', NAME)
            continue
        for ofs, tr in ps:
            ofs = tuple(b.facts) + ofs
            if inconsistent(ofs):
                continue
            loops = [it for it in tr if isinstance(it, LoopItem) and contains(it, names)]
            if not loops:
                ctx.decide(False if plainly(ofs) else None, 'walk', NAME, L.loc, 'the candidates of an address get no score under %s' % conj(ofs)[-200:])
                continue
            if len(loops) > 1 or any(isinstance(it, Ev) and it.kind == 'Call' and it.a[0].split('.')[-1] in names for it in tr):
                ctx.unk('walk', NAME, L.loc, 'several walks over the candidates')
                continue
            inner(ctx, f, eng, s, fis, names, top, ofs, loops[0], P, FN, sorts, collected, b)


def plainly(fs):
    return not any(has_op(q, 'fresh', 'call', 'mcall') for q in fs)


def conj_t(fs):
    return mk('and', *fs) if fs else const(True)


def address_of(seq, P):
    """the key whose candidates are walked"""
    t = seq
    while t.op in ('copy', 'keys'):
        t = t.args[0]
    if t.op == 'index' and t.args[0] is P:
        return t.args[1], None
    if t.op == 'slice' and t.args[0].op == 'index' and t.args[0].args[0] is P:
        return t.args[0].args[1], t
    return None, None


def ascending(top, A, P, sorts):
    """is the address walked over the keys of the program from the smallest to the largest?"""
    L = top.loop
    idx = None
    x = A
    if x.op in ('elem', 'index') and x.args[0].op in ('perm', 'sorted'):
        idx = x.args[1]
        under = x.args[0]
    else:
        if x.op == 'elem' and (x.args[0] is P or x.args[0].op == 'keys'):
            return False if not sorts else None
        return None
    if not mentions(under, P):
        return None
    for e, _ in sorts:
        if e.kind == 'Sort' and len(e.a) > 1 and isinstance(e.a[1], T) and e.a[1].op == 'builtin' and e.a[1].args[0] in ('str', 'repr', 'hex', 'oct', 'bin', 'abs', 'len', 'hash'):
            if e.a[1].args[0] in ('str', 'repr', 'hex', 'oct', 'bin', 'hash'):
                return False
            return None
        rev = [a for a in e.a if isinstance(a, T) and a.op == 'const' and a.args[0] is True] or [a for a in e.a if a is True]
        if rev:
            if idx is L.iota or idx is None:
                return False
            return None
    if not sorts:
        return None
    if idx is L.iota:
        # the whole of it
        n = L.n if hasattr(L, 'n') else None
        r = L.seq
        if r.op == 'range':
            lo, hi = r.args[0], r.args[1]
            d = sub(hi, mk('len', P, mk('v0')))
            if num_val(lo) == 0 and num_val(d) == 0:
                return True
            if num_val(lo) is not None and num_val(d) is not None:
                return False
            return None
        return None if r.op == 'slice' else True
    off = sub(idx, L.iota)
    if num_val(off) is not None:
        r = L.seq
        if r.op == 'range' and num_val(off) > 0:
            return False
        return None
    if num_val(add(idx, L.iota)) is not None or (idx.op == 'poly' and num_val(sub(add(idx, L.iota), mk('len', P, mk('v0')))) is not None):
        return False
    return None


def inner(ctx, f, eng, s, fis, names, top, ofs, it, P, FN, sorts, collected, ob):
    L, I = top.loop, it.loop
    if I.seq in (None, False):
        return ctx.unk('candidates', NAME, I.loc, 'not a walk over a sequence')
    A, cut = address_of(I.seq, P)
    if A is None:
        return ctx.unk('candidates', NAME, I.loc, 'walks over %s' % show(I.seq)[-120:])
    ctx.decide(True if cut is None else False, 'candidates', NAME, I.loc, 'only a part of the candidates: %s' % (show(cut)[-80:] if cut else ''))
    ctx.decide(ascending(top, A, P, sorts), 'ascending', NAME, L.loc, 'the addresses are walked as %s over %s' % (show(A)[-80:], show(L.seq)[-80:]))
    X = I.elem
    ign = mk('truth', mk('attr', X, 'ignore'), mk('v0'))
    for b in I.bodies:
        if b.kind in ('break', 'return'):
            ctx.decide(False if plainly(b.facts) else None, 'candidates', NAME, I.loc, 'the candidates after one with %s get no score' % conj(b.facts)[-120:])
            continue
        if b.kind != 'next':
            continue
        ps = paths(b.trace)
        if ps is None:
            ctx.unk('budget', NAME)
            continue
        for fs, tr in ps:
            fs = tuple(b.facts) + fs
            allf = ofs + fs
            if inconsistent(allf):
                continue
            calls = {}
            for e in tr:
                if isinstance(e, Ev) and e.kind == 'Call' and e.a[0].split('.')[-1] in names:
                    calls.setdefault(names[e.a[0].split('.')[-1]], []).append(e)
            sets = [e for e in tr if isinstance(e, Ev) and e.kind == 'SetAttr' and e.a[1] == 'score_function']
            if any(isinstance(e, LoopItem) and contains(e, names) for e in tr):
                ctx.unk('candidates', NAME, I.loc, 'scores are computed in a further loop')
                continue
            ig = truth_on(allf, X, 'ignore')
            w = I.loc
            if ig is True:
                ctx.decide(not calls, 'ignored', NAME, w, 'an ignored candidate gets scores %s' % ' '.join(sorted(calls)))
                continue
            if ig is None and any(mentions(q, mk('attr', X, 'ignore')) for q in allf):
                ctx.unk('ignored', NAME, w, 'another test of the mark: %s' % conj(fs)[-160:])
                continue
            if ig is None:
                ctx.decide(False if calls and plainly(fs) else None, 'ignored', NAME, w, 'ignored candidates get scores %s' % ' '.join(sorted(calls)))
            first = first_of(top, A, allf, P)
            clear = plainly(fs)
            for n, k in WRITERS:
                es = calls.get(k, [])
                if k in CONTEXT:
                    if first is None:
                        pos = [q for q in allf if mentions(q, L.iota) and (q.args[0] if q.op == 'not' else q).op in ('eq0', 'ge0', 'gt0') and set(walk_atoms(q)) <= {L.iota}]
                        vague = any((q.args[0] if q.op == 'not' else q).op in ('eq0', 'ge0', 'gt0') and A in walk_atoms(q) for q in fs) or not clear
                        at = cmp_eq(L.iota, const(0)) if es else cmp_ge(sub(L.iota, const(1)))
                        hit = not inconsistent(tuple(pos) + (cmp_ge(L.iota), at))
                        ctx.decide(False if hit and not vague else None, 'context', k, es[0].loc if es else w,
                                   '%s under %s' % ('given at the first address too' if es else 'not given at a later address', conj(fs)[-160:]))
                        continue
                    elif first:
                        ctx.decide(not es, 'context', k, es[0].loc if es else w, 'a candidate of the first address gets the score')
                        continue
                    else:
                        ctx.decide(True if es else (False if clear else None), 'context', k, w, 'not given under %s' % conj(fs)[-160:])
                else:
                    ctx.decide(True if es else (False if clear else None), 'given', k, w, 'not given under %s' % conj(fs)[-160:])
                for e in es:
                    arguments(ctx, f, eng, fis[k], k, e, X, A, L, allf, P, FN, sorts, collected)
            ctx.decide(True if sets else (False if clear else None), 'rule', NAME, w, 'the scores of a candidate are not combined for the elimination')
            for e in sets[-1:]:
                ctx.decide(e.a[0] is X or None, 'rule', NAME, e.loc, 'another candidate gets the combination')
                fn = e.a[2]
                ctx.decide(None if fn.op != 'fn' else str(fn.args[0]).split(':')[-1].split('.')[-1] == 'probabilistic_rules_remove_step', 'rule', NAME, e.loc,
                           'the scores are combined by %s' % show(fn))


def truth_on(fs, X, name):
    for q in fs:
        h = q.args[0] if q.op == 'not' else q
        if h.op == 'truth' and h.args[0].op == 'attr' and h.args[0].args[1] == name and h.args[0].args[0] is X:
            return q.op != 'not'
    return None


def first_of(top, A, fs, P):
    """True / False: the address is the first one of the walk on this path"""
    L = top.loop
    pos = (cmp_ge(L.iota),)
    if prove(fs + pos, cmp_ge(sub(L.iota, const(1)))) is True:
        return False
    if prove(fs + pos, cmp_ge(neg(L.iota))) is True:
        return True
    # compared with the smallest address
    for q in fs:
        p, h = (False, q.args[0]) if q.op == 'not' else (True, q)
        if h.op not in ('eq0', 'ge0', 'gt0', 'eq'):
            continue
        low = [y for y in walk(h) if smallest_addr(y, P)]
        if low and mentions(h, A):
            z = {A: low[0]}
            h0 = subst(h, z)
            d = prove((), h0)
            d = True if h0.op == 'const' and h0.args[0] is True else (False if h0.op == 'const' and h0.args[0] is False else d)
            if d is None:
                continue
            if d != p:
                return False         # the literal does not hold at the smallest address
            if h.op in ('eq0', 'eq') and p:
                return True
            if h.op == 'ge0' and p and same_poly(h.args[0], sub(low[0], A)):
                return True
            if h.op == 'gt0' and not p and same_poly(h.args[0], sub(A, low[0])):
                return True
    return None


def walk_atoms(q):
    h = q.args[0] if q.op == 'not' else q
    return [a for m in pd(h.args[0]) for a, _ in m]


def same_poly(a, b):
    return num_val(sub(a, b)) == 0


def smallest_addr(t, P):
    if t.op in ('index', 'elem') and t.args[0].op in ('perm', 'sorted') and mentions(t.args[0], P):
        return num_val(t.args[1]) == 0
    return t.op in ('min', 'agg') and mentions(t, P) and (t.op == 'min' or t.args[0] == 'min')


def largest_addr(t, P):
    if t.op in ('index', 'elem') and t.args[0].op in ('perm', 'sorted') and mentions(t.args[0], P):
        i = t.args[1]
        return num_val(i) == -1 or num_val(sub(i, mk('len', P, mk('v0')))) == -1
    return t.op in ('max', 'agg') and mentions(t, P) and (t.op == 'max' or t.args[0] == 'max')


def known_addr(t, P):
    return t.op in ('index', 'elem') and t.args[0].op in ('perm', 'sorted') and mentions(t.args[0], P) or t.op == 'agg' and mentions(t, P)


def derived(v, P):
    """computed from an address and the number of addresses"""
    if v.op != 'poly':
        return False
    return any(known_addr(a, P) or smallest_addr(a, P) or largest_addr(a, P) for m, c in v.args for a, e in m) and \
        all(known_addr(a, P) or smallest_addr(a, P) or largest_addr(a, P) or a.op == 'len' for m, c in v.args for a, e in m)


def arguments(ctx, f, eng, fi, k, e, X, A, L, fs, P, FN, sorts, collected):
    xs = e.a[1] if isinstance(e.a[1], tuple) else e.a[1:]
    ps = [a.arg for a in fi.node.args.args]
    if len(ps) != len(xs):
        return ctx.unk('arguments', k, e.loc, '%d arguments for %d parameters' % (len(xs), len(ps)))
    got = dict(zip(ps, xs))
    w = e.loc
    for p, v in got.items():
        if p != 'inst' and (v is X or v is P or v is FN or v is L.iota) and p != 'current_fn':
            ctx.bad('arguments', k, w, '%s is %s' % (p, show(v)[-100:]))
        elif p == 'inst':
            ctx.decide(True if v is X else False if v is A or v.op == 'obj' and X.op == 'elem' or known_addr(v, P) else None, 'arguments', k, w, 'scores %s' % show(v)[-100:])
        elif p == 'addr':
            ctx.decide(True if v is A else (False if known_addr(v, P) or num_val(sub(v, A)) is not None else None), 'arguments', k, w, 'with the address %s' % show(v)[-120:])
        elif p == 'cpmd':
            ctx.decide(True if v.op == 'obj' or v.op == 'attr' else False if v is X or v is A or known_addr(v, P) else None, 'arguments', k, w, 'with the table %s' % show(v)[-100:])
        elif p == 'lowest_addr':
            ctx.decide(True if smallest_addr(v, P) else (False if v.op == 'agg' and v.args[1] is FN or known_addr(v, P) or derived(v, P) else None), 'arguments', k, w, 'with the smallest address %s' % show(v)[-120:])
        elif p == 'highest_addr':
            ctx.decide(True if largest_addr(v, P) else (False if v.op == 'agg' and v.args[1] is FN or known_addr(v, P) or derived(v, P) else None), 'arguments', k, w, 'with the largest address %s' % show(v)[-120:])
        elif p == 'current_fn':
            function(ctx, eng, k, w, v, A, L, fs, FN, P)


def function(ctx, eng, k, w, v, A, L, fs, FN, P):
    """the last function start met so far, this address included"""
    inside = [q for q in fs if (q.args[0] if q.op == 'not' else q).op == 'in' and (q.args[0] if q.op == 'not' else q).args[0] is A
              and mentions((q.args[0] if q.op == 'not' else q), FN)]
    if not inside:
        hv = v if v.op == 'hav' and v.args[0] == L.lid else None
        # a function that starts here is not looked at before the scores are computed
        return ctx.decide(False if hv is not None or known_addr(v, P) else None, 'function', k, w, 'with the function %s, whether or not one starts at the address' % show(v)[-100:])
    if any(q.op == 'in' for q in inside):
        return ctx.decide(True if v is A else (False if v.op == 'hav' or known_addr(v, P) else None), 'function', k, w, 'with the function %s where one starts at the address' % show(v)[-100:])
    if not (v.op == 'hav' and v.args[0] == L.lid):
        return ctx.decide(False if v is A or known_addr(v, P) else None, 'function', k, w, 'with the function %s where none starts at the address' % show(v)[-100:])
    key = next((kk for kk, h in L.hav.items() if h is v), None)
    init = at_init(eng, L, v)
    ctx.decide(True if smallest_addr(init, P) else (False if known_addr(init, P) or init.op == 'const' or is_num(init) else None), 'function', k, w,
               'before any function starts the current one is %s' % show(init)[-100:])
    for b in L.bodies:
        if b.kind != 'next' or inconsistent(tuple(b.facts)):
            continue
        nv = eng.get_key(b.state, key)
        lits = [q for q in b.facts if (q.args[0] if q.op == 'not' else q).op == 'in' and (q.args[0] if q.op == 'not' else q).args[0] is A and mentions(q, FN)]
        if not lits:
            ctx.decide(True if nv is v else None, 'function', k, w, 'the current function becomes %s' % show(nv)[-100:])
        elif lits[0].op == 'in':
            ctx.decide(True if nv is A else (False if nv is v or known_addr(nv, P) else None), 'function', k, w, 'after a function start the current function is %s' % show(nv)[-100:])
        else:
            ctx.decide(True if nv is v else (False if known_addr(nv, P) else None), 'function', k, w, 'after an address where no function starts the current function is %s' % show(nv)[-100:])
