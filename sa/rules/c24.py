"""C24: the push-pop score looks for the counterpart at the other end of the function."""
import ast
from ..terms import *
from ..prove import inconsistent
from ..report import conj, events
from ..engine import LoopItem, Ev, Alt
from ..fold import loop_index, steps, init_of, filtered
from ..shape import *

MOD = 'metadata.recuperator'
CLS = 'ProbabilisticRecuperator'
NAME = '_compute_push_pop'
PC, LR, SP = 15, 14, 13
SELF = mk('sym', 'self')


def run(ctx):
    for f in (score, helper):
        ctx.part(f)


def helpers(c, f):
    """methods called with 'push' or 'pop' besides is_a: name -> FuncInfo"""
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
            vals = list(n.args) + [k.value for k in n.keywords]
            if any(isinstance(a, ast.Constant) and a.value in ('push', 'pop') for a in vals):
                g = c.find(n.func.attr)
                if g is not None:
                    out[n.func.attr] = g
    return out


def spec_of(g):
    """parameter names of a helper, without self"""
    return [a.arg for a in g.node.args.args][1:]


# ---------------------------------------------------------------- the score

def score(ctx):
    c = ctx.cls(MOD, CLS)
    f = ctx.func(MOD, CLS + '.' + NAME)
    hs = helpers(c, f)
    if len(hs) != 1:
        return ctx.unk('helper', NAME, f.where(), 'the counterpart is searched by %s' % (sorted(hs) or 'the method itself'))
    (hn, hf), = hs.items()
    eng, sts = ctx.run(f, limit=90, opaque_funcs=(hn,))
    if not sts:
        return ctx.unk('budget', NAME)
    ps = [mk('sym', a.arg) for a in f.node.args.args]
    if len(ps) < 5:
        return ctx.unk('absent', NAME, f.where(), 'parameters')
    inst, addr, fn = ps[1], ps[3], ps[4]
    index = loop_index([it for s in sts for it in s.items()])
    checked = set()
    ctx.rewards = {weight(x) for s in sts for e, l in events(s.items()) if e.kind == 'SetItem' for x in walk(e.a[2]) if x.op == 'attr'}
    for s in sts:
        fs = tuple(s.facts)
        if inconsistent(fs) or s.exit[0] != 'return':
            continue
        is_ = {}
        for q in fs:
            pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
            if h.op == 'truth' and h.args[0].op == 'mcall' and h.args[0].args[0] is inst and h.args[0].args[1] == 'is_a':
                a = [x.args[0] for x in h.args[0].args[2:] if x.op == 'const' and isinstance(x.args[0], str)]
                if len(a) == 1:
                    is_[a[0]] = pos
        sets = [it for it in s.items() if isinstance(it, Ev) and it.kind == 'SetItem' and it.a[1].op == 'const' and it.a[1].args[0] == 'pupo']
        if is_.get('push') and is_.get('pop'):
            continue
        if is_.get('push') is False and is_.get('pop') is False:
            ctx.decide(not sets, 'only', NAME, f.where(), 'something else than a push or pop gets the score')
            continue
        kind = 'push' if is_.get('push') else 'pop' if is_.get('pop') else None
        if kind is None:
            if not sets and any(x.op == 'attr' and x.args[1] == 'scores_by_rule' and x.args[0] is inst for q in fs for x in walk(q)):
                ctx.bad('only', NAME, f.where(), 'an instruction keeps the score it came with')
                continue
            odd = [q for q in fs if mentions(q, inst) and 'is_a' in show(q)]
            if not sets and is_.get('push') is False:
                ctx.decide(False if not odd else None, 'only', NAME, f.where(), 'a pop gets no score')
                continue
            if not sets and is_.get('pop') is False:
                rest = [q for q in fs if mentions(q, inst) and not ((q.args[0] if q.op == 'not' else q).op == 'truth' and (q.args[0] if q.op == 'not' else q).args[0].op == 'mcall' and 'is_a' == (q.args[0] if q.op == 'not' else q).args[0].args[1])]
                ctx.decide(False if not rest else None, 'only', NAME, f.where(), 'a push gets no score')
                continue
            odd = [q for q in odd if not (q.op == 'not' and 'push' in show(q) or q.op != 'not' and False)] if is_.get('push') is False else odd
            ctx.decide(False if sets and not odd else None, 'only', NAME, f.where(), 'what the instruction is does not matter')
            continue
        if len(sets) != 1:
            ctx.decide(False if not sets else None, 'only', NAME, f.where(), 'a %s gets %s scores under %s' % (kind, len(sets), conj(fs)[-160:]))
            continue
        ev = sets[0]
        start = None
        fns = None
        for q in fs:
            pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
            if h.op == 'in' and h.args[1].op == 'attr' and 'functions' in h.args[1].args[1]:
                if h.args[0] is addr:
                    start, fns = pos, h.args[1]
                elif kind == 'push':
                    ctx.bad('counterpart', NAME, f.where(), 'a push depends on whether a function starts at %s' % show(h.args[0]))
        calls = sorted(set(x for q in list(fs) + [ev.a[2]] for x in walk(q) if x.op == 'call' and show(x.args[0]).rstrip(')').endswith('.' + hn)), key=show)
        if len(calls) > 1:
            ctx.unk('counterpart', NAME, ev.loc, 'several searches')
            continue
        H = calls[0] if calls else None
        if H is not None:
            args = arguments(H, hf)
            if args is None:
                ctx.unk('counterpart', NAME, ev.loc, 'arguments %s' % show(H)[:160])
                continue
            op, where, regs = args
            ctx.decide(op == {'push': 'pop', 'pop': 'push'}[kind], 'counterpart', NAME, ev.loc, 'a %s searches for a %s' % (kind, op))
            want = None
            if kind == 'pop':
                ok = True if where is fn else (False if where is addr or mentions(where, addr) else None)
            else:
                entry = where.args[0] if where.op == 'index' else None
                ok = None
                if entry is not None and entry.op == 'index' and entry.args[1] is addr and num_val(where.args[1]) is not None:
                    ok = num_val(where.args[1]) == 1
                elif where is addr or where is fn:
                    ok = False
            ctx.decide(ok, 'counterpart', NAME, ev.loc, 'the counterpart of a %s is searched at %s' % (kind, show(where)[:100]))
            r = {'push': 'registers_read', 'pop': 'registers_written'}[kind]
            ok = True if regs.op == 'mcall' and regs.args[0] is inst and regs.args[1] == r else (False if regs.op == 'mcall' and regs.args[0] is inst else None)
            ctx.decide(ok, 'counterpart', NAME, ev.loc, 'compared with the registers %s' % show(regs)[:80])
        elif kind == 'pop' or start:
            ctx.bad('counterpart', NAME, ev.loc, 'a %s is scored without its counterpart' % kind)
            continue
        if kind == 'push' and start is None:
            ctx.decide(None if H is None or any(x.op == 'attr' and 'functions' in x.args[1] for q in fs for x in walk(subst(q, {H: mk('sym', 'found')}))) else False, 'counterpart', NAME, ev.loc, 'a push is scored wherever it is')
            continue
        judge(ctx, eng, index, s, fs, ev, H, kind, start, addr, checked)


def arguments(H, hf):
    """(opcode, address, registers) handed to the helper, told by what they are"""
    a = list(H.args[2:])
    op = [x.args[0] for x in a if x.op == 'const' and x.args[0] in ('push', 'pop')]
    regs = [x for x in a if x.op == 'mcall' and 'registers' in x.args[1]]
    rest = [x for x in a if not (x.op == 'const' and x.args[0] in ('push', 'pop')) and x not in regs]
    if len(op) != 1 or len(regs) != 1 or len(rest) != 1:
        return None
    return op[0], rest[0], regs[0]


def judge(ctx, eng, index, s, fs, ev, H, kind, start, addr, checked):
    v = ev.a[2]
    terms = list(v.args) if v.op == 'max' else [v]
    if v.op == 'min' or v.op == 'poly' and any(x.op == 'min' for x in walk(v)):
        ctx.bad('weights', NAME, ev.loc, 'the score is %s' % show(v)[:160])
        return
    p1 = mk('index', H, const(0), None) if False else None
    eq = end = mid = None
    useless = set()
    for q in fs:
        pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
        if H is not None and h.op == 'truth' and part_of(h.args[0], H) == 1:
            eq = pos
        k = sign(h, lambda a: weight(a) is not None)
        if k is not None:
            if (pos == k[0]) is False and k[1] <= 0:
                useless |= set(weight(a) for a in walk(h) if weight(a))
            continue
        k = sign(h, lambda a: H is not None and part_of(a, H) == 0)
        if k is not None:
            if k[1] != 0:
                ctx.bad('weights', NAME, ev.loc, 'the counterpart counts above %s' % k[1])
                return
            end = pos == k[0]
        k = sign(h, lambda a: a.op in ('out', 'hav') and a.args[0] in index and 'p2' in show(a) or a.op in ('out', 'hav') and a.args[0] in index and middle(eng, index, a) is not None)
        if k is not None and not mentions(h, SELF):
            mid = pos == k[0]
    got, other = set(), []
    for t in terms:
        w = weight(t)
        if w:
            got.add(w)
        elif base(t, addr):
            got.add('base')
        elif num_val(t) is not None and num_val(t) <= 0:
            pass
        elif H is not None and part_of(t, H) == 0 and end is False:
            pass
        elif t.op in ('out', 'hav') and mid is False:
            pass
        else:
            other.append(t)
    if other:
        # the counts of the middle search themselves, where no path takes the reward for it
        raw = mid is None and 'middle' not in ctx.rewards
        wrong = all(is_base_like(t) or part_of(t, H) is not None and H is not None or raw and of_counts(eng, index, t) for t in other)
        wrong = wrong or all(is_base_like(t) or bent(t) for t in other)
        ctx.decide(False if wrong else None, 'weights', NAME, ev.loc, 'the score of a %s is %s' % (kind, show(v)[:200]))
        return
    loops = [it.loop for it in s.items() if isinstance(it, LoopItem)]
    # the base or the reward for equal registers
    if H is None:
        want = {'base'}
    elif eq is None or end is None:
        ctx.decide(False if eq is None and not any(part_of(x, H) == 1 for q in fs for x in walk(q)) and ('equal' in got or 'base' in got) and len(terms) > 0 and v.op in ('max', 'attr', 'poly')
                   else None, 'weights', NAME, ev.loc, 'the score of a %s is %s under %s' % (kind, show(v)[:120], conj(fs)[-120:]))
        return
    else:
        want = {'equal'} if eq else {'base'}
        if end:
            want.add('end')
    if kind == 'push' and start:
        if mid is None:
            m = [x for L in loops for x in (L,)]
            # no search in the middle, or one that found nothing by construction
            if 'middle' in got:
                other_way(ctx, eng, index, s, fs, ev, loops, addr, True)
                got.discard('middle')
            elif loops:
                other_way(ctx, eng, index, s, fs, ev, loops, addr, False)
            else:
                ctx.bad('weights', NAME, ev.loc, 'pops in the middle of the function are not searched')
        elif mid:
            want.add('middle')
    # a reward that is no gain need not be asked for
    want, got = want - useless, got - useless
    ctx.decide(got == want, 'weights', NAME, ev.loc, 'the score of a %s takes %s instead of %s' % (kind, ' '.join(sorted(got)), ' '.join(sorted(want))))
    for L in loops:
        if L.lid in checked:
            continue
        checked.add(L.lid)
        if kind == 'push':
            walk_middle(ctx, L, addr)
            early(ctx, eng, index, L)
    for t in set(x for q in fs for x in walk(q) if x.op == 'out' and x.args[0] in index and index[x.args[0]] in loops):
        if t in checked:
            continue
        checked.add(t)
        m = middle(eng, index, t)
        if m is not None:
            ctx.decide(m if m in (True, False) else None, 'middle', NAME, index[t.args[0]].loc, 'the value for the middle is %s' % show(t))


def part_of(t, H):
    if t.op == 'index' and t.args[0] is H:
        v = num_val(t.args[1])
        return None if v is None else int(v)
    if t.op == 'poly':
        d = pd(t)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                return part_of(m[0][0], H)
    return None


def sign(h, pick):
    """(True, k): the literal says x > k; (False, k): it says x <= k"""
    if h.op not in ('gt0', 'ge0', 'eq0'):
        return None
    d = dict(pd(h.args[0]))
    k = d.pop((), 0)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    if len(m) != 1 or m[0][1] != 1 or not pick(m[0][0]):
        return None
    z = -k / c
    if h.op == 'eq0':
        # x != k for a count is x > k only at zero
        return (False, 0) if z == 0 else (True, z)
    if h.op == 'gt0':
        if c > 0:
            return (True, z)
        # x < k
        return (False, z - 1) if int_like(h.args[0]) and z == int(z) else (False, z) if z == 0 else None
    if c > 0:
        # x >= k
        return (True, z - 1) if int_like(h.args[0]) and z == int(z) else (True, z)
    return (False, z)


def weight(t):
    if t.op != 'attr':
        return None
    n = t.args[1]
    if 'push_given_pop' not in n:
        return None
    return 'equal' if n.endswith('equal_registers') else 'end' if n.endswith('fn_end') else 'middle' if n.endswith('fn_middle') else None


def of_counts(eng, index, t):
    """made only of what loops of this function counted"""
    d = pd(t)
    ls = [a for m, c in d.items() for a, e in m]
    return bool(ls) and all(a.op in ('out', 'hav') and a.args[0] in index for a in ls)


def base(t, addr):
    """1 / number of candidates at the address"""
    d = pd(t)
    if len(d) != 1:
        return False
    (m, c), = d.items()
    if c != 1 or len(m) != 1 or m[0][1] != -1 or m[0][0].op != 'len':
        return False
    x = m[0][0].args[0]
    return x.op == 'index' and x.args[0].op == 'attr' and 'program' in x.args[0].args[1] and x.args[1] is addr


def is_base_like(t):
    d = pd(t)
    return len(d) == 1 and all(len(m) == 1 and m[0][1] == -1 and m[0][0].op == 'len' and m[0][0].args[0].op in ('index', 'attr') for m in d)


def bent(t):
    """the share with a bound put on the number of candidates"""
    d = pd(t)
    if len(d) != 1:
        return False
    (m, c), = d.items()
    return len(m) == 1 and m[0][1] == -1 and m[0][0].op in ('max', 'min') and any(num_val(x) is not None and num_val(x) != 1 for x in m[0][0].args) and all(
        num_val(x) is not None or x.op == 'len' for x in m[0][0].args)


# ---------------------------------------------------------------- pops in the middle

def walk_middle(ctx, L, addr):
    if L.seq is False or L.seq is None or L.seq.op != 'range':
        return
    a, b, st = L.seq.args[:3]
    last = a.op == 'index' and a.args[0].op == 'index' and a.args[0].args[1] is addr and num_val(a.args[1]) == 1
    if last and num_val(st) is not None:
        ctx.decide(b is addr and num_val(st) == -4, 'middle', NAME, L.loc, 'pops are searched at %s' % show(L.seq)[:140])
    else:
        wrong = num_val(st) is not None and (num_val(st) > 0 or any(y.op == 'index' and y.args[1] is addr for y in walk(a)))
        ctx.decide(False if wrong else None, 'middle', NAME, L.loc, 'pops are searched at %s' % show(L.seq)[:140])


def early(ctx, eng, index, L):
    """the search may only be left for what it counted"""
    for b in L.bodies:
        if b.kind != 'break' or inconsistent(tuple(b.state.facts)):
            continue
        if any(x.op in ('hav', 'out') and x.args[0] in index for q in b.facts for x in walk(q)):
            continue
        fs = [q for q in b.facts if q.op != 'ge0']
        if fs and L.seq and L.seq.op == 'range' and all(
                any(x.op == 'attr' and 'program' in x.args[1] for x in walk(q)) and not any(x.op in ('mcall', 'call') for x in walk(q)) for q in fs):
            ctx.bad('middle', NAME, L.loc, 'the search stops at the first address with %s' % conj(fs)[:140])


def counter(eng, index, t):
    """what the accumulator t counts: 'pop' / 'branch' / 'valid', with 'before' when it is the value before this address; None if unclear, False if wrong"""
    late = False
    if t.op == 'hav' and t.args[0] in index:
        L = index[t.args[0]]
        key = next((k for k, h in L.hav.items() if h is t), None)
        if key is None:
            return None
        late = True
        vals = set()
        for b in L.bodies:
            v = eng.get_key(b.state, key)
            if v is not None and v is not t:
                vals.add(v)
        ini = init_of(eng, L, key)
        if ini is None or num_val(ini) != 0 or len(vals) != 1:
            return None
        v = vals.pop()
        if v.op == 'hav':                     # a copy of another one at the beginning of the address
            r = counter(eng, index, v)
            return None if not r else (r[0], True)
        r = counter(eng, index, v)
        return None if not r else (r[0], True)
    if t.op != 'out' or t.args[0] not in index:
        return None
    L = index[t.args[0]]
    r = steps(eng, t, index)
    if r is None:
        return None
    kinds = set()
    for st in r[1]:
        ign = pop = br = None
        odd = False
        for q in st.facts:
            pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
            if h.op != 'truth':
                continue
            x = h.args[0]
            if x.op == 'attr' and x.args[0] is L.elem and x.args[1] == 'ignore':
                ign = pos
            elif x.op == 'attr' and x.args[0] is L.elem and x.args[1] == 'is_branch':
                br = pos
            elif x.op == 'mcall' and x.args[0] is L.elem and x.args[1] == 'is_a' and x.args[2].op == 'const':
                if x.args[2].args[0] == 'pop':
                    pop = pos
            elif mentions(h, L.elem) and not (x.op == 'attr' and x.args[0] is L.elem or x.op == 'mcall' and x.args[0] is L.elem and x.args[1] == 'is_a'):
                odd = True
        kinds.add((st.op, num_val(st.amount) if st.amount is not None else None, ign, pop, br, odd))
    if any(k[0] not in ('keep', 'sum') or k[0] == 'sum' and (k[1] is None or k[1] <= 0) for k in kinds):
        return None
    up = [k for k in kinds if k[0] == 'sum']
    down = [k for k in kinds if k[0] == 'keep']
    if not up:
        return None
    if any(k[2] is None or k[2] for k in up):
        return False                          # ignored candidates count
    if all(k[3] for k in up):
        what = 'pop'
        if any(k[3] is not False and not k[2] for k in down):
            return None
    elif all(k[4] for k in up):
        what = 'branch'
        if any(k[4] is not False and not k[2] for k in down):
            return None
    else:
        if any(not k[2] for k in down):
            return False if not any(k[5] for k in kinds) else None
        what = 'valid'
    return (what, late)


def middle(eng, index, t):
    """is t a value that is positive exactly when pops and later branches were counted? None when t is something else"""
    L = index.get(t.args[0])
    if L is None:
        return None
    r = steps(eng, t, index)
    if r is None:
        return None
    sets = [x for x in r[1] if x.op != 'keep']
    if not sets:
        return None
    out = True
    for x in sets:
        if x.op != 'set' or x.amount is None:
            return None
        r = product(eng, index, x.amount)
        if not r:
            return r
    return out


def product(eng, index, t):
    """is t positive exactly when pops and later branches were counted?"""
    d = pd(t)
    if len(d) != 1:
        # a sum is positive with one of them alone
        return False if any(a.op == 'out' and counter(eng, index, a) for m in d for a, e in m) else None
    (m, c), = d.items()
    num = [counter(eng, index, a) for a, e in m if e > 0]
    if any(n is False for n in num):
        return False
    if any(n is None for n in num) or c <= 0:
        return None
    kinds = sorted(num)
    if not kinds:
        return None
    if [k for k, late in kinds] != ['branch', 'pop']:
        return False
    if not [late for k, late in kinds if k == 'branch'][0]:
        return False                          # the pop itself may be the branch
    return True


def other_way(ctx, eng, index, s, fs, ev, loops, addr, found):
    """the search is summarised by flags or counters: compare the literals"""
    says = {}
    for q in fs:
        pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
        for a in set(x for x in walk(h) if x.op in ('hav', 'out') and x.args[0] in index):
            c = counter(eng, index, a)
            if c is False:
                ctx.bad('middle', NAME, ev.loc, 'ignored candidates count: %s' % show(a))
                return
            if c:
                k = sign(h, lambda y: y is a)
                if k:
                    says[c] = (pos == k[0])
        if found and pos and h.op == 'gt0' and any(e > 0 and x.op in ('hav', 'out') and x.args[0] in index for m in pd(h.args[0]) for x, e in m):
            r = product(eng, index, h.args[0])
            if r is not None:
                ctx.decide(r, 'middle', NAME, ev.loc, 'the middle is rewarded under %s' % show(h)[:160])
                return
    if found and says.get(('branch', True)) and (says.get(('pop', False)) or says.get(('pop', True))):
        ctx.ok('middle', NAME, ev.loc, 'a pop and a later branch were counted')
    else:
        ctx.unk('middle', NAME, ev.loc, 'the middle of the function under %s' % conj(fs)[-160:])


# ---------------------------------------------------------------- the counterpart

def helper(ctx):
    c = ctx.cls(MOD, CLS)
    f = ctx.func(MOD, CLS + '.' + NAME)
    hs = helpers(c, f)
    if len(hs) != 1:
        return ctx.unk('helper', NAME, f.where(), 'the counterpart is searched by %s' % (sorted(hs) or 'the method itself'))
    (hn, g), = hs.items()
    ps = spec_of(g)
    # which parameter is the opcode, which the address, which the registers
    role = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == hn:
            for i, a in enumerate(n.args):
                if isinstance(a, ast.Constant) and a.value in ('push', 'pop') and i < len(ps):
                    role['op'] = ps[i]
            for k in n.keywords:
                if isinstance(k.value, ast.Constant) and k.value.value in ('push', 'pop'):
                    role['op'] = k.arg
    if 'op' not in role or len(ps) != 3:
        return ctx.unk('helper', hn, g.where(), 'parameters')
    rest = [p for p in ps if p != role['op']]
    for op in ('pop', 'push'):
        eng, sts = ctx.run(g, limit=60, args={role['op']: mk('const', op, 'str')}, opaque_funcs=('is_a', 'registers_read', 'registers_written'))
        if not sts:
            ctx.unk('budget', hn)
            continue
        for s in sts:
            fs = tuple(s.facts)
            if inconsistent(fs) or s.exit[0] != 'return':
                continue
            v = s.exit[1]
            if v.op != 'tuple' or len(v.args) != 2:
                ctx.unk('helper', hn, g.where(), 'returns %s' % show(v)[:120])
                continue
            index = loop_index(s.items())
            share(ctx, hn, g, eng, index, s, fs, v.args[0], op)
            equal(ctx, hn, g, eng, index, s, fs, v.args[1], op, rest)


def cand_loops(index):
    """loops over the candidates of an address"""
    return [L for L in index.values() if L.seq is not False and L.seq is not None and 'program' in show(L.seq) and L.seq.op in ('index', 'mcall', 'get', 'dget')]


def share(ctx, hn, g, eng, index, s, fs, v, op):
    n = num_val(v)
    if n is not None and n <= 0:
        # nothing found: no candidates, none valid, or none of the opcode
        if any(q.op == 'not' and q.args[0].op == 'in' and 'program' in show(q.args[0]) for q in fs):
            ctx.ok('share', hn, g.where(), 'no such address')
            return
        for q in fs:
            pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
            for a in set(x for x in walk(h) if x.op == 'out' and x.args[0] in index or x.op == 'len' and x.args[0].op == 'obj'):
                c = kind_of(eng, index, a, op)
                k = sign(h, lambda y: y is a)
                if c in ('valid', 'some') and k and (pos != k[0]):
                    ctx.ok('share', hn, g.where(), 'no valid candidate')
                    return
                if c is False:
                    ctx.bad('share', hn, g.where(), '%s does not count the valid candidates that are a %s' % (show(a), op))
                    return
        asked = [x for L in index.values() for b in L.bodies for q in b.facts for x in walk(q) if x.op in ('unk', 'call') or x.op == 'mcall' and x.args[1] == 'is_a']
        if not asked and not any(x.op in ('unk', 'call', 'mapseq') or x.op == 'mcall' and x.args[1] == 'is_a' for q in fs for x in walk(q)):
            ctx.bad('share', hn, g.where(), 'none is found whatever the candidates are')
            return
        ctx.unk('share', hn, g.where(), 'nothing under %s' % conj(fs)[-160:])
        return
    if v.op != 'poly':
        ctx.unk('share', hn, g.where(), 'the share is %s' % show(v)[:120])
        return
    d = pd(v)
    if len(d) != 1:
        ctx.unk('share', hn, g.where(), 'the share is %s' % show(v)[:120])
        return
    (m, c), = d.items()
    top = [kind_of(eng, index, a, op) for a, e in m if e > 0]
    ctx.decide(True if top == ['some'] and c > 0 else (False if top and all(t is False or t == 'valid' for t in top) else None), 'share', hn, g.where(), 'the share of %s is %s' % (op, show(v)[:140]))


def ask(fs, x, op):
    """what the facts say about the candidate x: (ignored?, is an op?, something else was asked)"""
    ign = isop = None
    odd = False
    for q in fs:
        pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
        y = h.args[0] if h.op == 'truth' else None
        if y is not None and y.op == 'attr' and y.args[0] is x and y.args[1] == 'ignore':
            ign = pos
        elif y is not None and y.op == 'mcall' and y.args[0] is x and y.args[1] == 'is_a' and len(y.args) > 2:
            if y.args[2].op == 'const' and y.args[2].args[0] == op:
                isop = pos
            else:
                odd = 'other'
        elif y is not None and y.op == 'attr' and y.args[0] is x:
            odd = 'other'
    return ign, isop, odd


def class_of(up, down):
    """of which candidates are those counted, given what was asked of the counted and of the others"""
    if not up or any(d and i is not False for i, o, d in down) and False:
        return None
    if any(i is not False for i, o, d in up):
        return False
    if all(o for i, o, d in up):
        return 'some' if all(i or o is False for i, o, d in down) else False
    if all(i for i, o, d in down):
        return 'valid'
    return False


def selected(index, seq, op):
    """(asked about every element of the list, class) when the list is a selection of the candidates"""
    r = filtered(index, seq)
    if r is None or 'program' not in show(r[0].seq):
        return None
    M, keep, drop = r
    up = [ask(f, M.elem, op) for f in keep]
    down = [ask(f, M.elem, op) for f in drop]
    ign = up[0][0] if len(set(u[0] for u in up)) == 1 else None
    isop = up[0][1] if len(set(u[1] for u in up)) == 1 else None
    return (ign, isop), class_of(up, down), (keep, drop, M)


def kind_of(eng, index, t, op):
    """'some': counts the valid candidates that are an op, 'valid': the valid ones; False: something else; None: unclear"""
    if t.op == 'len':
        r = selected(index, t.args[0], op)
        return r[1] if r else None
    L = index.get(t.args[0])
    if L is None:
        return None
    r = steps(eng, t, index)
    if r is None or r[0] is None:
        return None
    if num_val(r[0]) != 0:
        return None if num_val(r[0]) is None else False
    up, down = [], []
    pre = (None, None)
    if L.seq is not False and L.seq is not None and L.seq.op == 'obj':
        r2 = selected(index, L.seq, op)
        if r2 is None:
            return None
        pre = r2[0]
        # those dropped before are not counted either
        down += [ask(f, r2[2][2].elem, op) for f in r2[2][1]]
    elif L.seq is None or L.seq is False or L.seq.op in ('filter', 'mapseq'):
        return None
    for st in r[1]:
        i, o, d = ask(st.facts, L.elem, op)
        i = pre[0] if i is None else i
        o = pre[1] if o is None else o
        if st.op == 'keep':
            down.append((i, o, d))
        elif st.op == 'sum' and num_val(st.amount) is not None and num_val(st.amount) > 0:
            up.append((i, o, d))
        else:
            return None
    return class_of(up, down)


def equal(ctx, hn, g, eng, index, s, fs, v, op, rest):
    name = '%s(%s)' % (hn, op)
    if v.op == 'const' or num_val(v) is not None:
        truth_ = bool(v.args[0]) if v.op == 'const' else bool(num_val(v))
        none = any(q.op == 'not' and q.args[0].op == 'in' and 'program' in show(q.args[0]) for q in fs) or any(
            'out(' in show(q) and (sign(q.args[0] if q.op == 'not' else q, lambda a: a.op in ('out', 'len')) is not None) for q in fs)
        ctx.decide(False if truth_ else (True if none else None), 'equal', name, g.where(), 'always answers %s under %s' % (show(v), conj(fs)[-120:]))
        return
    if v.op != 'out' or v.args[0] not in index:
        ctx.unk('equal', name, g.where(), 'answers %s' % show(v)[:120])
        return
    L = index[v.args[0]]
    key = next((k for k in L.hav if mk('out', L.lid, eng.key_name(k)) is v), None)
    if key is None:
        return ctx.unk('equal', name, g.where(), 'answers %s' % show(v)[:120])
    hv = L.hav[key]
    ini = init_of(eng, L, key)
    ctx.decide(False if ini is not None and truthy(ini) else (True if ini is not None and truthy(ini) is False else None), 'equal', name, L.loc, 'starts with %s' % (show(ini) if ini is not None else '?'))
    x = L.elem
    pre = (None, None)
    if L.seq is not False and L.seq is not None and L.seq.op == 'obj':
        r = selected(index, L.seq, op)
        if r is None:
            return ctx.unk('equal', name, L.loc, 'looks through %s' % show(L.seq))
        pre = r[0]
        for i, o, d in [ask(f, r[2][2].elem, op) for f in r[2][1]]:
            ctx.decide(True if i or o is False else False, 'equal', name, L.loc, 'a valid %s is left out' % op)
    for b in L.bodies:
        bf = tuple(b.facts)
        if inconsistent(fs_head(L) + bf):
            continue
        if b.kind not in ('next', 'break'):
            ctx.unk('equal', name, L.loc, 'leaves by %s' % b.kind)
            continue
        val = eng.get_key(b.state, key)
        ign = isop = known = None
        for q in bf:
            pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
            if h.op != 'truth':
                continue
            y = h.args[0]
            if y.op == 'attr' and y.args[0] is x and y.args[1] == 'ignore':
                ign = pos
            elif y.op == 'mcall' and y.args[0] is x and y.args[1] == 'is_a' and y.args[2].op == 'const':
                if y.args[2].args[0] == op:
                    isop = pos
            elif y is hv:
                known = pos
        ign = pre[0] if ign is None else ign
        isop = pre[1] if isop is None else isop
        if val is hv or val is not None and val.op == 'const' and known is not None and truthy(val) == known:
            if ign or isop is False:
                ctx.ok('equal', name, L.loc, 'another instruction')
            elif known:
                ctx.ok('equal', name, L.loc, 'found before')
            else:
                w = witness(b, x, op, rest)
                ctx.decide(w, 'equal', name, L.loc, 'a %s is passed over under %s' % (op, conj(bf)[-200:]))
            if b.kind == 'break':
                ctx.decide(True if known or val is not hv else False, 'equal', name, L.loc, 'stops searching under %s' % conj(bf)[-160:])
            continue
        t = truthy(val) if val is not None else None
        if t is True:
            bad = []
            if ign is not False:
                bad.append('ignored candidates count')
            if isop is not True:
                bad.append('others than a %s count' % op)
            if bad:
                odd = any(mentions(q, x) and (q.args[0] if q.op == 'not' else q).op not in ('truth', 'in', 'ge0', 'eq0', 'exists') for q in bf)
                ctx.decide(None if odd else False, 'equal', name, L.loc, ', '.join(bad))
                continue
            if b.kind == 'break' and False:
                pass
            ctx.decide(universal(b, x, op, rest), 'equal', name, L.loc, 'registers are taken as equal under %s' % conj(bf)[-160:])
        elif t is False:
            ctx.decide(True if known is False else False if known is None and initial_false(L, b) is None else None, 'equal', name, L.loc, 'forgets a match under %s' % conj(bf)[-160:])
        else:
            ctx.unk('equal', name, L.loc, 'becomes %s' % (show(val)[:100] if val is not None else '?'))


def initial_false(L, b):
    """is this body the first one only?"""
    for q in b.facts:
        if q.op == 'eq0' and q.args[0] is L.iota:
            return True
    return None


def fs_head(L):
    return tuple(L.head_facts)


def truthy(v):
    if v.op == 'const':
        return bool(v.args[0])
    n = num_val(v)
    return None if n is None else bool(n)


def role(t, x, op, rest):
    """'pushed' / 'popped' for the register lists"""
    own, given = ('pushed', 'popped') if op == 'push' else ('popped', 'pushed')
    if t.op in ('copy', 'set', 'tuple', 'list') and len(t.args) == 1:
        return role(t.args[0], x, op, rest)
    if t.op == 'mcall' and t.args[0] is x:
        want = 'registers_read' if op == 'push' else 'registers_written'
        return own if t.args[1] == want else 'wrong' if t.args[1].startswith('registers_') else None
    if t.op == 'sym' and t.args[0] in rest:
        return given
    return None


def cond_of(lits, e, x, op, rest):
    """what a failing register satisfies: {('notin', role), ('ne', n)}; None when unclear"""
    out = set()
    for q in lits:
        pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
        if not mentions(h, e):
            continue
        if h.op == 'in' and h.args[0] is e:
            o = h.args[1]
            if o.op in ('tuple', 'seq', 'list') and all(num_val(y) is not None for y in o.args):
                if pos:
                    if len(o.args) != 1:
                        return None
                    out.add(('eq', int(num_val(o.args[0]))))
                    continue
                out |= set(('ne', int(num_val(y))) for y in o.args)
                continue
            r = role(o, x, op, rest)
            if r is None:
                return None
            if pos:
                s_ = e.args[0] if e.op == 'elem' else None
                if s_ is o or s_ is not None and role(s_, x, op, rest) == r:
                    continue
                out.add(('in', r))
                continue
            out.add(('notin', r))
            continue
        if h.op == 'eq0':
            n = num_val(sub(e, h.args[0]))
            n = num_val(add(e, h.args[0])) if n is None else n
            if n is None:
                return None
            out.add(('eq' if pos else 'ne', int(n)))
            continue
        if h.op == 'ge0' and h.args[0] is not None and all(mentions(h, y) for y in ()) and bounds_only(h, e):
            continue
        return None
    return frozenset(out)


def bounds_only(h, e):
    """0 <= i < len: about the position, not the register"""
    return not any(y is e for m in pd(h.args[0]) for y, k in m)


NEED = {('popped', frozenset([('notin', 'pushed'), ('ne', PC)])), ('pushed', frozenset([('notin', 'popped'), ('ne', LR), ('ne', SP)]))}


def searches(items, x, op, rest, facts):
    """[(role of the walked list, [failing conditions], left early?)] of the register walks; None when something is unclear"""
    out = []
    for it in items:
        if isinstance(it, Alt):
            for fs_, tr in it.paths:
                r = searches(tr, x, op, rest, facts)
                if r is None:
                    return None
                out += r
        if not isinstance(it, LoopItem):
            continue
        L = it.loop
        if L.seq is False or L.seq is None:
            return None
        r = role(L.seq, x, op, rest)
        if r is None and L.seq.op == 'slice' and role(L.seq.args[0], x, op, rest) and all(y.op == 'const' or num_val(y) is not None for y in L.seq.args[1:]):
            r = role(L.seq.args[0], x, op, rest) + ' in part'
        if r is None:
            if any(role(y, x, op, rest) for y in walk(L.seq)):
                return None
            continue
        fails = []
        gen = None
        for b in L.bodies:
            if inconsistent(tuple(L.head_facts) + tuple(b.facts)):
                continue
            bad = b.kind in ('break', 'return')
            app = [e for e in b.trace if isinstance(e, Ev) and e.kind in ('Append', 'Yield')]
            if app:
                t = truthy(app[0].a[-1])
                if t is None:
                    lit = app[0].a[-1]
                    return None
                bad = not t
                gen = True
            if bad:
                c = cond_of(b.facts, L.elem, x, op, rest)
                if c is None:
                    return None
                fails.append(c)
        early = it.body is not None
        if gen:
            for q in facts:
                pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
                if h.op == 'truth' and h.args[0].op == 'agg' and h.args[0].args[0] == 'all' and any(y.op == 'out' and y.args[0] == L.lid for y in walk(h)):
                    early = not pos
        out.append((r, fails, early))
    for q in facts:
        pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
        if h.op == 'exists':
            r = role(h.args[0], x, op, rest)
            if r is None:
                continue
            return None
    return out


def universal(b, x, op, rest):
    """do the walks of the path establish exactly that both lists agree?"""
    r = searches(b.trace, x, op, rest, b.facts)
    if r is None:
        return None
    if any(early for _, fails, early in r if fails):
        return False
    have = set()
    for who, fails, early in r:
        if who == 'wrong':
            return False
        for c in fails:
            if any(k == ('notin', 'wrong') for k in c):
                return False
            have.add((who, c))
            if not disagrees(who, c):
                return False
    if have == NEED:
        return True
    if any('set' in show(q) and '<=' in show(q) for q in b.facts) or not have and any(mentions(q, x) and (q.args[0] if q.op == 'not' else q).op not in ('truth', 'in', 'eq', 'ge0') for q in b.facts):
        return None
    if any(role(y, x, op, rest) for q in b.facts for y in walk(q) if (q.args[0] if q.op == 'not' else q).op in ('call', 'cmp', 'ge0', 'eq0') and y.op == 'mcall'):
        return None
    return False


def disagrees(who, c):
    """a register of this kind keeps the two lists apart"""
    for w, n in NEED:
        if w == who and all(y in c or y[0] == 'ne' and any(z[0] == 'eq' and z[1] != y[1] for z in c) for y in n):
            return True
    return False


def witness(b, x, op, rest):
    """does the path know a register that keeps the lists apart?"""
    r = searches(b.trace, x, op, rest, b.facts)
    if r is None:
        return None
    for who, fails, early in r:
        who = who.split()[0]
        if who == 'wrong' and early:
            return False
        if early and len(set(fails)) == 1 and (who, fails[0]) in NEED:
            return True
        if early and fails:
            return True if all(disagrees(who, c) for c in fails) else False
        if early:
            return None
    return False if not any(role(y, x, op, rest) for q in b.facts for y in walk(q) if y.op == 'mcall') else None
