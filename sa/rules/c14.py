"""C14: the condition, opcode and register scores are the ratio of the metadata to the addresses that could provide it."""
from ..terms import *
from ..prove import prove, inconsistent
from ..report import events, loops_of, understood, conj
from ..fold import loop_index, steps
from ..shape import *
from ..engine import Ev, LoopItem, Alt
from .c11 import method, seq_of
from .c12 import quotient, cell

MOD = 'metadata.recuperator'
CLS = 'ProbabilisticRecuperator'
KEYS = {'pc': ('_compute_conditional', 'conditional_field', 'condition_count', 'address_with_cond'),
        'po': ('_compute_opcode', 'opcode_field', 'instruction_count', 'address_with_op'),
        'pr': ('_compute_registers', 'storages_used', 'storage_count', 'address_with_reg')}
TABLES = {t for k in KEYS.values() for t in k[2:]}


def run(ctx):
    for k in KEYS:
        ctx.part(one_score, k)


def writer(ctx, name, key):
    """the method filing the score `key`"""
    f = ctx.func(MOD, CLS + '.' + name, required=False)
    if f is not None:
        return f
    import ast
    c = ctx.cls(MOD, CLS)
    for m in c.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant) and n.slice.value == key:
                return m
    return None


def filed(s, key):
    """(value, event, loops) the last score filed under key on the way to this exit; and whether any is filed"""
    out = [(ev.a[2], ev, ls) for ev, ls in events(s.items()) if ev.kind == 'SetItem' and ev.a[0].op == 'attr' and ev.a[0].args[1] == 'scores_by_rule' and is_key(ev.a[1], key)]
    return out


def is_key(t, key):
    return t.op == 'const' and t.args[0] == key


def fact(fs, name):
    """truth of inst.<name> on the path"""
    for q in fs:
        h = q.args[0] if q.op == 'not' else q
        if h.op == 'truth' and h.args[0].op == 'attr' and h.args[0].args[1] == name:
            return q.op != 'not'
    return None


def table(t):
    return t.args[1] if t is not None and t.op == 'attr' and t.args[1] in TABLES else None


def one_score(ctx, key):
    name, field, T1, T2 = KEYS[key]
    f = writer(ctx, name, key)
    if f is None:
        return ctx.unk('filed', key, '', 'no method files this score')
    eng, sts = ctx.run(f)
    if not sts:
        return ctx.unk('budget', key)
    for s in sts:
        fs = tuple(s.facts)
        if inconsistent(fs):
            continue
        if s.exit[0] == 'raise':
            ctx.decide(False if all(clear(q) for q in fs) else None, 'total', key, f.where(), 'fails under %s' % conj(fs)[-200:])
            continue
        put = filed(s, key)
        skip = key == 'pr' and (fact(fs, 'is_branch') or fact(fs, 'is_push_pop'))
        if fact(fs, 'ignore'):
            continue
        if not put:
            ctx.decide(True if skip else (False if all(clear(q) for q in fs) else None), 'filed', key, f.where(), 'no score under %s' % conj(fs)[-200:])
            continue
        if skip:
            ctx.decide(False if len(put) == 1 and not put[0][2] else None, 'optional', key, put[0][1].loc, 'a branch, push or pop gets a register score')
            continue
        if key == 'pr' and (fact(fs, 'is_branch') is None or fact(fs, 'is_push_pop') is None):
            used = tuple(x for q in fs for x in walk(q) if x.op == 'mcall' and x.args[1] in ('storages_used', 'storages_read', 'storages_written'))
            ctx.decide(False if all(clear(q, used) for q in fs) else None, 'optional', key, put[0][1].loc, 'a branch, push or pop gets a register score')
        if any(ls for v, ev, ls in put):
            ctx.unk('filed', key, put[0][1].loc, 'filed in a loop')
            continue
        v, ev, _ = put[-1]
        if key == 'pr':
            registers(ctx, eng, s, v, ev, fs, field, T1, T2)
        else:
            ratio(ctx, key, v, ev, fs, field, T1, T2)


def absent(fs, k, T1, T2):
    return any(q.op == 'not' and q.args[0].op == 'in' and (k is None or q.args[0].args[0] is k) and table(q.args[0].args[1]) in (T1, T2) for q in fs)


def ratio(ctx, key, v, ev, fs, field, T1, T2):
    n = num_val(v)
    if n is not None:
        miss = [q.args[0] for q in fs if q.op == 'not' and q.args[0].op == 'in' and table(q.args[0].args[1]) in (T1, T2)]
        good = n == 0 and any(q.args[0].op == 'attr' and q.args[0].args[1] == field for q in miss)
        none = any(table(y.args[0]) in (T1, T2) for q in fs if q.op in ('not', 'eq0', 'ge0') for y in walk(q) if y.op == 'index')
        good = good or (n == 0 and none)
        return ctx.decide(True if good else (False if all(clear(q) for q in fs) else None), 'absent', key, ev.loc, 'score %s under %s' % (n, conj(fs)[-160:]))
    quot(ctx, key, v, ev.loc, lambda k: k.op == 'attr' and k.args[1] == field and k.args[0].op in ('sym', 'param'), T1, T2, fs)


def quot(ctx, key, v, loc, is_value, T1, T2, fs=()):
    q = quotient(v)
    if v.op in ('min', 'max') and len(v.args) == 2:
        c = [num_val(y) for y in v.args if num_val(y) is not None]
        if len(c) == 1 and (v.op == 'min' and c[0] < 1 or v.op == 'max' and c[0] > 0) and any(quotient(y) for y in v.args):
            return ctx.bad('ratio', key, loc, 'the ratio is cut: %s' % show(v)[:120])
    if q is not None:
        for t in q:
            if t.op in ('min', 'max') and any(num_val(y) is not None and (t.op == 'min' or num_val(y) > 1) for y in t.args) and any(cell(y) is not None and table(cell(y)[0]) for y in t.args):
                return ctx.bad('ratio', key, loc, 'a count is cut: %s' % show(t)[:120])
    if q is None:
        return ctx.decide(False if clear(v) and len([y for y in walk(v) if table(y)]) < 2 and not has_op(v, 'min', 'max', 'ite') else None, 'ratio', key, loc, 'score is %s' % show(v)[:160])
    a, b = cell(q[0]), cell(q[1])
    if a is None or b is None:
        return ctx.decide(False if clear(v) and not has_op(v, 'min', 'max', 'ite') and all(num_val(t) is None for t in q) else None, 'ratio', key, loc, 'score is %s' % show(v)[:160])
    good = table(a[0]) == T1 and table(b[0]) == T2
    ctx.decide(True if good else (False if table(a[0]) and table(b[0]) else None), 'ratio', key, loc, 'ratio of %s to %s' % (show(a[0])[:60], show(b[0])[:60]))
    for c in (a, b):
        g = any(x.op == 'in' and x.args[0] is c[1] and x.args[1] is c[0] and not (len(x.args) > 2 and x.args[2].op == 'mut') for x in fs)
        ctx.decide(True if g else (False if all(clear(x) or x.op == 'in' for x in fs) else None), 'total', key, loc, 'fails when %s does not have the value' % show(c[0])[:80])
    vals = is_value(a[1]) and is_value(b[1])
    ctx.decide(True if vals else (False if clear(a[1]) and clear(b[1]) else None), 'value', key, loc, 'for %s and %s' % (show(a[1])[:60], show(b[1])[:60]))


def registers(ctx, eng, s, v, ev, fs, field, T1, T2):
    key = 'pr'
    n = num_val(v)
    if n is not None:
        good = n == 0 and absent(fs, None, T1, T2)
        return ctx.decide(True if good else (False if n != 0 and absent(fs, None, T1, T2) or all(clear(q) for q in fs) else None), 'absent', key, ev.loc, 'score %s under %s' % (n, conj(fs)[-160:]))
    index = loop_index(s.items())
    if v.op == 'hav' and absent(fs, None, T1, T2):
        return ctx.bad('absent', key, ev.loc, 'the score of the storages before the one that is absent')
    if v.op != 'out':
        return ctx.decide(None, 'smallest', key, ev.loc, 'score is %s' % show(v)[:120])
    r = steps(eng, v, index)
    if r is None or r[0] is None:
        return ctx.unk('smallest', key, ev.loc, 'score is %s' % show(v)[:120])
    init, st = r
    ctx.decide(True if num_val(init) == 1 else (False if num_val(init) is not None else None), 'smallest', key, ev.loc, 'starts at %s' % show(init)[:60])
    for q in st:
        L, b = q.chain[0]
        if len(q.chain) != 1 or inconsistent(q.facts):
            ctx.unk('smallest', key, q.loc, 'nested')
            continue
        src = seq_of(L)
        x = next((method(src, m) for m in (field,) if src is not None), None)
        good = x is not None and x.op in ('sym', 'param')
        if src is not None and src.op == 'slice' and method(src.args[0], field) is not None and (num_val(src.args[1]) or num_val(src.args[2]) is not None):
            ctx.bad('storages', key, q.loc, 'over a part of the storages: %s' % show(src)[:80])
            continue
        other = src is not None and any(method(src, m) is not None for m in ('registers_used', 'registers_read', 'registers_written', 'storages_read', 'storages_written'))
        ctx.decide(True if good else (False if other else None), 'storages', key, q.loc, 'over %s' % (show(src)[:80] if src is not None else '?'))
        hv = next((h for k, h in L.hav.items() if k[0] == 'env' and (has(q.amount, h) if q.amount is not None else any(has(g, h) for g in q.facts))), None)
        isv = lambda k: k is L.elem
        if b.kind == 'break':
            # stopping is fine once the score cannot change any more
            zero = q.amount is not None and num_val(q.amount) == 0
            val = q.amount if q.op == 'set' else hv if q.op == 'keep' else None
            known = [y for g in q.facts for y in walk(g) if y.op == 'mcall' and method(y, field) is not None] + list(L.hav.values())
            more = val is not None and clear(val, allow=known) and all(clear(g, allow=known) for g in q.facts) and not inconsistent(tuple(q.facts) + (mk('gt0', val),))
            ctx.decide(True if zero else (False if more else None), 'smallest', key, q.loc, 'stops early under %s' % conj(q.facts)[-120:])
            continue
        if q.op == 'keep':
            # kept because the ratio is not smaller
            if absent(q.facts, L.elem, T1, T2):
                ctx.bad('absent', key, q.loc, 'a storage the metadata or the candidates do not have is left out')
                continue
            ok = any(hv is not None and has(g, hv) for g in q.facts)
            known = [y for g in q.facts for y in walk(g) if y.op == 'mcall' and method(y, field) is not None] + list(L.hav.values())
            ctx.decide(None if ok or not all(clear(g, allow=known) for g in q.facts) else False, 'smallest', key, q.loc, 'a storage is left out under %s' % conj(q.facts)[-160:])
        elif q.op == 'set' and q.amount.op == 'min' and len(q.amount.args) == 2 and any(a in L.hav.values() for a in q.amount.args):
            o = [a for a in q.amount.args if a not in L.hav.values()]
            if len(o) == 1:
                quot(ctx, key, o[0], q.loc, isv, T1, T2, q.facts)
                ctx.ok('smallest', key, q.loc, 'the smaller of the two')
            else:
                ctx.unk('smallest', key, q.loc, show(q.amount)[:100])
        elif q.op == 'set' and q.amount.op == 'max':
            ctx.bad('smallest', key, q.loc, 'the larger of the two')
        elif q.op == 'set' and quotient(q.amount):
            quot(ctx, key, q.amount, q.loc, isv, T1, T2, q.facts)
            h = [h for k, h in L.hav.items() if k[0] == 'env' and any(has(g, h) for g in q.facts)]
            ctx.decide(None if h else False, 'smallest', key, q.loc, 'replaced by the ratio of a later storage')
        elif q.op == 'set' and q.amount.op == 'poly' and any(has(q.amount, h) for k, h in L.hav.items() if k[0] == 'env') and any(cell(y) is not None and table(cell(y)[0]) for y in walk(q.amount)) and not has_op(q.amount, 'min', 'max', 'ite', 'call', 'unk'):
            ctx.bad('smallest', key, q.loc, 'the ratios are mixed: %s' % show(q.amount)[:120])
        elif q.op in ('sum', 'prod'):
            ctx.decide(False, 'smallest', key, q.loc, 'the ratios are combined by %s' % q.op)
        else:
            ctx.unk('smallest', key, q.loc, show(q.amount)[:100])
