"""C26: programs as dictionaries, lists and functions."""
import re

from ..terms import *
from ..prove import inconsistent
from ..report import conj, understood
from ..fold import loop_index, grown, order_of, flat_paths
from ..engine import Ev, LoopItem
from ..shape import has, linear

MOD = 'metadata.probabilistic_rules.rules'


def run(ctx):
    ctx.part(to_list)
    ctx.part(to_dict)
    ctx.part(functions)
    ctx.part(lengths)


def everything(f, L):
    """the condition holds for every element of the loop"""
    if f.op == 'ge0':
        return has(f, L.iota) and not any(x.op in ('attr', 'call', 'mcall', 'index') and has(x, L.iota) for x in walk(f))
    return f.op == 'in'


def of_program(x, program):
    while x.op in ('copy', 'lit'):
        x = x.args[0]
    if x is program:
        return 'keys'
    if x.op in ('keys', 'items', 'values') and x.args[0] is program:
        return x.op
    return None


def bare(t):
    return t.args[0] if t.op == 'at' else t


def sel(t, i=None):
    """(base, key) of an element read, whatever the version"""
    if t.op in ('index',):
        return t.args[0], t.args[1]
    return None


def keys_in_order(eng, s, obj, index, program, before):
    """True / False / None: the list holds all the addresses (or address and candidates) of the program, ascending"""
    g = grown(eng, s, obj, index)
    if g is None or len(g) != 1 or g[0][0] or g[0][2] != 'all':
        return None, None
    kind = of_program(g[0][3], program)
    if kind not in ('keys', 'items'):
        return None, kind
    o = order_of(s, obj, before)
    if o is None:
        return None, kind
    if o == 'unsorted':
        return False, kind
    rev, krs, kf = o[2], o[1], o[3]
    if rev not in (TRUE, FALSE):
        return None, kind
    if kf is NONE:
        return rev is FALSE, kind
    if not krs or len(krs) != 1 or krs[0][0]:
        return None, kind
    first = krs[0][1].args[0] if krs[0][1].op == 'tuple' and krs[0][1].args else krs[0][1]
    if first.op == 'len' and any(x is program for x in walk(first)):
        return False, kind
    up = rising(krs[0][1], kind)
    if up is None:
        return None, kind
    return (up == 1 and rev is FALSE) or (up == -1 and rev is TRUE), kind


def is_elem(t):
    return t.op == 'sym' and t.args[0] == 'sortelem'


def rising(k, kind):
    """1 / -1: the key grows / falls with the address; 0: it does neither; None: unknown"""
    if k.op == 'tuple' and k.args:
        return rising(k.args[0], kind)
    x = next((y for y in walk(k) if is_elem(y)), None)
    if x is None:
        return 0 if understood(k) else None
    if k is x:
        return 1
    if kind == 'items':
        y = next((y for y in walk(k) if y.op == 'index' and y.args[0] is x and num_val(y.args[1]) == 0), None)
        if y is None:
            return None
        x = y
    r = linear(k, x)
    if r is not None and num_val(r[0]) is not None and not has(r[1], x):
        n = num_val(r[0])
        return 1 if n > 0 else -1 if n < 0 else 0
    if k.op == 'strof':
        return 0
    if k.op == 'mcall' and k.args[0].op == 'const' and k.args[1] == 'format' and re.match(r'[^{}0]*\{0?(:[xXd])?\}', str(k.args[0].args[0])):
        return 0
    if k.op == 'poly' and any(y.op in ('floordiv', 'mod') for y in walk(k)) and understood(k):
        return 0
    return None


def to_list(ctx):
    f = ctx.func(MOD, 'from_instruction_dict_to_list')
    name = 'from_instruction_dict_to_list'
    program = mk('sym', f.node.args.args[0].arg)
    eng, sts = ctx.run(f, limit=60)
    if not sts:
        return ctx.unk('budget', name)
    for s in sts:
        if inconsistent(tuple(s.facts)):
            continue
        if s.exit[0] != 'return':
            ctx.decide(None, 'list', name, f.where(), 'the conversion can fail')
            continue
        index = loop_index(s.items())
        r = s.exit[1]
        g = grown(eng, s, r, index)
        if g is None:
            ctx.decide(None, 'list', name, f.where(), 'the result is not followed')
            continue
        if r.op == 'obj' and order_of(s, r) != 'unsorted':
            ctx.decide(None, 'list', name, f.where(), 'the result itself is ordered')
            continue
        for chain, fs, kind, v in g:
            if inconsistent(fs):
                continue
            if len(chain) != 1:
                whole = not chain and kind == 'all' and of_program(v, program)
                ctx.decide(False if whole else None, 'list', name, f.where(), 'the candidates are not taken address by address')
                continue
            L, b = chain[0]
            src = L.seq if L.seq is not None and L.seq is not False else None
            if src is None:
                ctx.decide(None, 'list', name, L.loc, 'an unknown loop')
                continue
            if src.op == 'obj':
                ordered, what = keys_in_order(eng, s, src, index, program, L)
            else:
                what = of_program(src, program)
                ordered = False if what else None
            if what is None:
                ctx.decide(None, 'list', name, L.loc, 'the addresses are not recognised')
                continue
            ctx.decide(ordered, 'increasing-addresses', name, L.loc, 'the candidate lists do not come in increasing address order')
            extra = [q for q in fs if not everything(q, L)]
            if kind == 'none':
                ctx.decide(False if all(understood(q) for q in extra) else None, 'every-address', name, L.loc, 'an address is left out when ' + conj(extra))
                continue
            e = L.elem
            want = (kind == 'one' and v.op == 'index' and (v.args[0] is program and (v.args[1] is e if what == 'keys' else first(v.args[1], e)) or
                                                           what == 'items' and v.args[0] is e and num_val(v.args[1]) == 1))
            ok = True if want else False if understood(v) else None
            ctx.decide(ok, 'its-candidates', name, L.loc, 'an address gets %s' % show(v)[:80])


def first(t, e):
    return t.op == 'index' and t.args[0] is e and num_val(t.args[1]) == 0


def to_dict(ctx):
    f = ctx.func(MOD, 'from_instruction_list_to_dict')
    name = 'from_instruction_list_to_dict'
    p = mk('sym', f.node.args.args[0].arg)
    eng, sts = ctx.run(f, limit=60)
    if not sts:
        return ctx.unk('budget', name)
    for s in sts:
        if inconsistent(tuple(s.facts)):
            continue
        if s.exit[0] != 'return':
            ctx.decide(None, 'dictionary', name, f.where(), 'the conversion can fail')
            continue
        per_element(ctx, s, name, f, p, s.exit[1], lambda e, k, v: listed(s, e, k, v), 'dictionary')


def per_element(ctx, s, name, f, p, d, judge, rule, empties=lambda fs, e: False):
    """every element of p sets exactly one entry of d, as judged"""
    items = [it for it in s.items() if isinstance(it, LoopItem) and touches(it, d)]
    if d.op != 'obj' or len(items) != 1:
        return ctx.decide(None, rule, name, f.where(), 'the dictionary is not filled in one loop')
    L = items[0].loop
    elem = L.elem
    if L.seq is not None and L.seq is not False and L.seq.op == 'enumerate' and L.seq.args[0] is p and elem.op == 'tuple':
        elem = elem.args[1]
    elif L.seq is not p:
        return ctx.decide(None, rule, name, L.loc, 'the loop does not run over the argument')
    for b in L.bodies:
        ps = flat_paths(b.trace)
        if inconsistent(b.facts):
            continue
        if ps is None or b.kind not in ('next',):
            ctx.decide(False if b.kind in ('break', 'return') and understood_all(b.facts) else None, rule, name, L.loc, 'elements are left out')
            continue
        for q in ps:
            ws = [e for e in q if isinstance(e, Ev) and e.a and e.a[0] is d and e.kind in ('SetItem', 'DelItem', 'Update', 'Pop', 'Remove', 'SetDefault', 'Clear')]
            extra = [x for x in tuple(b.facts) + tuple(y for e in q if isinstance(e, Ev) for y in e.facts) if not everything(x, L)]
            if not ws:
                if empties(extra, elem):
                    continue
                # keeping an entry that is there already
                there = [x for x in b.facts if x.op == 'in' and x.args[1] is d]
                ctx.decide(None if there or not understood_all(extra) else False, rule, name, L.loc, 'an element gets no entry when ' + conj(extra))
                continue
            if len(ws) != 1 or ws[0].kind != 'SetItem':
                ctx.decide(None, rule, name, L.loc, 'several writes')
                continue
            r, why = judge(elem, ws[0].a[1], ws[0].a[2])
            ctx.decide(r, rule, name, ws[0].loc or L.loc, why)


def touches(it, d):
    return any(isinstance(e, Ev) and e.a and e.a[0] is d for b in it.loop.bodies for e in b.trace) or \
        any(x is d for b in it.loop.bodies for e in b.trace if isinstance(e, Ev) for a in e.a[:1] if isinstance(a, T) for x in walk(a))


def understood_all(fs):
    return all(understood(q) for q in fs)


def attr_of(t, e, n):
    return t.op == 'attr' and t.args[0] is e and t.args[1] == n


def listed(s, e, k, v):
    if not attr_of(k, e, 'address'):
        return (False if understood(k) else None), 'an instruction is filed under %s' % show(k)[:60]
    c = None
    if v.op == 'obj':
        for st in list(s.heap.items()):
            if st[0][0] is v and st[0][1] == '#':
                c = st[1]
        if c is None:
            c = LISTS.get(v)
    if c is None:
        for it in s.items():
            if isinstance(it, LoopItem):
                for b in it.loop.bodies:
                    c = b.state.heap.get((v, '#')) if c is None else c
    if c is None or c.op not in ('seq', 'list'):
        return (False if v is e else None), 'the candidates of an address are %s' % show(v)[:60]
    return len(c.args) == 1 and c.args[0] is e, 'the candidates of an address are %s' % show(c)[:60]


LISTS = {}


def asked(t, e, n):
    if t.op == 'call' and len(t.args) == 1 and t.args[0].op == 'attr':
        return attr_of(t.args[0], e, n)
    if t.op == 'mcall' and t.args[0] is e:
        return t.args[1] == n
    return False


def endpoints(e, k, v):
    if not asked(k, e, 'start_addr'):
        other = k.op == 'call' and k.args[0].op == 'attr' and k.args[0].args[0].op == 'sym'
        return (False if asked(k, e, 'final_addr') or other and asked(k, k.args[0].args[0], 'start_addr') else None), 'a function is filed under %s' % show(k)[:60]
    if v.op != 'tuple' or len(v.args) != 2:
        return None, 'an unknown entry'
    ok = asked(v.args[0], e, 'start_addr') and asked(v.args[1], e, 'final_addr')
    known = all(asked(x, y, 'start_addr') or asked(x, y, 'final_addr') for x in v.args for y in [x.args[0].args[0] if x.op == 'call' and x.args[0].op == 'attr' and x.args[0].args[0].op == 'sym' else e])
    return (True if ok else False if known else None), 'the entry of a function is %s' % show(v)[:90]


def functions(ctx):
    f = ctx.func(MOD, 'from_functions_to_list_and_addr')
    name = 'from_functions_to_list_and_addr'
    p = mk('sym', f.node.args.args[0].arg)
    eng, sts = ctx.run(f, limit=60)
    if not sts:
        return ctx.unk('budget', name)
    for s in sts:
        if inconsistent(tuple(s.facts)):
            continue
        if s.exit[0] != 'return' or s.exit[1].op != 'tuple' or len(s.exit[1].args) != 2:
            ctx.decide(None, 'functions', name, f.where(), 'an unknown result')
            continue
        lst, d = s.exit[1].args
        per_element(ctx, s, name, f, p, d, endpoints, 'function-entry', no_instructions)
        index = loop_index(s.items())
        g = grown(eng, s, lst, index)
        if g is None or lst.op != 'obj':
            ctx.decide(None, 'all-instructions', name, f.where(), 'the list is not followed')
            continue
        o = order_of(s, lst)
        if o is None:
            ctx.decide(None, 'increasing-addresses', name, f.where(), 'the order is unknown')
        else:
            r = False
            if o != 'unsorted':
                krs = o[1]
                by = krs and len(krs) == 1 and not krs[0][0] and krs[0][1].op == 'attr' and is_elem(krs[0][1].args[0]) and krs[0][1].args[1] == 'address'
                r = None if not by or o[2] not in (TRUE, FALSE) else o[2] is FALSE
                if r is None and krs and len(krs) == 1 and krs[0][1].op == 'attr' and is_elem(krs[0][1].args[0]) and not by:
                    r = False
            ctx.decide(r, 'increasing-addresses', name, f.where(), 'the instructions are not sorted by increasing address')
        for chain, fs, kind, v in g:
            if inconsistent(fs):
                continue
            extra = [q for q in fs if not any(everything(q, L) for L, b in chain)]
            if not chain or chain[0][0].seq is not p:
                ctx.decide(None, 'all-instructions', name, f.where(), 'not taken function by function')
                continue
            e = chain[0][0].elem
            if kind == 'none':
                if no_instructions(extra, e) or own_loop(chain, e):
                    continue
                ctx.decide(False if understood_all(extra) else None, 'all-instructions', name, chain[-1][0].loc, 'instructions are left out when ' + conj(extra))
                continue
            if any(b.kind != 'next' for L, b in chain):
                ctx.decide(False if understood_all(extra) else None, 'all-instructions', name, chain[-1][0].loc, 'the loop is left early')
                continue
            insts = mk('attr', e, 'instructions')
            if kind == 'all':
                ok = same_attr(v, e) if len(chain) == 1 else None
                if ok is False and not (v.op == 'slice' and same_attr(v.args[0], e)):
                    ok = None
            else:
                ok = None
                if len(chain) == 2:
                    src = chain[1][0].seq
                    if src is not None and src is not False:
                        ok = v is chain[1][0].elem and same_attr(src, e)
                        if not ok and not (src.op == 'slice' and same_attr(src.args[0], e)):
                            ok = None
            ctx.decide(ok, 'all-instructions', name, chain[-1][0].loc, 'the list takes %s of a function' % show(v)[:80])


def same_attr(t, e):
    return t.op == 'attr' and t.args[0] is e and t.args[1] == 'instructions'


def own_loop(chain, e):
    """the iteration of the outer loop only runs the inner one"""
    return False


def no_instructions(fs, e):
    """the function has no instructions"""
    for q in fs:
        if any(same_attr(x, e) for x in walk(q)) and q.op in ('not', 'eq0') and not any(x.op == 'index' for x in walk(q)):
            h = q.args[0] if q.op == 'not' else q
            if q.op == 'eq0' and h.args[0].op == 'len' or q.op == 'not' and h.op == 'truth' and same_attr(h.args[0], e):
                return True
    return False


def lengths(ctx):
    c = ctx.cls('architecture.functions', 'ElfFunction')
    me = mk('sym', 'self')
    ins = mk('attr', me, 'instructions')
    for meth in ('start_addr', 'final_addr', 'length_in_bytes'):
        f = c.find(meth)
        name = 'ElfFunction.' + meth
        if f is None:
            ctx.unk('missing', name)
            continue
        eng, sts = ctx.run(f, limit=60, selfcls=c)
        if not sts:
            ctx.unk('budget', name)
            continue
        for s in sts:
            fs = tuple(s.facts)
            if inconsistent(fs):
                continue
            if s.exit[0] != 'return':
                ctx.decide(None, 'function-bounds', name, f.where(), 'can fail')
                continue
            v = s.exit[1]
            ns = [x for t in fs + (v,) for x in walk(t) if x.op == 'len' and x.args[0].op == 'attr' and x.args[0].args[1] == 'instructions']
            n = ns[0] if ns else None
            empty = emptiness(fs, n)
            firsts = [x for x in walk(v) if x.op == 'attr' and x.args[1] == 'address' and x.args[0].op == 'index']
            if meth == 'length_in_bytes':
                want = mul(const(4), n) if n is not None else None
                ok = True if want is not None and num_val(sub(v, want)) == 0 or empty and num_val(v) == 0 else False if clear_num(v, n, ()) else None
                ctx.decide(ok, 'function-bounds', name, f.where(), 'the length is %s' % show(v)[:80])
                continue
            if empty:
                ctx.decide(num_val(v) == 0 if num_val(v) is not None else None, 'function-bounds', name, f.where(), 'an empty function is at %s' % show(v)[:80])
                continue
            if num_val(v) is not None:
                ctx.decide(False if empty is False or not fs else None, 'function-bounds', name, f.where(), 'a function with instructions is at %s when %s' % (show(v), conj(fs)))
                continue
            ok = None
            if len(firsts) == 1:
                a = firsts[0]
                i = num_val(a.args[0].args[1])
                rest = sub(v, a)
                if meth == 'start_addr':
                    ok = True if i == 0 and num_val(rest) == 0 else False if i is not None and clear_num(rest, n, ()) else None
                elif i == -1 or n is not None and num_val(sub(a.args[0].args[1], n)) == -1:
                    ok = num_val(rest) == 0 if clear_num(rest, n, ()) else None
                elif i == 0:
                    ok = (n is not None and num_val(sub(rest, mul(const(4), n))) == -4) or (False if clear_num(rest, n, ()) else None)
                elif i is not None:
                    ok = False if clear_num(rest, n, ()) else None
            elif not firsts and clear_num(v, n, ()):
                ok = False
            ctx.decide(ok, 'function-bounds', name, f.where(), 'the function gives %s' % show(v)[:90])


def clear_num(t, n, allow):
    return num_val(t) is not None or (n is not None and all(x is n or x.op in ('poly', 'const') or has(n, x) for x in walk(t)))


def emptiness(fs, n):
    if n is None:
        return None
    pos = mk('ge0', sub(n, const(1)))
    for q in fs:
        if q.op == 'ge0' and num_val(sub(q.args[0], n)) is not None:
            return False if num_val(sub(q.args[0], n)) < 0 else None
        if q.op == 'ge0' and num_val(add(q.args[0], n)) is not None:
            return num_val(add(q.args[0], n)) <= 0
        if q.op == 'eq0' and num_val(sub(q.args[0], n)) == 0:
            return True
        if q.op == 'not' and q.args[0].op == 'eq0' and num_val(sub(q.args[0].args[0], n)) == 0:
            return False
        if q.op == 'truth' and has(n, q.args[0]):
            return False
        if q.op == 'not' and q.args[0].op == 'truth' and has(n, q.args[0].args[0]):
            return True
    return None
