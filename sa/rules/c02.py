"""C02: the bit queue is a FIFO of bits.

Stream position of a bit in storage word W at bit b is 32*W + b.  Under the representation
invariant (0 <= cursors <= 31, words stored = write word + 1) every path of enqueue must
write exactly the positions [write cursor, write cursor + word size) with the matching bits
of the value, and every path of dequeue must read exactly [read cursor, read cursor + word
size) into the matching bits of the result; both must restore the invariant.  FIFO order,
loss-freedom and bit exactness of any interleaving of the two follow by induction.
"""
import ast
from ..terms import *
from ..prove import prove, decide, simple, inconsistent
from ..report import events, understood, loops_of
from ..bitnorm import norm
from ..engine import Ev, LoopItem, Alt

S = mk('sym', 'self')


def A(n):
    return mk('attr', S, n, 0)


def attr_term(ctx, name):
    return name


def final(st, obj, name, default):
    v = st.heap.get((obj, name))
    return default if v is None else v


def layers(v):
    """[(lo, hi, src, off)] outermost first, and the background"""
    out = []
    while v.op == 'bits' and v.args[1] is not ZERO:
        out.extend(v.args[0])
        v = v.args[1]
    if v.op == 'bits':
        out.extend(v.args[0])
        v = const(0)
    return out, v


def list_effects(st, lst):
    """effects on the word list, None when they are inside a loop"""
    out = []
    for it in st.items():
        if isinstance(it, Ev):
            if it.kind in ('SetItem', 'Append', 'Pop', 'Insert', 'Remove', 'Clear', 'Extend', 'DelItem', 'Sort', 'Reverse') \
                    and it.a and it.a[0] is lst:
                out.append(it)
            if it.kind in ('CallUnknown',):
                return None
        elif isinstance(it, LoopItem) or isinstance(it, Alt):
            for e, _ in events([it]):
                if e.a and e.a[0] is lst and e.kind not in ('Index', 'Read', 'Attr'):
                    return None
                if e.kind == 'CallUnknown':
                    return None
    return out


def run(ctx):
    q = ctx.cls('architecture.bits', 'BitQueue')
    enq = ctx.func('architecture.bits', 'BitQueue.enqueue')
    deq = ctx.func('architecture.bits', 'BitQueue.dequeue')
    emp = ctx.func('architecture.bits', 'BitQueue.empty')
    gb = ctx.func('architecture.bits', 'BitQueue.get_bytes')
    ini = ctx.func('architecture.bits', 'BitQueue.__init__')
    E, e, d, w = F('_eq_word'), F('_eq_bit'), F('_dq_bit'), F('word_size')
    L = F('_bytes')
    # --- construction establishes the invariant
    eng, sts = ctx.run(ini)
    okinit = False
    for s in sts or []:
        if s.exit[0] != 'return':
            continue
        h = {k[1]: v for k, v in s.heap.items() if k[0] is S}
        if not {'_eq_word', '_eq_bit', '_dq_bit', '_bytes', 'word_size'} <= set(h):
            continue
        okinit = True
        lst = h['_bytes']
        cnt = s.heap.get((lst, '#'))
        for n in ('_eq_word', '_eq_bit', '_dq_bit'):
            ctx.decide(h[n] is const(0), 'starts-empty', n, ini.where(), show(h[n]))
        shared = [d for p, d in zip(reversed(ini.node.args.args), reversed(ini.node.args.defaults))
                  if h['_bytes'] is mk('sym', p.arg) and isinstance(d, (ast.List, ast.ListComp))]
        if shared:
            ctx.bad('starts-empty', '_bytes', ini.where(), 'the words are a default argument, the same for every queue')
        if h['_bytes'].op == 'sym' and str(h['_bytes'].args[0]).startswith('global:'):
            ctx.bad('starts-empty', '_bytes', ini.where(), 'the words are %s, the same for every queue' % show(h['_bytes']))
        ctx.decide(True if cnt is mk('seq', const(0)) else (None if cnt is None or cnt.op != 'seq' else False),
                   'starts-empty', '_bytes', ini.where(), show(cnt) if cnt is not None else '')
        ctx.decide(h['word_size'] is mk('sym', 'word_size') or None, 'starts-empty', 'word_size', ini.where())
    if not okinit and any(isinstance(d, ast.Assign) and isinstance(d.value, ast.List) and any(
            isinstance(t, ast.Name) and t.id == '_bytes' for t in d.targets) for d in q.node.body) and sts and all(
            (S, '_bytes') not in s.heap for s in sts):
        ctx.bad('starts-empty', '_bytes', ini.where(), 'the words belong to the class, the same for every queue')
    elif not okinit:
        ctx.unk('starts-empty', 'BitQueue', ini.where(), 'representation not recognised')
    if not okinit:
        return
    inv = [cmp_eq(mk('len', L, mk('v0')), add(E, const(1))), cmp_ge(E), cmp_ge(e), cmp_ge(sub(const(31), e)), cmp_ge(d), cmp_ge(sub(const(31), d)),
           cmp_ge(sub(w, const(1))), cmp_ge(sub(const(32), w))]
    check_enqueue(ctx, enq, inv, E, e, d, w, L)
    check_dequeue(ctx, deq, inv, E, e, d, w, L)
    check_empty(ctx, emp, inv, E, e, d)
    eng, sts = ctx.run(gb)
    for s in sts or []:
        v = s.exit[1]
        ctx.decide(True if v is L else (None if not understood(v) or v.op in ('obj', 'mapseq', 'call', 'copy', 'slice')
                                        else False), 'returns-words', 'get_bytes', gb.where(), show(v))


def F(name):
    return mk('attr', S, name, mk('v0')) if False else mk('attr', S, name)


def abs_index(W, E, appended, popped):
    """storage position of an index, relative to the words at entry"""
    n = num_val(W)
    if n is not None and n < 0:
        return add(E, const(1), const(appended), const(-popped), W)
    return W


def check_enqueue(ctx, fi, inv, E, e, d, w, L):
    val, fb = [mk('sym', a.arg) for a in fi.node.args.args[1:3]]
    pre = inv + [cmp_ge(fb), cmp_ge(sub(const(32), add(fb, w)))]
    eng, sts = ctx.run(fi, facts=pre)
    if sts is None:
        return ctx.unk('enqueue', 'enqueue', fi.where(), 'not analysed')
    nret = 0
    for s in sts:
        loc = fi.where()
        if inconsistent(s.facts):
            continue
        allow_bad = all(simple(x) for x in s.facts if x.op in ('ge0', 'gt0', 'eq0'))
        if s.exit[0] == 'raise':
            if s.exit[1].op == 'exc' and s.exit[1].args[0] in ('IndexError', 'KeyError'):
                continue
            ctx.decide(False if allow_bad else None, 'enqueue-total', 'enqueue', loc,
                       'a chunk inside the word is refused under ' + ' & '.join(map(show, s.facts)))
            continue
        nret += 1
        ctx.ok('enqueue-total', 'enqueue', loc)
        E2, e2, d2 = final(s, S, '_eq_word', E), final(s, S, '_eq_bit', e), final(s, S, '_dq_bit', d)
        conserve(ctx, s, 'enqueue-cursor', loc, cmp_eq(add(scale(E2, 32), e2), add(scale(E, 32), e, w)),
                 'write cursor advances by the word size: word %s bit %s' % (show(E2), show(e2)))
        conserve(ctx, s, 'enqueue-cursor', loc, cmp_ge(e2), 'write bit stays in the word: %s' % show(e2))
        conserve(ctx, s, 'enqueue-cursor', loc, cmp_ge(sub(const(31), e2)), 'write bit stays in the word: %s' % show(e2))
        conserve(ctx, s, 'enqueue-cursor', loc, cmp_eq(d2, d), 'enqueue moves the read cursor')
        effs = list_effects(s, L)
        if effs is None:
            ctx.unk('enqueue-placement', 'enqueue', loc, 'words written in a loop')
            continue
        app = pop = 0
        words = {}
        order = []
        good = True
        for ev in effs:
            if ev.kind == 'Append':
                v = ev.a[1]
                W = add(E, const(1 + app - pop))
                if num_val(v) != 0:
                    words[W] = norm(v)
                    order.append(W)
                else:
                    words[W] = const(0)
                app += 1
            elif ev.kind == 'Pop':
                pop += 1
                good = False
            elif ev.kind == 'SetItem':
                W = abs_index(ev.a[1], E, app, pop)
                words[W] = norm(ev.a[2])
                if W not in order:
                    order.append(W)
            else:
                good = False
        if not good:
            ctx.unk('enqueue-placement', 'enqueue', loc, 'unrecognised effects on the words')
            continue
        conserve(ctx, s, 'enqueue-words', loc, cmp_eq(sub(E2, E), const(app)), 'words appended: %d, write word moves from %s to %s' %
                 (app, show(E), show(E2)))
        segs = []
        und = True
        for W in order:
            ls, bg = layers(words[W])
            if bg is val and not ls and not (prove(s.facts, cmp_eq(w, const(32))) or prove(s.facts, cmp_eq(fb, const(0)))):
                ctx.bad('enqueue-placement', 'enqueue', loc, 'word %s becomes the whole value, whatever chunk of it was asked for' % show(W))
            if bg.op not in ('index', 'elem') and num_val(bg) != 0:
                und = False
            if bg.op == 'index' and bg.args[0] is L:
                W2 = abs_index(bg.args[1], E, app, pop)
                if not prove(s.facts, cmp_eq(W2, W)):
                    ctx.decide(False if simple(W2) and simple(W) else None, 'enqueue-placement', 'enqueue', loc,
                               'word %s is rebuilt from word %s' % (show(W), show(W2)))
            elif num_val(bg) == 0 and prove(s.facts, cmp_ge(sub(E, W))):
                ctx.bad('enqueue-placement', 'enqueue', loc, 'the bits already in word %s are overwritten' % show(W))
            for lo, hi, src, off in ls:
                segs.append((W, lo, hi, src, off))
                if src is not val:
                    und = und and src is ZERO
        if not und:
            ctx.unk('enqueue-placement', 'enqueue', loc, 'word contents %s' % '; '.join(show(x) for x in words.values()))
            continue
        total = const(0)
        for W, lo, hi, src, off in segs:
            if src is ZERO:
                ctx.bad('enqueue-placement', 'enqueue', loc, 'bits %s..%s of word %s are cleared' % (show(lo), show(hi), show(W)))
                continue
            total = add(total, sub(hi, lo))
            p0 = add(scale(W, 32), lo)
            conserve(ctx, s, 'enqueue-placement', loc, cmp_eq(add(lo, off), add(fb, sub(p0, add(scale(E, 32), e)))),
                     'bit %s of word %s receives bit %s of the value' % (show(lo), show(W), show(add(lo, off))))
            conserve(ctx, s, 'enqueue-placement', loc, cmp_ge(sub(p0, add(scale(E, 32), e))),
                     'bits before the write cursor are written')
            conserve(ctx, s, 'enqueue-placement', loc, cmp_ge(sub(const(32), hi)), 'segment ends inside the word')
            conserve(ctx, s, 'enqueue-placement', loc, cmp_ge(lo), 'segment starts inside the word')
        conserve(ctx, s, 'enqueue-placement', loc, cmp_eq(total, w), 'bits stored: %s, chunk: %s' % (show(total), show(w)))
    if not nret:
        ctx.bad('enqueue-total', 'enqueue', fi.where(), 'no path returns')


def conserve(ctx, s, rule, loc, lit, msg):
    r = True if prove(s.facts, lit) else decide(s.facts, lit)
    if r is False and not all(simple(x) for x in s.facts if x.op in ('ge0', 'gt0', 'eq0') and not x.op == 'in'):
        r = None
    ctx.decide(r, rule, rule.split('-')[0], loc, msg + ('' if r else ' under ' + ' & '.join(
        show(f) for f in s.facts if f.op in ('ge0', 'gt0', 'eq0', 'not'))))


def pops_in(ver, L):
    """number of leading words removed before a version of the list; None if unclear"""
    n = 0
    v = ver
    while v is not None and isinstance(v, T) and v.op == 'mut':
        if v.args[1] == 'pop':
            if len(v.args) > 2 and isinstance(v.args[2], T) and num_val(v.args[2]) == 0:
                n += 1
            else:
                return None
        else:
            return None
        v = v.args[0]
    return n if v is mk('v0') else None


def check_dequeue(ctx, fi, inv, E, e, d, w, L):
    val, tb = [mk('sym', a.arg) for a in fi.node.args.args[1:3]]
    pre = inv + [cmp_ge(tb), cmp_ge(sub(const(32), add(tb, w))),
                 cmp_ge(sub(add(scale(E, 32), e), add(d, w)))]
    eng, sts = ctx.run(fi, facts=pre)
    if sts is None:
        return ctx.unk('dequeue', 'dequeue', fi.where(), 'not analysed')
    nret = 0
    for s in sts:
        loc = fi.where()
        if inconsistent(s.facts):
            continue
        simple_path = all(simple(x) for x in s.facts if x.op in ('ge0', 'gt0', 'eq0'))
        if s.exit[0] == 'raise':
            if s.exit[1].op == 'exc' and s.exit[1].args[0] in ('IndexError', 'KeyError'):
                continue
            ctx.decide(False if simple_path else None, 'dequeue-total', 'dequeue', loc,
                       'a stored chunk cannot be read under ' + ' & '.join(map(show, s.facts)))
            continue
        nret += 1
        ctx.ok('dequeue-total', 'dequeue', loc)
        E2, e2, d2 = final(s, S, '_eq_word', E), final(s, S, '_eq_bit', e), final(s, S, '_dq_bit', d)
        effs = list_effects(s, L)
        pops = 0
        if effs is not None and all(x.kind == 'Pop' and num_val(x.a[1]) is not None for x in effs):
            wrong = [x for i, x in enumerate(effs) if num_val(x.a[1]) != 0]
            if wrong:
                conserve(ctx, s, 'dequeue-words', loc, cmp_eq(abs_index(wrong[0].a[1], E, 0, effs.index(wrong[0])), const(0)),
                         'a word other than the first one is dropped')
                continue
        if effs is None or any(x.kind != 'Pop' or num_val(x.a[1]) != 0 for x in effs):
            ctx.unk('dequeue-words', 'dequeue', loc, 'unrecognised effects on the words')
            continue
        pops = len(effs)
        conserve(ctx, s, 'dequeue-cursor', loc, cmp_eq(add(const(32 * pops), d2), add(d, w)),
                 'read cursor advances by the word size: %d words dropped, bit %s' % (pops, show(d2)))
        conserve(ctx, s, 'dequeue-cursor', loc, cmp_ge(d2), 'read bit stays in the word: %s' % show(d2))
        conserve(ctx, s, 'dequeue-cursor', loc, cmp_ge(sub(const(31), d2)), 'read bit stays in the word: %s' % show(d2))
        conserve(ctx, s, 'dequeue-cursor', loc, cmp_eq(e2, e), 'dequeue moves the write bit to %s' % show(e2))
        conserve(ctx, s, 'dequeue-words', loc, cmp_eq(sub(E, E2), const(pops)), '%d words dropped, write word moves from %s to %s' %
                 (pops, show(E), show(E2)))
        ls, bg = layers(norm(s.exit[1]))
        if bg is not val:
            ctx.decide(None if not understood(bg) or bg.op not in ('poly', 'const') else False, 'dequeue-result', 'dequeue', loc,
                       'result %s' % show(s.exit[1]))
            continue
        total = const(0)
        okk = True
        for lo, hi, src, off in ls:
            if src.op != 'index' or src.args[0] is not L:
                okk = False
                continue
            k = pops_in(src.args[2], L)
            if k is None:
                okk = False
                continue
            W = add(src.args[1], const(k))
            total = add(total, sub(hi, lo))
            conserve(ctx, s, 'dequeue-result', loc, cmp_eq(add(scale(W, 32), lo, off), add(d, sub(lo, tb))),
                     'bit %s of the result is bit %s of word %s' % (show(lo), show(add(lo, off)), show(W)))
            conserve(ctx, s, 'dequeue-result', loc, cmp_ge(add(lo, off)), 'bits read inside the word')
            conserve(ctx, s, 'dequeue-result', loc, cmp_ge(sub(const(32), add(hi, off))), 'bits read inside the word')
            conserve(ctx, s, 'dequeue-result', loc, cmp_ge(sub(lo, tb)), 'bits before the destination are written')
        if not okk:
            ctx.unk('dequeue-result', 'dequeue', loc, 'result %s' % show(s.exit[1]))
            continue
        conserve(ctx, s, 'dequeue-result', loc, cmp_eq(total, w), 'bits read: %s, chunk: %s' % (show(total), show(w)))
    if not nret:
        ctx.bad('dequeue-total', 'dequeue', fi.where(), 'no path returns')


def check_empty(ctx, fi, inv, E, e, d):
    eng, sts = ctx.run(fi, facts=inv)
    left = sub(add(scale(E, 32), e), d)        # bits not read yet
    for s in sts or []:
        if s.exit[0] != 'return':
            ctx.bad('empty', 'empty', fi.where(), 'raises %s' % show(s.exit[1]))
            continue
        if inconsistent(s.facts):
            continue
        v = s.exit[1]
        if v is TRUE:
            conserve(ctx, s, 'empty', fi.where(), cmp_ge(neg(left)), 'empty answers True while bits are left')
        elif v is FALSE:
            conserve(ctx, s, 'empty', fi.where(), cmp_gt(left), 'empty answers False while no bit is left')
        elif v.op in ('ge0', 'gt0', 'eq0', 'not'):
            t = tuple(s.facts) + (v,)
            f = tuple(s.facts) + (neg_lit(v),)
            for fs, lit in ((t, cmp_ge(neg(left))), (f, cmp_gt(left))):
                if inconsistent(fs):
                    continue
                ctx.decide(True if prove(fs, lit) else (False if simple(v) else None), 'empty', 'empty', fi.where(), show(v))
        else:
            ctx.unk('empty', 'empty', fi.where(), show(v))
