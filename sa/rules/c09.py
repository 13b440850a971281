"""C09: a solution file reads back what was written.

The record structure written and the one read are extracted from the traces of the two functions (fields, in
order, with their size codes; repeated groups with their counts) and matched field by field.  What the reader
puts in its results is then compared, field by field, with what the writer put in the file.
"""
from ..terms import *
from ..prove import prove, simple, inconsistent
from ..report import events, understood, loops_of, conj
from ..trans import at_init, at_next
from ..shape import *
from ..engine import Ev, LoopItem, Alt, struct_codes

MOD = 'solution.solution_io'


def run(ctx):
    ctx.part(roundtrip)


def codes(t):
    if t.op != 'const' or not isinstance(t.args[0], str):
        return None
    o = t.args[0][:1] if t.args[0][:1] in '@=<>!' else '@'
    return [(o, c) for c in struct_codes(t.args[0])]


SIZE = {'b': 1, 'B': 1, 'c': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8}
BITS = {'B': 8, 'b': 7, 'H': 16, 'h': 15, 'I': 32, 'L': 32, 'l': 31, 'i': 31, 'Q': 64, 'q': 63}


def written(items, fout):
    """[('f', (order, code), value, loc) | ('loop', loop, [(facts, sub-grammar)])] or None"""
    out = []
    for it in items:
        if isinstance(it, LoopItem):
            alts = []
            for b in it.loop.bodies:
                g = written(b.trace, fout)
                if g is None:
                    return None
                alts.append((b, g))
            if any(g for b, g in alts):
                out.append(('loop', it.loop, alts, it.loop.loc))
        elif isinstance(it, Alt):
            gs = [written(tr, fout) for fs, tr in it.paths]
            if any(g is None or g for g in gs):
                return None
        elif it.kind == 'File' and it.a[0] is fout:
            if it.a[1] == 'write':
                d = it.a[2][0]
                if d.op != 'call' or show(d.args[0]) not in ('ext(struct.pack)',):
                    return None
                cs = codes(d.args[1])
                if cs is None or len(cs) != len(d.args) - 2:
                    return None
                out += [('f', c, whole_word(c, v), it.loc) for c, v in zip(cs, d.args[2:])]
            elif it.a[1] not in ('close', 'flush'):
                return None
    return out


def whole_word(code, v):
    """an encoding cut to the bits of its field is the encoding"""
    for x in walk(v):
        if x is not v and x.op == 'attr' and x.args[1] == 'encoding' and BITS.get(code[1]) and mod(x, const(2 ** BITS[code[1]])) is v:
            return x
    return v


def read(items, fin):
    out = []
    for it in items:
        if isinstance(it, LoopItem):
            alts = []
            for b in it.loop.bodies:
                g = read(b.trace, fin)
                if g is None:
                    return None
                alts.append((b, g))
            if any(g for b, g in alts):
                out.append(('loop', it.loop, alts, it.loop.loc))
        elif isinstance(it, Alt):
            gs = [read(tr, fin) for fs, tr in it.paths]
            if any(g is None or g for g in gs):
                return None
        elif it.kind == 'File' and it.a[0] is fin:
            if it.a[1] == 'read':
                out.append(('r', it.a[2][0] if it.a[2] else None, None, it.loc))
            elif it.a[1] not in ('close',):
                return None
        elif it.kind == 'Call' and it.a[0] == 'struct.unpack':
            fmt, data = it.a[1][:2]
            cs = codes(fmt)
            if cs is None or not out or out[-1][0] != 'r' or data.op != 'mcall' or data.args[0] is not fin:
                return None
            size = out.pop()[1]
            u = mk('call', mk('ext', 'struct.unpack'), fmt, data)
            vs = [u] if len(cs) == 1 else [mk('index', u, const(i), mk('v0')) for i in range(len(cs))]
            n = sum(SIZE.get(c[1], 0) for c in cs)
            for c, v in zip(cs, vs):
                out.append(('f', c, v, it.loc, num_val(size) == n if num_val(size) is not None else None, size))
    if any(x[0] == 'r' for x in out):
        return None
    return out


def stamp(t):
    d = t.args[2] if len(t.args) > 2 else None
    return d.args[-1] if d is not None and d.op == 'mcall' and d.args[-1].op == 'n' else None


class Match(object):
    def __init__(self, ctx, name):
        self.ctx, self.name, self.env, self.loops, self.ok = ctx, name, {}, [], True

    def rd(self, t):
        t = subst(t, self.env)
        # a field read at another step of a group
        m = {}
        for x in walk(t):
            if x.op == 'call' and x.args[0].op == 'ext' and x not in m:
                for k, v in self.env.items():
                    if k.op == 'call' and k.args[:2] == x.args[:2]:
                        a, b = stamp(k), stamp(x)
                        if a is not None and b is not None and a.args[0] == b.args[0] and len(a.args) == len(b.args):
                            m[x] = subst(v, {subst(p, self.env): q for p, q in zip(a.args[1:], b.args[1:])})
        return subst(t, m) if m else t

    def seq(self, w, r, wf, rf):
        """match a written group against a read group"""
        i = j = 0
        ctx, name = self.ctx, self.name
        while i < len(w) or j < len(r):
            a, b = (w[i] if i < len(w) else None), (r[j] if j < len(r) else None)
            if a is not None and a[0] == 'loop' and (b is None or b[0] == 'f'):
                # nothing repeated: the count must be known to be zero
                c = a[1].count
                zero = c is not None and prove(tuple(rf), cmp_ge(neg(c)))
                some = c is not None and prove(tuple(wf) + tuple(rf), cmp_ge(sub(c, const(1))))
                ctx.decide(True if zero else (False if some else False if c is not None and clear(c) and not any(has(f, x) for f in rf for x in walk(c) if x.op == 'sym') else None),
                           'format', name, a[3], 'a written group is not read back under %s' % conj(rf)[-160:])
                if not zero:
                    self.ok = False
                    return
                i += 1
                continue
            if a is None or b is None or a[0] != b[0]:
                self.ok = False
                x = a or b
                return ctx.bad('format', name, x[3], '%s without a counterpart' % (('a field %s %s' % (x[1][1], 'is written' if a else 'is read')) if x[0] == 'f' else 'a group'))
            if a[0] == 'f':
                same = a[1] == b[1] or (a[1][1] in SIZE and b[1][1] in SIZE and SIZE[a[1][1]] == SIZE[b[1][1]] and a[1][1].isupper() == b[1][1].isupper() and
                                        a[1][0] == b[1][0])
                ctx.decide(same, 'format', name, b[3], 'field written as %s%s is read as %s%s' % (a[1] + b[1]))
                ctx.decide(b[4], 'format', name, b[3], '%s bytes read for code %s' % (show(b[5]) if b[5] is not None else '?', b[1][1]))
                if not same:
                    self.ok = False
                    return
                self.env[b[2]] = a[2]
                self.width(a)
            else:
                self.loop(a, b, wf, rf)
                if not self.ok:
                    return
            i += 1
            j += 1

    def width(self, a):
        v, c = a[2], a[1][1]
        need = 32 if (v.op == 'attr' and v.args[1] == 'encoding') or v.op == 'elem' else None
        if num_val(v) is not None:
            need = max(1, int(num_val(v)).bit_length())
        if need and c in BITS:
            self.ctx.decide(BITS[c] >= need, 'width', self.name, a[3], '%s is written in %d bits' % (show(v)[:60], BITS[c]))

    def loop(self, a, b, wf, rf):
        ctx, name = self.ctx, self.name
        LW, LR = a[1], b[1]
        cw, cr = LW.count, LR.count
        cr2 = self.rd(cr) if cr is not None else None
        if cr2 is not None and cr2.op == 'max' and const(0) in cr2.args:
            cr2 = [x for x in cr2.args if x is not const(0)][0]
        okc = cw is not None and cr2 is not None and (cw is cr2 or (cr2.op == 'len' and cw.op == 'len' and cr2.args[0] is cw.args[0]))
        ctx.decide(True if okc else (False if cw is not None and cr2 is not None and clear(cw) and clear(cr2) else None), 'group-count', name, LR.loc,
                   '%s items written, %s read' % (show(cw)[:80] if cw is not None else '?', show(cr2)[:80] if cr2 is not None else '?'))
        self.env[LR.iota] = LW.iota
        self.loops.append((LW, LR))
        wb = [(x, g) for x, g in a[2] if x.kind == 'next']
        for x, g in b[2]:
            if x.kind == 'break':
                ctx.bad('group-count', name, LR.loc, 'reading stops early under %s' % conj(x.facts)[:160])
        rb = [(x, g) for x, g in b[2] if x.kind == 'next']
        for x, g in wb:
            for y, h in rb:
                e0 = dict(self.env)
                # fields first, to read the facts of the reading path in terms of what was written
                for p, q in zip(g, h):
                    if p[0] == 'f' and q[0] == 'f':
                        self.env[q[2]] = p[2]
                fs = tuple(self.rd(f) for f in y.facts if not f.op == 'in')
                both = tuple(x.facts) + fs
                if any(f is FALSE for f in fs) or inconsistent(both):
                    self.env = e0
                    continue
                self.seq(g, h, x.facts, both)
                if not self.ok:
                    return


def roundtrip(ctx):
    name = 'SolutionReader.read'
    wi, ri = ctx.func(MOD, 'SolutionWriter.write_binary'), ctx.func(MOD, 'SolutionReader.read')
    ps = [a.arg for a in wi.node.args.args]
    original, program = mk('sym', ps[2]), mk('sym', ps[3])
    we, ws = ctx.run(wi)
    re_, rs = ctx.run(ri)
    if not ws or not rs:
        return ctx.unk('format', name, ri.where())
    wdone = [s for s in ws if s.exit[0] == 'return']
    rdone = [s for s in rs if s.exit[0] == 'return']
    if not wdone or not rdone:
        return ctx.bad('format', name, ri.where(), 'never completes') if ws and rs and not (wdone and rdone) else None
    for s in wdone:
        op = [e for e, l in events(s.items()) if e.kind == 'Open']
        if len(op) != 1:
            ctx.unk('format', name, wi.where())
            continue
        mode = op[0].a[1][1] if len(op[0].a[1]) > 1 else const('r')
        m = mode.args[0] if mode.op == 'const' else None
        ctx.decide(('b' in m and ('w' in m)) if isinstance(m, str) else None, 'open', 'SolutionWriter.write_binary', op[0].loc, 'opened with mode %s' % show(mode))
        g = written(s.items(), op[0].a[0])
        if g is None:
            ctx.unk('format', 'SolutionWriter.write_binary', wi.where(), 'the records written were not recognised')
            continue
        for r in rdone:
            ro = [e for e, l in events(r.items()) if e.kind == 'Open']
            if len(ro) != 1:
                ctx.unk('format', name, ri.where())
                continue
            mode = ro[0].a[1][1] if len(ro[0].a[1]) > 1 else const('r')
            ctx.decide(('b' in mode.args[0] and 'r' in mode.args[0]) if mode.op == 'const' else None, 'open', name, ro[0].loc, 'opened with mode %s' % show(mode))
            h = read(r.items(), ro[0].a[0])
            if h is None:
                ctx.unk('format', name, ri.where(), 'the records read were not recognised')
                continue
            M = Match(ctx, name)
            M.seq(g, h, s.facts, r.facts)
            if not M.ok:
                continue
            # the file just written is accepted
            fs = [M.rd(f) for f in r.facts]
            bad = [f for f in fs if f is FALSE]
            ctx.decide(not bad, 'accepted', name, ri.where(), 'the file written is refused')
            opening(ctx, name, r, g, h, ri)
            contents(ctx, name, s, r, g, M, original, program, we, re_)
    if not any(r.exit[0] == 'raise' for r in rs) and all(not any(z.op in ('unk', 'fn') for q in r.facts for z in walk(q)) for r in rs) and \
            not any(e.kind == 'CallUnknown' and e.a and isinstance(e.a[0], T) and e.a[0].op == 'fn' for r in rs for e, l in events(r.items())):
        ctx.bad('accepted', name, ri.where(), 'no file is refused')
    for r in rs:
        if r.exit[0] == 'raise':
            magic = any(f.op == 'not' and f.args[0].op == 'eq0' and has_op(f, 'call') for f in r.facts)
            ctx.decide(True if magic else None, 'accepted', name, ri.where(), 'raised under %s' % conj(r.facts)[:120])
    missing(ctx, ws, original, program, wi)


def opening(ctx, name, r, g, h, ri):
    """what is read goes on only when the first field is the very number written first"""
    if not g or not h or g[0][0] != 'f' or h[0][0] != 'f' or num_val(g[0][2]) is None:
        return
    u, w = h[0][2], g[0][2]
    if prove(r.facts, cmp_eq(u, w)):
        return ctx.ok('accepted', name, ri.where(), 'only with the magic number')
    fs = [x for x in r.facts if any(y is u for y in walk(x))]
    for x in fs:
        for v in (add(w, const(1)), sub(w, const(1)), add(w, const(2 ** 32)), sub(w, const(2 ** 40)), const(0), add(w, const(2 ** 31))):
            if all(subst(y, {u: v}) is TRUE for y in fs):
                return ctx.bad('accepted', name, ri.where(), 'a file that begins with %s is not refused' % show(v))
    ctx.unk('accepted', name, ri.where(), 'which files are accepted is not followed')


def contents(ctx, name, s, r, g, M, original, program, we, re_):
    """what the reader returns in terms of what was written"""
    wl = [x for x in g if x[0] == 'loop']
    if len(wl) != 1 or r.exit[1].op != 'tuple' or len(r.exit[1].args) != 2:
        return ctx.unk('contents', name, r_loc(wl))
    LW = wl[0][1]
    key, lst = None, None
    if LW.elem.op == 'tuple' and len(LW.elem.args) == 2:
        key, lst = LW.elem.args
    elif LW.elem.op == 'elem':
        key = LW.elem
    if key is None or key.op != 'elem' or LW.seq is None or not has(LW.seq, program):
        return ctx.unk('contents', name, wl[0][3], 'addresses written: %s' % show(LW.elem)[:80])
    base = LW.seq
    whole = base is program or (base.op in ('items', 'keys', 'perm') and (base.args[0] is program or (base.args[0].op in ('items', 'keys', 'perm') and base.args[0].args[0] is program)))
    ctx.decide(True if whole else (False if base.op == 'slice' else None), 'contents', 'SolutionWriter.write_binary', wl[0][3], 'addresses written: %s' % show(base)[:80])
    if lst is None:
        lst = mk('index', program, key, mk('v0'))
    O, P = r.exit[1].args
    # the writer's group of one address
    for b, gg in wl[0][2]:
        if b.kind != 'next':
            continue
        inner = [x for x in gg if x[0] == 'loop']
        flds = [x for x in gg if x[0] == 'f']
        if not flds or len(inner) != 1:
            ctx.unk('contents', 'SolutionWriter.write_binary', wl[0][3])
            continue
        k = flds[0][2]
        ctx.decide(True if any(f[2] is key for f in flds) else (False if all(clear(f[2]) for f in flds) else None), 'contents', 'SolutionWriter.write_binary', flds[0][3],
                   'the address written is %s' % show(k)[:80])
        LI = inner[0][1]
        enc = [x for x in inner[0][2][0][1] if x[0] == 'f']
        v = enc[0][2] if enc else None
        ok = None
        if v is not None and v.op == 'attr' and v.args[1] == 'encoding':
            o = v.args[0]
            if o.op in ('index', 'elem'):
                if o.args[0] is lst or (LI.seq is not None and o is LI.elem and LI.seq.op == 'slice' and LI.seq.args[0] is lst):
                    ok = True if o.args[1] is LI.iota else (False if clear(o.args[1]) else None)
        elif v is not None and clear(v):
            ok = False
        ctx.decide(ok, 'contents', 'SolutionWriter.write_binary', inner[0][3], 'candidate written: %s' % (show(v)[:120] if v is not None else '?'))
        # up to and including the original
        c = LI.count
        last = sub(c, const(1)) if c is not None else None
        orig_enc = None
        st = None
        if last is not None:
            for f in b.facts:
                g_ = f
                if g_.op == 'eq0' and has_op(g_, 'attr'):
                    es = [x for x in walk(g_) if x.op == 'attr' and x.args[1] == 'encoding']
                    at = [x for x in es if x.args[0].op in ('elem', 'index') and x.args[0].args[0] is lst]
                    oth = [x for x in es if x not in at]
                    if at and oth:
                        okp = own_original(oth[0], key)
                        if at[0].args[0].args[1] is last:
                            st = okp
                        elif clear(last):
                            st = False
        if st is None and c is not None and c.op == 'len' and c.args[0] is lst:
            st = False
        if st is None and c is not None:
            # nothing that decides how many are written looks at an encoding
            qs = [c] + [q for q in b.facts] + [q for e, l in events(b.trace) for x, y in l for q in y.facts] + [q for l in loops_of(b.trace) for y in l.loop.bodies for q in y.facts]
            if not any(z.op in ('unk', 'call', 'mcall', 'fn', 'exists', 'find', 'lambda') or z.op == 'attr' and z.args[1] == 'encoding' or z.op == 'mapseq' for q in qs for z in walk(q)):
                st = False
        ctx.decide(st, 'up-to-original', 'SolutionWriter.write_binary', inner[0][3], '%s candidates are written under %s' % (show(c)[:80] if c is not None else '?', conj(b.facts)[-200:]))
    # the reader's results
    n = {O: 0, P: 0}
    for e, loops, pos in ordered(r.items()):
        if e.kind != 'SetItem' or e.a[0] not in (O, P):
            continue
        n[e.a[0]] += 1
        k, v = M.rd(e.a[1]), e.a[2]
        ctx.decide(True if k is key else (False if clear(k) else None), 'contents', name, e.loc, 'filed under %s' % show(k)[:80])
        if v.op != 'obj':
            ctx.unk('contents', name, e.loc, show(v)[:80])
            continue
        els = [(x, l) for x, l, p in ordered(r.items()) if x.kind == 'Append' and x.a[0] is v]
        if not els:
            ct = [x for x, l, p in ordered(r.items()) if x.kind == 'NewList' and x.a[0] is v]
            b = loops[-1][1] if loops else None
            h = b.state.heap.get((v, '#')) if b is not None else None
            if h is not None and h.op == 'seq':
                els = [(None, ())] if len(h.args) == 1 else []
                nt = h.args[0] if len(h.args) == 1 else None
                if nt is None:
                    ctx.unk('contents', name, e.loc)
                    continue
                instruction(ctx, name, e.loc, M.rd(nt), key, lst, s, e.a[0] is O, g)
                continue
            ctx.unk('contents', name, e.loc)
            continue
        for x, l in els:
            L = [y for y, bb in l if any(y is lr for lw, lr in M.loops)]
            instruction(ctx, name, x.loc, M.rd(x.a[1]), key, lst, s, e.a[0] is O, g)
    for o, what in ((P, 'candidates'), (O, 'original')):
        used = any(e.kind not in ('SetItem', 'NewDict', 'New', 'NewList', 'Return') and any(isinstance(x, T) and has(x, o) for x in flat_args(e.a)) for e, l in events(r.items()))
        ctx.decide(True if n[o] else False if o.op == 'obj' and not used else None, 'contents', name, wl[0][3], 'no %s returned' % what)


def flat_args(a):
    for x in a:
        if isinstance(x, (tuple, list)):
            yield from flat_args(x)
        else:
            yield x


def r_loc(wl):
    return wl[0][3] if wl else ''


def own_original(t, key):
    """t is the encoding of the original instruction of the address"""
    o = t.args[0]
    for x in walk(o):
        if x.op == 'index' and x.args[1] is key:
            return True
    return False if clear(t) else None


def instruction(ctx, name, loc, t, key, lst, s, original, g):
    """candidate of the file: encoding and address"""
    if t.op != 'new' or len(t.args) < 3:
        return ctx.unk('contents', name, loc, show(t)[:80])
    enc, adr = t.args[1:3]
    ctx.decide(True if adr is key else (False if clear(adr) else None), 'contents', name, loc, 'address %s for an instruction of %s' % (show(adr)[:60], show(key)[:60]))
    if enc.op == 'attr' and enc.args[1] == 'encoding' and enc.args[0].op in ('index', 'elem') and enc.args[0].args[0] is lst:
        i = enc.args[0].args[1]
        if original:
            li = [x for y in g if y[0] == 'loop' for b, gg in y[2] for x in gg if x[0] == 'loop']
            c = li[0][1].count if li else None
            ctx.decide(True if c is not None and i is sub(c, const(1)) else (False if c is not None and clear(i) else None), 'contents', name, loc,
                       'the original is candidate %s of %s written' % (show(i)[:60], show(c) if c is not None else '?'))
        else:
            li = [x for y in g if y[0] == 'loop' for b, gg in y[2] for x in gg if x[0] == 'loop']
            ctx.decide(True if li and i is li[0][1].iota else (False if clear(i) else None), 'contents', name, loc, 'candidate %s' % show(i)[:60])
    else:
        ctx.decide(False if clear(enc) and not any(x.op == 'fn' for x in walk(enc)) else None, 'contents', name, loc, 'made from %s' % show(enc)[:100])


def missing(ctx, ws, original, program, wi):
    """an address whose candidates lack the original is refused"""
    name = 'SolutionWriter.write_binary'
    ok = None
    for s in ws:
        for e, loops in events(s.items()):
            if e.kind == 'Raise' and loops and any(f.op == 'not' and f.args[0].op == 'exists' for f in loops[-1][1].facts):
                ok = True
    skip = False
    for s in ws:
        if s.exit[0] != 'return':
            continue
        for it in s.items():
            if isinstance(it, LoopItem):
                for b in it.loop.bodies:
                    if b.kind == 'next' and any(f.op == 'not' and f.args[0].op == 'exists' for f in b.facts) and \
                            any(isinstance(x, Ev) and x.kind == 'File' for x in b.trace):
                        skip = True
    ctx.decide(False if skip else ok, 'original-missing', name, wi.where(), 'an address without its original instruction is written')
