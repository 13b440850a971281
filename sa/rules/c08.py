"""C08: a corrupted program saved as JSON loads back the same."""
from ..terms import *
from ..prove import prove, simple, inconsistent
from ..report import events, understood, loops_of, conj
from ..shape import *
from ..engine import Ev, LoopItem

MOD = 'corruption.corruption'


def flat(a):
    for x in a:
        if isinstance(x, (tuple, list)):
            yield from flat(x)
        else:
            yield x


def run(ctx):
    ctx.part(saving)
    ctx.part(encoding)
    ctx.part(loading)
    ctx.part(delegates)


def mode_of(e):
    m = e.a[1][1] if len(e.a[1]) > 1 else const('r')
    return m.args[0] if m.op == 'const' and isinstance(m.args[0], str) else None


def saving(ctx):
    name = 'save_corrupted_program_to_json'
    fi = ctx.func(MOD, name)
    program, path = [mk('sym', a.arg) for a in fi.node.args.args[:2]]
    eng, sts = ctx.run(fi)
    for s in sts or ():
        if s.exit[0] != 'return':
            continue
        op = [e for e, l in events(s.items()) if e.kind == 'Open']
        dump = [e for e, l in events(s.items()) if e.kind == 'Call' and e.a[0] in ('json.dump', 'json.dumps')]
        if len(op) != 1 or len(dump) != 1:
            ctx.decide(False if not dump and not any(e.kind in ('Call', 'CallUnknown', 'File') and e not in op for e, l in events(s.items())) else None,
                       'saved', name, fi.where(), 'nothing is written')
            continue
        m = mode_of(op[0])
        ctx.decide(('w' in m and 'b' not in m) if m is not None else None, 'saved', name, op[0].loc, 'opened with mode %s' % m)
        ctx.decide(True if op[0].a[1][0] is path else None, 'saved', name, op[0].loc, 'written to %s' % show(op[0].a[1][0]))
        a = dump[0].a[1]
        what = a[0]
        # the whole program, or a dictionary with the encodings of every candidate
        ctx.decide(True if what is program else (False if what.op == 'slice' or clear(what) and not has(what, program) and what.op in ('file', 'sym', 'attr', 'const') else None), 'saved', name, dump[0].loc, 'saves %s' % show(what)[:80])
        if dump[0].a[0] == 'json.dump':
            ctx.decide(True if len(a) > 1 and a[1] is op[0].a[0] else None, 'saved', name, dump[0].loc)
        else:
            wr = [e for e, l in events(s.items()) if e.kind == 'File' and e.a[1] == 'write' and e.a[0] is op[0].a[0]]
            ctx.decide(True if wr and any(has(x, dump_term(dump[0])) or has_op(x, 'call') for x in wr[0].a[2]) else None, 'saved', name, dump[0].loc)
        if what.op == 'obj' and what is not program:
            for e, loops, pos in ordered(s.items()):
                if e.kind in ('SetItem', 'Append') and loops:
                    l, b = loops[-1]
                    of = l.seq is not None and (has(l.seq, program) or any(has(l.seq, m.iota) for m, _ in loops[:-1]))
                    out = [bb for bb in l.bodies if bb.kind == 'next' and not any(isinstance(y, Ev) and y.kind == e.kind and y.a[0] is e.a[0] for y in bb.trace)]
                    for bb in out:
                        lits = [f for f in bb.facts if any(y.op == 'attr' for y in walk(f))]
                        if of and lits:
                            ctx.bad('saved', name, e.loc, 'left out of what is saved under %s' % conj(lits)[:120])
        enc = [x for x in a if isinstance(x, T) and x.op == 'cls']
        skip = [x for x in a[1:] if isinstance(x, T)]
        if what is program:
            dflt = [x for x in a[1:] if isinstance(x, T) and x.op in ('fn', 'lambda', 'closure')]
            ctx.decide(True if enc and enc[0].args[0].endswith('InstructionEncoder') else (None if dflt or enc else False), 'saved', name, dump[0].loc,
                       'candidates cannot be written')


def dump_term(e):
    return mk('call', mk('ext', e.a[0]), *e.a[1])


def encoding(ctx):
    name = 'InstructionEncoder.default'
    fi = ctx.func(MOD, name)
    obj = mk('sym', fi.node.args.args[1].arg)
    eng, sts = ctx.run(fi)
    n = 0
    for s in sts or ():
        inst = [f for f in s.facts if f.op == 'isinst' and f.args[0] is obj]
        if s.exit[0] == 'return' and inst:
            n += 1
            v = s.exit[1]
            ctx.decide(True if v is mk('attr', obj, 'encoding') else (False if clear(v) else None), 'candidate', name, fi.where(), 'a candidate is written as %s' % show(v)[:80])
    if not n:
        st = [s for s in sts or () if s.exit[0] == 'return' and s.exit[1] is mk('attr', obj, 'encoding')]
        if st:
            ctx.ok('candidate', name, fi.where(), 'a candidate is written as its encoding')
        else:
            none = [s for s in sts or () if s.exit[0] == 'return' and any(x.op == 'attr' and x.args[0] is obj or x.op == 'unk' for x in walk(s.exit[1]))]
            ctx.decide(None if none or not sts else False, 'candidate', name, fi.where(), 'no candidate is written as its encoding')


def is_load(t):
    return t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0] in ('json.load', 'json.loads')


def loading(ctx):
    name = 'load_corrupted_program_from_json'
    fi = ctx.func(MOD, name)
    path = mk('sym', fi.node.args.args[0].arg)
    eng, sts = ctx.run(fi)
    for s in sts or ():
        if s.exit[0] != 'return':
            continue
        op = [e for e, l in events(s.items()) if e.kind == 'Open']
        if len(op) == 1:
            m = mode_of(op[0])
            ctx.decide(('r' in m or m == 't') and 'w' not in m if m is not None else None, 'loaded', name, op[0].loc, 'opened with mode %s' % m)
            ctx.decide(True if op[0].a[1][0] is path else None, 'loaded', name, op[0].loc)
        R = s.exit[1]
        ins = [(e, l) for e, l, p in ordered(s.items()) if e.kind == 'SetItem' and e.a[0] is R]
        # of several entries for the same key, the last counts
        if len(ins) > 1 and all(l and l[-1][0] is ins[0][1][-1][0] and len(l) == len(ins[0][1]) and x.a[1] is ins[0][0].a[1] for x, l in ins) and \
                len(set(id(l[-1][1]) for x, l in ins)) == 1:
            ins = ins[-1:]
        if len(ins) != 1 or not ins[0][1]:
            idle = R.op == 'obj' and not ins and not any(e.kind not in ('NewDict', 'New', 'Return') and any(isinstance(x, T) and has(x, R) for x in flat(e.a)) for e, l in events(s.items()))
            ctx.decide(False if is_load(R) or idle else None, 'loaded', name, fi.where(), '%d places fill the result' % len(ins))
            continue
        e, loops = ins[0]
        L = loops[-1][0]
        data = L.seq
        while data is not None and data is not False and data.op in ('items', 'perm', 'keys') and data.args and isinstance(data.args[0], T):
            data = data.args[0]
        if not is_load(data):
            ctx.decide(False if isinstance(L.seq, T) and (has_op(L.seq, 'slice') or data is path) else None, 'loaded', name, L.loc, 'addresses read: %s' % show(L.seq)[:100])
            continue
        for b in L.bodies:
            if b.kind != 'next':
                ctx.bad('loaded', name, L.loc, 'left early under %s' % conj(b.facts)[:100])
            elif not any(isinstance(x, Ev) and x.kind == 'SetItem' and x.a[0] is R for x in b.trace):
                lits = [f for f in b.facts if f.op not in ('in',) and not (L.count is not None and f is cmp_gt(sub(L.count, L.iota)))]
                ctx.decide(False if lits and not loops_of(b.trace) else None, 'loaded', name, L.loc, 'an address is left out under %s' % conj(lits)[:160])
        el = L.elem
        jk = el.args[0] if el.op == 'tuple' else el
        jv = el.args[1] if el.op == 'tuple' else None
        key = e.a[1]
        asint = mk('call', mk('builtin', 'int'), jk)
        base = key.args[2] if key.op == 'call' and key.args[0] is asint.args[0] and len(key.args) == 3 and key.args[1] is jk else None
        if base is not None and num_val(base) not in (None, 10, 0):
            ctx.bad('address', name, e.loc, 'the address is read in base %s, written in base 10' % show(base))
        ctx.decide(True if key is asint else (False if key is jk or (clear(key, (data, asint)) and num_val(sub(key, asint)) is not None) else None), 'address', name, e.loc,
                   'filed under %s' % show(key)[-60:])
        lst = jv if jv is not None else mk('index', data, jk, mk('v0'))
        v = e.a[2]
        made = []
        if v is lst or (v.op == 'index' and v.args[0] is data and v.args[1] is jk):
            made = [(x, l) for x, l, p in ordered(s.items()) if x.kind == 'SetItem' and x.a[0] is v]
            vals = [(x, x.a[1], x.a[2], l) for x, l in made]
        else:
            made = [(x, l) for x, l, p in ordered(s.items()) if x.kind == 'Append' and x.a[0] is v]
            vals = [(x, None, x.a[1], l) for x, l in made]
        if len(vals) != 1 or not vals[0][3] or vals[0][3][-1][0] is L:
            turned = [y for y, l2, p2 in ordered(s.items()) if y.kind in ('Reverse', 'Sort') and y.a[0] is v]
            back = v.op == 'slice' and num_val(v.args[3]) is not None and num_val(v.args[3]) != 1
            cp = eng.content(s, v) if v.op == 'obj' else None
            back = back or v.op == 'obj' and any(isinstance(c, T) and c.op in ('rev', 'reversed') for c in walk(cp) if cp is not None) if cp is not None else back
            ctx.decide(False if not vals and v is lst or back or turned else None, 'candidates', name, e.loc, 'candidates of %s' % show(v)[:60])
            continue
        x, i, t, l = vals[0]
        M = l[-1][0]
        if t.op != 'new' or len(t.args) < 3:
            ctx.unk('candidates', name, x.loc, show(t)[:100])
            continue
        enc, adr = t.args[1:3]
        ctx.decide(True if adr is key and adr is asint else (False if clear(adr, (data, asint)) else None), 'address', name, x.loc, 'a candidate with address %s' % show(adr)[-60:])
        ctx.decide('CAPSInstruction' in show(t.args[0]) if isinstance(t.args[0], T) else 'CAPSInstruction' in str(t.args[0]), 'candidates', name, x.loc, 'made as %s' % str(t.args[0])[:60])
        ok = None
        if enc.op in ('index', 'elem') and enc.args[0].op == 'index' and enc.args[0].args[0] is data and enc.args[0].args[1] is jk or \
                (enc.op in ('index', 'elem') and enc.args[0] is lst):
            j = enc.args[1]
            ok = (True if j is i else (False if clear(j) else None)) if i is not None else (True if j is M.iota else (False if clear(j) else None))
        elif clear(enc, (data,)):
            ok = False
        ctx.decide(ok, 'candidates', name, x.loc, 'candidate made from %s' % show(enc)[-80:])
        n = M.count
        if i is not None:
            ctx.decide(True if i is M.iota else (False if clear(i) else None), 'candidates', name, x.loc, 'position %s' % show(i))
        full = n is not None and n.op == 'len' and (n.args[0] is lst or (n.args[0].op == 'index' and n.args[0].args[0] is data))
        ctx.decide(True if full else (False if n is not None and clear(n, (data,)) else None), 'candidates', name, x.loc, '%s candidates are read' % (show(n)[-80:] if n is not None else '?'))
        for b in M.bodies:
            if b.kind != 'next':
                ctx.bad('candidates', name, x.loc, 'left early under %s' % conj(b.facts)[-100:])
            elif not any(isinstance(y, Ev) and y.kind == x.kind and y.a[0] is v for y in b.trace):
                lits = [f for f in b.facts if f.op != 'in' and not (f.op == 'ge0' and has(f, M.iota) and has_op(f, 'len'))]
                ctx.decide(False if lits else None, 'candidates', name, x.loc, 'a candidate is left out under %s' % conj(lits)[:160])


def delegates(ctx):
    fi = ctx.func('corruption.corruptors', 'Corruptor._save_corrupted_program')
    eng, sts = ctx.run(fi, opaque_funcs=('save_corrupted_program_to_json',))
    S, program = mk('sym', 'self'), mk('sym', fi.node.args.args[1].arg)
    p = mk('attr', S, 'corrupted_program_path')
    for s in sts or ():
        c = [e for e, l in events(s.items()) if e.kind == 'Call' and e.a[0].endswith('save_corrupted_program_to_json')]
        if s.exit[0] == 'return':
            ctx.decide(True if len(c) == 1 and tuple(c[0].a[1][-2:]) == (program, p) else (False if not c and s.facts == () else None), 'saved',
                       'Corruptor._save_corrupted_program', fi.where(), 'saves %s' % ', '.join(show(x) for x in c[0].a[1]) if c else 'nothing is saved')
    fi = ctx.func('corruption.corruptors', 'JSONCorruptor.corrupt')
    eng, sts = ctx.run(fi, opaque_funcs=('load_corrupted_program_from_json',))
    for s in sts or ():
        c = [e for e, l in events(s.items()) if e.kind == 'Call' and e.a[0].endswith('load_corrupted_program_from_json')]
        if s.exit[0] == 'return':
            ok = len(c) == 1 and c[0].a[1][-1] is p and s.exit[1].op == 'call'
            ctx.decide(True if ok else (False if s.exit[1] is program or s.exit[1] is NONE else None), 'loaded', 'JSONCorruptor.corrupt', fi.where(), 'returns %s' % show(s.exit[1])[:80])
