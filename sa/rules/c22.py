"""C22: an instruction is the number it was given; where it branches to, and whether it links, is what its bits say."""
from ..terms import *
from ..prove import prove, inconsistent
from ..report import conj, events, loops_of
from ..engine import LoopItem, Ev
from ..bitnorm import norm
from ..shape import *

BASE = 'architecture.instruction'
CAPS = 'architecture.capstone_instruction'
DARM = 'architecture.darm_instruction'
TOP = 1 << 32
OPAQUE = ('is_branch', 'is_undefined', 'opcode_field', 'registers_written', 'registers_used', 'registers_read', 'is_push_pop')
ENC = mk('attr', mk('sym', 'self'), '_encoding')
ADDR = mk('attr', mk('sym', 'self'), '_address')
KEPT = mk('attr', mk('sym', 'self'), '_jumping_address')


def run(ctx):
    for f in (encoding, order, registers, target_bits, target_capstone, link, lookup):
        ctx.part(f)


# ---------------------------------------------------------------- bit patterns

def cube(t):
    """(mask, value) with t true exactly when encoding & mask == value; None when it is no such literal"""
    if t.op != 'eq0':
        t = norm(t)
    if t.op != 'eq0':
        return None
    for x in (t, mk('eq0', scale(t.args[0], -1))):
        c = cube_of(norm(x))
        if c is not None:
            return c
    return None


def cube_of(t):
    if t.op != 'eq0':
        return None
    d = dict(pd(t.args[0]))
    c = d.pop((), 0)
    if len(d) != 1:
        return None
    (m, k), = d.items()
    if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0].op == 'and' and ENC in m[0][0].args:
        ks = [int_val(x) for x in m[0][0].args if x is not ENC]
        want = -c * k
        if len(ks) != 1 or ks[0] is None or want.denominator != 1:
            return None
        return (ks[0], int(want)) if want >= 0 and not int(want) & ~ks[0] else (0, 1)
    if len(m) != 1 or m[0][1] != 1 or abs(k) != 1 or m[0][0].op != 'bits' or m[0][0].args[1].op != 'zero':
        return None
    want = -c * k
    if want.denominator != 1 or want < 0:
        return None
    mask = val = 0
    used = 0
    segs = pieces(m[0][0])
    if segs is None:
        return None
    for lo, hi, off in segs:
        for p in range(lo, hi):
            mask |= 1 << (p + off)
            used |= 1 << p
            if (int(want) >> p) & 1:
                val |= 1 << (p + off)
    if int(want) & ~used:
        return (0, 1)            # never
    return (mask, val)


def pieces(t):
    """(lo, hi, off) segments of encoding bits (bit p of the value is bit p+off of the encoding); None if others are taken"""
    out = []
    for lo, hi, src, off in t.args[0]:
        lo, hi, off = int_val(lo), int_val(hi), int_val(off)
        if None in (lo, hi, off):
            return None
        if src is ENC:
            out.append((lo, hi, off))
            continue
        if src.op != 'bits' or src.args[1].op != 'zero':
            return None
        inner = pieces(src)
        if inner is None:
            return None
        for l, h, o in inner:
            a, b = max(l, lo + off), min(h, hi + off)
            if a < b:
                out.append((a - off, b - off, o + off))
    return out


def sat(m, v, negs):
    """is there an encoding in the cube (m, v) outside all of negs?"""
    if m == 0 and v == 1:
        return False
    left = []
    for nm, nv in negs:
        if nm == 0 and nv == 1:
            continue
        if (m & nm) & (v ^ nv):
            continue
        if not (nm & ~m):
            return False
        left.append((nm, nv))
    if not left:
        return True
    b = left[0][0] & ~m
    b &= -b
    return sat(m | b, v, left) or sat(m | b, v | b, left)


class Region(object):
    """conjunction of patterns and of their negations"""
    def __init__(self):
        self.m = self.v = 0
        self.negs, self.dead, self.ok = [], False, True

    def add(self, lit):
        pos, h = (False, lit.args[0]) if lit.op == 'not' else (True, lit)
        if h.op == 'const':
            if bool(h.args[0]) != pos:
                self.dead = True
            return
        c = cube(h)
        if c is None and h.op == 'truth':
            c = cube(mk('not', h).args[0])
            n = norm(h)
            if n.op == 'not':
                c, pos = cube(n.args[0]), not pos
        if c is None:
            self.ok = False
            return
        if not pos:
            self.negs.append(c)
        elif c == (0, 1) or (self.m & c[0]) & (self.v ^ c[1]):
            self.dead = True
        else:
            self.m |= c[0]
            self.v |= c[1]

    def some(self, inside=None, outside=()):
        if self.dead:
            return False
        m, v = self.m, self.v
        if inside is not None:
            if (m & inside[0]) & (v ^ inside[1]):
                return False
            m, v = m | inside[0], v | inside[1]
        return sat(m, v, list(self.negs) + list(outside))


# ---------------------------------------------------------------- what it was given

def encoding(ctx):
    f = ctx.func(BASE, 'Instruction.__init__')
    eng, sts = ctx.run(f, limit=60)
    if not sts:
        return ctx.unk('budget', 'Instruction')
    ps = [a.arg for a in f.node.args.args]
    E, S = mk('sym', ps[1]), mk('sym', ps[0])
    A = mk('sym', ps[2])
    for s in sts:
        fs = tuple(s.facts)
        if inconsistent(fs):
            continue
        kind = None
        for q in fs:
            h = q.args[0] if q.op == 'not' else q
            if h.op == 'isinst' and h.args[0] is E and q.op != 'not':
                kind = show(h.args[1])
        if s.exit[0] == 'raise':
            ctx.decide(kind is None or not plain_kind(kind), 'given', 'Instruction', f.where(), 'refuses %s' % kind)
            continue
        e = s.heap.get((S, '_encoding'))
        a = s.heap.get((S, '_address'))
        ctx.decide(True if a is A else (False if a is None or is_num(a) or a is E or part_of(a, A) else None), 'position', 'Instruction', f.where(), 'the address is %s' % (show(a) if a is not None else 'not set'))
        if kind is None:
            ctx.decide(None if e is not None else False, 'given', 'Instruction', f.where(), 'accepts anything: %s' % conj(fs)[-120:])
        elif 'int' in kind and 'str' not in kind:
            ctx.decide(True if e is E else (False if e is None or e.op == 'poly' else None), 'given', 'Instruction', f.where(), 'a number becomes %s' % (show(e) if e is not None else 'nothing'))
        elif 'str' in kind:
            ctx.decide(text(e, E, mk('sym', ps[3]) if len(ps) > 3 else None), 'given', 'Instruction', f.where(), 'a text becomes %s' % (show(e) if e is not None else 'nothing'))


def part_of(t, x):
    """some bits of the number x, or a sum with it"""
    if t.op in ('bits', 'and', 'or', 'xor', 'floordiv', 'mod'):
        n = norm(t)
        if n is x:
            return False
        srcs = [z[2] for z in n.args[0]] if n.op == 'bits' else [a for a in n.args if not is_num(a)] if n.op in ('and', 'or', 'xor', 'floordiv', 'mod') else []
        return bool(srcs) and all(y is x or part_of(y, x) for y in srcs) if n.op != 'poly' else part_of(n, x)
    if t.op == 'poly':
        return all(not m or len(m) == 1 and m[0][1] == 1 and (m[0][0] is x or part_of(m[0][0], x)) for m in pd(t)) and t is not x
    return False


def plain_kind(k):
    return 'int' in k or 'str' in k


def text(e, E, base):
    """int(the text without its spaces, base)"""
    if e is None:
        return False
    if e is E or e.op == 'mcall' and e.args[1] in ('strjoin', 'join', 'strip', 'replace', 'lower'):
        return False                       # the text itself, or always decimal
    if e.op != 'call' or show(e.args[0]) != 'builtin(int)':
        return None
    body = [y for y in walk(e.args[1])]
    split = any(y.op in ('mcall', 'split') and 'split' in show(y) for y in body) or any('split' in show(y) for y in body)
    drops = split or any('replace' in show(y) for y in body)
    if not any(y is E for y in body):
        return None
    if len(e.args) < 3:
        return False                       # always decimal
    if base is not None and e.args[2] is not base:
        return False if is_num(e.args[2]) else None
    return True if drops else None


def order(ctx):
    f = ctx.func(BASE, 'Instruction.reverse_endianess', required=False)
    if f is None:
        return ctx.unk('absent', 'reverse_endianess')
    eng, sts = ctx.run(f, limit=60)
    if not sts:
        return ctx.unk('budget', 'reverse_endianess')
    V = mk('sym', f.node.args.args[0].arg)
    # a number is not treated like a text
    for s in sts:
        if s.exit[0] == 'return' and not any(mentions(q, V) for q in s.facts) and not any(isinstance(e, Ev) and e.caught for e in s.items()):
            texts = [q for x in [s.exit[1]] + [y for q in s.env.values() if isinstance(q, T) for y in (q,)] for q in walk(x)
                     if q.op == 'mcall' and q.args[0] is V and q.args[1] in ('split', 'strip', 'replace')]
            ctx.decide(False if texts else None, 'bytes', 'reverse_endianess', f.where(), 'whatever is given is taken for a text')
    for s in sts:
        fs = tuple(s.facts)
        kinds = [show(q.args[1]) for q in fs if q.op == 'isinst' and q.args[0] is V]
        if s.exit[0] != 'return' or not kinds:
            continue
        v = s.exit[1]
        if 'int' in kinds[0]:
            ctx.decide(swapped(v, V), 'bytes', 'reverse_endianess', f.where(), 'a number becomes %s' % show(v)[:160])
        else:
            got = []
            for it in s.items():
                if isinstance(it, LoopItem):
                    for b in it.loop.bodies:
                        for e in b.trace:
                            if isinstance(e, Ev) and e.kind == 'Append' and e.a[1].op == 'elem':
                                off = sub(e.a[1].args[1], it.loop.iota)
                                q = it.loop.seq
                                got.append((num_val(off), num_val(q.args[2]) if q.op == 'slice' else None))
            if got:
                ctx.decide(True if got == [(6, 8), (4, 6), (2, 4), (0, 2)] else (False if all(None not in g for g in got) and len(got) == 4 else None), 'bytes', 'reverse_endianess',
                           f.where(), 'digits are taken as %s' % [(str(a), str(b)) for a, b in got])
            else:
                ctx.unk('bytes', 'reverse_endianess', f.where(), 'a text becomes %s' % show(v)[:120])


def swapped(v, V):
    if v.op == 'call' and 'struct.unpack' in show(v.args[0]) and len(v.args) > 2:
        a, p = v.args[1], v.args[2]
        if p.op == 'call' and 'struct.pack' in show(p.args[0]) and len(p.args) > 2 and p.args[2] is V:
            x, y = const_str(a), const_str(p.args[1])
            if x and y and x[1:] == y[1:] == 'I':
                return x[0] != y[0] and '<' in (x[0], y[0]) and bool(set('>!') & set((x[0], y[0])))
            return False if x and y else None
        if p.op == 'call' and 'struct.pack' in show(p.args[0]) and len(p.args) > 2 and part_of(p.args[2], V) and modded(p.args[2]) is not V:
            return False                       # bits are lost
    if v.op == 'index' and num_val(v.args[1]) == 0:
        return swapped(v.args[0], V)
    return None


def const_str(t):
    return t.args[0] if t.op == 'const' and isinstance(t.args[0], str) else None


def idle(b):
    return not any(isinstance(e, LoopItem) or e.kind in ('Append', 'Extend', 'Insert', 'SetItem', 'CallUnknown', 'Inc') for e in b.trace)


def registers(ctx):
    f = ctx.func(BASE, 'Instruction._get_register_list', required=False)
    if f is None:
        return ctx.unk('absent', '_get_register_list')
    eng, sts = ctx.run(f, limit=60)
    if not sts:
        return ctx.unk('budget', '_get_register_list')
    E = mk('sym', f.node.args.args[0].arg)
    for s in sts:
        if inconsistent(tuple(s.facts)) or s.exit[0] != 'return':
            continue
        loops = [it.loop for it in s.items() if isinstance(it, LoopItem)]
        if len(loops) != 1 or loops[0].seq is False or loops[0].seq.op != 'range':
            ctx.unk('registers', '_get_register_list', f.where(), 'not one walk over the bits')
            continue
        L = loops[0]
        kept = optional(f)
        if kept is not None and s.exit[1] is kept:
            sure = any(q.op == 'truth' and q.args[0] is kept or q.op == 'not' and q.args[0].op == 'isnone' and q.args[0].args[0] is kept or
                       q.op == 'isinst' and q.args[0] is kept for q in s.facts)
            denied = not sure and any(q.op == 'not' and q.args[0].op == 'truth' and q.args[0].args[0] is kept for q in s.facts)
            ctx.decide(True if sure else False if denied or not any(mentions(q, kept) for q in s.facts) else None, 'registers', '_get_register_list', f.where(), 'a list to add to when none is given')
        r = [num_val(x) for x in L.seq.args[:3]]
        if None in r:
            ctx.unk('registers', '_get_register_list', L.loc, 'walks over %s' % show(L.seq))
            continue
        ctx.decide(r == [0, 16, 1], 'registers', '_get_register_list', L.loc, 'looks at the bits %s' % show(L.seq))
        for b in L.bodies:
            if b.kind != 'next' or inconsistent(tuple(b.facts)):
                continue
            puts = [e for e in b.trace if isinstance(e, Ev) and e.kind in ('Append', 'Insert')]
            on, known = None, True
            dup = None
            for q in b.facts:
                pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
                if h.op == 'eq0' and mentions(h, E):
                    n = norm(h)
                    same = cube_at(h, E, L.elem)
                    if same is None:
                        known = False
                    else:
                        on = same if same == 'other' else pos == same
                elif h.op == 'in' and h.args[0] is L.elem:
                    dup = pos
                elif mentions(h, E):
                    known = False
            if known and dup is True:
                on = False
            if on == 'other':
                ctx.bad('registers', '_get_register_list', L.loc, 'another bit decides: %s' % conj(b.facts)[-160:])
                continue
            if known and on is None and not puts and len(L.bodies) == 1 and b.kind == 'next' and idle(b):
                ctx.bad('registers', '_get_register_list', L.loc, 'nothing is listed whatever the bits')
                continue
            if not known or on is None:
                ctx.unk('registers', '_get_register_list', L.loc, 'tests %s' % conj(b.facts)[-160:])
                continue
            want = on and dup is not True
            ctx.decide(want == bool(puts), 'registers', '_get_register_list', L.loc, '%s under %s' % ('listed' if puts else 'left out', conj(b.facts)[-160:]))
            for e in puts:
                ctx.decide(True if e.a[-1] is L.elem and e.kind == 'Append' else False if e.a[-1] is E or num_val(e.a[-1]) is not None else None, 'registers', '_get_register_list', e.loc, 'lists %s' % show(e.a[-1]))


def cube_at(h, E, x):
    """is the literal 'bit x of E is 0' (-> False) / 'is 1' (-> True)?"""
    n = norm(h)
    d = dict(pd(n.args[0])) if n.op == 'eq0' else {}
    c = d.pop((), 0)
    if len(d) != 1:
        return None
    (m, k), = d.items()
    if len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'bits':
        return None
    segs = m[0][0].args[0]
    if len(segs) != 1:
        return None
    lo, hi, src, off = segs[0]
    if src is x and add(lo, off) is E:
        return 'other'
    if src is not E or num_val(sub(hi, lo)) != 1:
        return None
    if num_val(sub(add(lo, off), x)) != 0:
        return None if num_val(sub(add(lo, off), x)) is None else 'other'
    return False if c == 0 else True


# ---------------------------------------------------------------- where it branches to

def target_bits(ctx):
    for mod, cls in ((BASE, 'Instruction'), (DARM, 'DARMInstruction')):
        c = ctx.cls(mod, cls, required=cls == 'Instruction')
        if c is None:
            continue
        f = c.find('jumping_address')
        if f is None:
            ctx.unk('absent', cls + '.jumping_address')
            continue
        name = cls + '.jumping_address'
        eng, sts = ctx.run(f, limit=60, selfcls=c, opaque_funcs=OPAQUE)
        if not sts:
            ctx.unk('budget', name)
            continue
        for s in sts:
            if s.exit[0] == 'raise' and branch_of(tuple(s.facts)) is True and all(
                    (q.args[0] if q.op == 'not' else q).op in ('truth', 'isnone') for q in s.facts) and any(q.op == 'isnone' and q.args[0] is KEPT for q in s.facts):
                ctx.bad('target', name, f.where(), 'no branch has a target: %s under %s' % (show(s.exit[1]), conj(s.facts)[:100]))
        for s in sts:
            fs = tuple(s.facts)
            if inconsistent(fs) or s.exit[0] != 'return':
                continue
            v = s.exit[1]
            br = branch_of(fs)
            if br is False:
                ctx.decide(None if v.op != 'none' and not is_none(v) else True, 'target', name, f.where(), 'not a branch: %s' % show(v)[:100])
                continue
            none = next((q.op != 'not' for q in fs if (q.args[0] if q.op == 'not' else q).op == 'isnone' and (q.args[0] if q.op == 'not' else q).args[0] is KEPT), None)
            if v is KEPT:
                ctx.decide(True if none is False else False, 'target', name, f.where(), 'nothing is computed under %s' % conj(fs)[-160:])
                continue
            if is_none(v):
                ctx.decide(False if br is True or br is None and not fs else None, 'target', name, f.where(), 'a branch has no target under %s' % conj(fs)[-160:])
                continue
            ctx.decide(decoded(v, fs), 'target', name, f.where(), 'the target is %s' % show(v)[:300])
            kept = s.heap.get((mk('sym', 'self'), '_jumping_address'))
            if kept is not None and not is_none(kept):
                ctx.decide(True if kept is v else None, 'kept', name, f.where(), 'remembers %s' % show(kept)[:100])


def optional(f):
    """the last parameter, when it may be left out"""
    ds = f.node.args.defaults
    import ast
    return mk('sym', f.node.args.args[-1].arg) if ds and isinstance(ds[-1], ast.Constant) and ds[-1].value is None else None


def is_none(v):
    return v is None or v.op == 'const' and v.args[0] is None


def branch_of(fs):
    for q in fs:
        h = q.args[0] if q.op == 'not' else q
        if h.op == 'truth' and 'is_branch' in show(h.args[0]) and 'link' not in show(h.args[0]):
            return q.op != 'not'
    return None


def decoded(v, fs):
    """is v == (address + 8 + 4 * signed low 24 bits) mod 2^32 under the facts?"""
    r = Region()
    for q in fs:
        if mentions(q, ENC):
            r.add(q)
    inner = modded(v)
    if inner is None:
        return False if v.op == 'poly' and flat(v) else None
    p = expand(inner)
    if p is None:
        return None
    d = sub(p, add(const(8), ADDR))
    low = sub(ENC, scale(mk('floordiv', ENC, const(1 << 24)), 1 << 24))
    sign = None
    if r.ok:
        a, b = r.some((1 << 23, 1 << 23)), r.some((1 << 23, 0))
        if not a and not b:
            return True                      # no such encoding
        sign = True if a and not b else (False if b and not a else None)
    okay = []
    for sg in (True, False):
        if sign is None or sign == sg:
            x = sub(d, sub(scale(low, 4), const((1 << 26) if sg else 0)))
            z = reduce_(x)
            if z is None:
                return None
            okay.append(z)
    if all(okay):
        return True
    return False if r.ok and flat(d) else None


def flat(p):
    """a linear combination of the encoding, its high part and the address"""
    ok = (ENC, ADDR, mk('floordiv', ENC, const(1 << 24)))
    for m in pd(p):
        for a, k in m:
            if a in ok and k == 1:
                continue
            if a.op in ('floordiv', 'bits', 'or', 'and', 'xor') and all(y.op not in ('call', 'mcall', 'unk', 'hav', 'out', 'sym') or y.args == ('self',) for y in walk(a)):
                continue
            return False
    return True


def modded(v):
    """x for x mod 2^32"""
    if v.op == 'mod' and int_val(v.args[1]) == TOP:
        return v.args[0]
    if v.op != 'poly':
        return None
    for m, c in pd(v).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'floordiv' and int_val(m[0][0].args[1]) == TOP and c == -TOP:
            x = add(v, scale(m[0][0], TOP))
            return x if x is m[0][0].args[0] or num_val(sub(x, m[0][0].args[0])) == 0 else None
    return None


def expand(t):
    """or of a constant and a number without common bits is their sum"""
    out = const(0)
    for m, c in pd(t).items():
        x = const(c)
        for a, k in m:
            y = a
            if a.op in ('or', 'xor'):
                y = disjoint(a)
                if y is None:
                    return None
            for _ in range(k):
                x = mul(x, y)
        out = add(out, x)
    return out


def disjoint(a):
    k = [x for x in a.args if int_val(x) is not None]
    o = [x for x in a.args if int_val(x) is None]
    if len(k) != 1 or len(o) != 1:
        return None
    low = sub(ENC, scale(mk('floordiv', ENC, const(1 << 24)), 1 << 24))
    if num_val(sub(o[0], low)) == 0 and int_val(k[0]) & 0xffffff == 0:
        return add(k[0], o[0])
    return None


def reduce_(t):
    """all coefficients 0 modulo 2^32?"""
    for m, c in pd(t).items():
        if c.denominator != 1:
            return None
        if int(c) % TOP:
            return False
    return True


DIRECT = {'ARM_INS_B', 'ARM_INS_BL', 'ARM_INS_BLX'}
MAY = DIRECT | {'ARM_INS_MOV', 'ARM_INS_BX'}


def target_capstone(ctx):
    c = ctx.cls(CAPS, 'CAPSInstruction')
    f = c.find('jumping_address')
    if f is None:
        return ctx.unk('absent', 'CAPSInstruction.jumping_address')
    name = 'CAPSInstruction.jumping_address'
    eng, sts = ctx.run(f, limit=60, selfcls=c, opaque_funcs=OPAQUE)
    if not sts:
        return ctx.unk('budget', name)
    for s in sts:
        fs = tuple(s.facts)
        if inconsistent(fs) or s.exit[0] != 'return':
            continue
        v = s.exit[1]
        br = branch_of(fs)
        if br is False:
            ctx.decide(True if is_none(v) else (False if mentions(v, mk('attr', mk('sym', 'self'), '_cap')) else None), 'target', name, f.where(), 'a target of no branch: %s' % show(v)[:120])
            continue
        none = next((q.op != 'not' for q in fs if (q.args[0] if q.op == 'not' else q).op == 'isnone' and (q.args[0] if q.op == 'not' else q).args[0] is KEPT), None)
        ids, other = None, False
        for q in fs:
            pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
            if h.op == 'in' and h.args[1].op == 'tuple' and all('ARM_INS_' in show(x) for x in h.args[1].args):
                ids = (pos, set(show(x).split('.')[-1].rstrip(')') for x in h.args[1].args))
            elif 'ARM_INS_' in show(h):
                other = True
        imm = None
        for q in fs:
            pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
            if h.op == 'exists' and 'ARM_OP_IMM' in show(h):
                imm = pos
        if v is KEPT or is_none(v):
            if none is False:
                continue
            more = (restricted(fs) or left(s)) if not (ids is not None and not ids[0]) else None
            if imm is False or more:
                if more:
                    ctx.bad('target', name, f.where(), 'an address among the operands is no target unless %s' % more)
                continue                               # no address among the operands
            if ids is not None and not ids[0] and not other:
                ctx.decide(DIRECT <= ids[1], 'target', name, f.where(), 'branches have no target: %s' % ' '.join(sorted(DIRECT - ids[1])))
            else:
                ctx.decide(False if not other and ids is None and not has_op(fs_all(fs), 'unk') and br is True else None, 'target', name, f.where(), 'no target under %s' % conj(fs)[-160:])
            continue
        raw = modded(v)
        x = raw if raw is not None else v
        isimm = x.op == 'attr' and x.args[1] == 'imm'
        if isimm and raw is None:
            ctx.decide(False, 'target', name, f.where(), 'the target is the signed operand, negative for high addresses')
            continue
        ctx.decide(True if isimm else (False if x.op == 'poly' and any(y.op == 'attr' and y.args[1] == 'imm' for y in walk(x)) or lost(x) else None), 'target', name, f.where(), 'the target is %s' % show(v)[:160])
        if isimm:
            e = next((y for y in walk(x) if y.op in ('elem', 'index')), None)
            typed = any(q.op == 'eq0' and 'ARM_OP_IMM' in show(q) and e is not None and mentions(q, e) for q in fs)
            wrong = not typed and e is not None and any(q.op == 'eq0' and 'ARM_OP_' in show(q) and mentions(q, e) for q in fs)
            ctx.decide(True if typed else (False if wrong else None), 'operand', name, f.where(), 'takes the operand under %s' % conj(fs)[-160:])
            if br is None and not other and ids is not None and ids[0] and ids[1] - DIRECT:
                ctx.bad('operand', name, f.where(), 'an operand of %s is a target though it may not branch' % ' '.join(sorted(ids[1] - DIRECT)))
            if ids is not None and ids[0]:
                ctx.decide(ids[1] <= MAY, 'operand', name, f.where(), 'operands of %s count as targets' % ' '.join(sorted(ids[1] - MAY)))
            else:
                ctx.decide(False if not other and ids is None and br is True else None, 'operand', name, f.where(), 'an immediate operand of any instruction counts as a target')


def restricted(fs):
    """an operand has to be more than an immediate: what"""
    for q in fs:
        if q.op == 'not' and q.args[0].op == 'exists' and q.args[0].args[1].op == 'and':
            lits = q.args[0].args[1].args
            kinds = [l for l in lits if l.op == 'eq0' and 'ARM_OP_IMM' in show(l)]
            rest = [l for l in lits if l not in kinds]
            if kinds and rest and all(l.op in ('eq0', 'ge0', 'gt0') and pd(l.args[0]) and all(len(m) <= 1 and (not m or m[0][0].op == 'attr' and m[0][0].args[1] == 'imm') for m in pd(l.args[0])) for l in rest):
                return ' and '.join(show(l) for l in rest)[:120]
    return None


def left(s):
    """an immediate operand is passed by: when"""
    for it in s.items():
        if not isinstance(it, LoopItem) or it.body is not None or it.loop.seq is False or 'operands' not in show(it.loop.seq):
            continue
        for b in it.loop.bodies:
            lits = [q for q in b.facts if q.op != 'in' and mentions(q, it.loop.elem)]
            kinds = [q for q in lits if q.op == 'eq0' and 'ARM_OP_IMM' in show(q)]
            rest = [q for q in lits if q not in kinds]
            plain = all(q.op in ('eq0', 'ge0', 'gt0') and all(not m or len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'attr' and m[0][0].args[1] == 'imm' for m in pd(q.args[0]))
                        for q in ((r.args[0] if r.op == 'not' else r) for r in rest) if q.op in ('eq0', 'ge0', 'gt0')) and all((r.args[0] if r.op == 'not' else r).op in ('eq0', 'ge0', 'gt0') for r in rest)
            if b.kind == 'next' and kinds and rest and plain and not any(isinstance(e, LoopItem) or e.kind == 'SetAttr' for e in b.trace):
                return 'not ' + conj(rest)[:120]
    return None


def lost(x):
    """the operand without its sign, or only some of its bits"""
    imm = [y for y in walk(x) if y.op == 'attr' and y.args[1] == 'imm']
    if not imm:
        return False
    if x.op == 'absv':
        return x.args[0] is imm[0]
    if x.op == 'bits' and x.args[1].op == 'zero' and all(z[2] is imm[0] for z in x.args[0]):
        segs = sorted((int_val(z[0]), int_val(z[1]), int_val(z[3])) for z in x.args[0]) if all(int_val(v) is not None for z in x.args[0] for v in (z[0], z[1], z[3])) else None
        if segs is None:
            return False
        at = 0
        for lo, hi, off in segs:
            if lo != at or off != 0:
                return True
            at = hi
        return at != 32
    return False


def fs_all(fs):
    return mk('and', *fs) if fs else const(True)


# ---------------------------------------------------------------- does it link

LINK = ((0x0F000000, 0x0B000000), (0xFE000000, 0xFA000000), (0x0FFFFFF0, 0x012FFF30))
JUMPS = ((0x0F000000, 0x0A000000), (0x0FFFFFF0, 0x012FFF10))


def link(ctx):
    c = ctx.cls(BASE, 'Instruction')
    f = c.find('is_branch_with_link')
    if f is None:
        return ctx.unk('absent', 'is_branch_with_link')
    name = 'is_branch_with_link'
    eng, sts = ctx.run(f, limit=60, selfcls=c, opaque_funcs=OPAQUE)
    if not sts:
        return ctx.unk('budget', name)
    for s in sts:
        fs = tuple(s.facts)
        if inconsistent(fs) or s.exit[0] != 'return':
            continue
        br = branch_of(fs)
        r = Region()
        for q in fs:
            if mentions(q, ENC):
                r.add(q)
        v = s.exit[1]
        if br is False:
            ctx.decide(True if falsy(v) else (False if v.op == 'const' else None), 'link', name, f.where(), 'something else links: %s' % show(v)[:100])
            continue
        for val in (True, False):
            z = Region()
            z.m, z.v, z.negs, z.dead, z.ok = r.m, r.v, list(r.negs), r.dead, r.ok
            w = truthy(v, val)
            if w is None:
                ctx.unk('link', name, f.where(), 'answers %s' % show(v)[:120])
                continue
            if w is not True:
                z.add(w)
            if not z.ok:
                ctx.unk('link', name, f.where(), 'under %s' % conj(fs)[-160:])
                continue
            if val:
                ctx.decide(not z.some(None, LINK), 'link', name, f.where(), 'links without being BL or BLX under %s' % conj(fs)[-200:])
            else:
                hit = [hex(b) for a, b in LINK if z.some((a, b))]
                ctx.decide(not hit, 'link', name, f.where(), '%s does not link under %s' % (' '.join(hit), conj(fs)[-200:]))


def falsy(v):
    return v.op == 'const' and not v.args[0] or is_num(v) and num_val(v) == 0 or branchlike(v)


def branchlike(v):
    return 'is_branch' in show(v) and v.op == 'call'


def truthy(v, val):
    """literal saying that v is true (val) / false; True when it always is"""
    if v.op == 'const':
        return True if bool(v.args[0]) == val else const(False)
    if is_num(v):
        return True if bool(num_val(v)) == val else const(False)
    if v.op in ('eq0', 'not', 'truth', 'ge0', 'gt0'):
        return v if val else neg_lit(v)
    if mentions(v, ENC):
        q = cmp_eq(v, const(0))
        return neg_lit(q) if val else q
    return None


# ---------------------------------------------------------------- the instruction it branches to

def lookup(ctx):
    c = ctx.cls(BASE, 'Instruction')
    f = c.find('branch_to')
    if f is None:
        return ctx.unk('absent', 'branch_to')
    name = 'branch_to'
    eng, sts = ctx.run(f, limit=60, selfcls=c, opaque_funcs=OPAQUE + ('jumping_address',))
    if not sts:
        return ctx.unk('budget', name)
    X = mk('sym', f.node.args.args[1].arg)
    for s in sts:
        fs = tuple(s.facts)
        if inconsistent(fs) or s.exit[0] != 'return':
            continue
        v = s.exit[1]
        if is_none(v):
            no = [q for q in fs if q.op == 'not' and q.args[0].op == 'exists' and q.args[0].args[0] is X]
            ok = any(same_address(q.args[0].args[1]) for q in no)
            cut = any(has_op(q, 'slice') for q in fs) or any(it.loop.seq is not False and it.loop.seq.op == 'slice' for it in s.items() if isinstance(it, LoopItem))
            off = [q for q in no if q.args[0].args[1].op in ('ge0', 'gt0', 'eq0') and 'address' in show(q) and clear_lit(q.args[0].args[1])]
            if ok:
                early = None
            else:
                early = passed(s, X)
            ctx.decide(True if ok else (False if cut or off or early else None), 'found', name, f.where(), 'finds nothing under %s' % (early or conj(fs)[-160:]))
        elif v.op in ('elem', 'index') and v.args[0] is X:
            lit = [q for q in fs if q.op in ('eq0', 'ge0', 'gt0') and mentions(q, v) and 'address' in show(q)]
            ctx.decide(True if any(same_address(q) for q in lit) else (False if not any('address' in show(q) for q in fs) or lit else None), 'found', name, f.where(),
                       'finds one with %s' % conj(fs)[-200:])
        else:
            ctx.unk('found', name, f.where(), 'finds %s' % show(v)[:100])


def passed(s, X):
    """an instruction at the address is passed by: how"""
    for it in s.items():
        if not isinstance(it, LoopItem) or it.loop.seq is not X:
            continue
        at = mk('attr', it.loop.elem, 'address')
        jumps = set(a for b in it.loop.bodies for q in b.facts for a in walk(q) if a.op in ('call', 'attr', 'mcall') and 'jumping_address' in show(a) and called_on_self(a))
        if len(jumps) != 1:
            continue
        J = jumps.pop()
        for b in it.loop.bodies:
            lits = [q for q in b.facts if q.op != 'in' and not (q.op == 'ge0' and mentions(q, it.loop.iota) and not mentions(q, it.loop.elem))]
            if not idle(b) or not all(about(q, it.loop.elem, J) for q in lits) or b.kind not in ('next', 'break'):
                continue
            meets = cmp_eq(at, J) if b.kind == 'next' else cmp_ge(sub(J, at))
            if not inconsistent(tuple(b.facts) + (meets,)):
                return '%s: %s' % ('passed by' if b.kind == 'next' else 'stops', conj(lits)[-160:])
    return None


def called_on_self(a):
    return a.op == 'call' and len(a.args) == 2 and a.args[1].op == 'sym' or a.op == 'attr' and a.args[0].op == 'sym'


def about(q, x, J):
    """a test of addresses, or of an attribute of the instruction looked at"""
    h = q.args[0] if q.op == 'not' else q
    if h.op not in ('eq0', 'ge0', 'gt0', 'truth', 'isnone'):
        return False
    t = h.args[0]
    if h.op in ('truth', 'isnone'):
        return t is J or t.op == 'attr' and (t.args[0] is x or t.args[0].op == 'sym') or \
            t.op == 'call' and len(t.args) == 2 and t.args[1] is x and any(n in show(t.args[0]) for n in ('is_undefined', 'is_branch', 'ignore'))
    for m in pd(t):
        for a, k in m:
            if k != 1 or not (a is J or a.op == 'attr' and a.args[1] in ('address', '_address') and (a.args[0] is x or a.args[0].op == 'sym')
                              or a.op == 'bits' and all(z[2] is J or mentions(z[2], J) and z[2].op == 'bits' for z in a.args[0])):
                return False
    return True


def clear_lit(q):
    """only addresses and numbers in it"""
    for m in pd(q.args[0]):
        for a, k in m:
            if not (a.op == 'attr' and a.args[1] in ('address', '_address') or 'jumping_address' in show(a) and a.op in ('call', 'attr', 'mcall')):
                return False
    return True


def same_address(q):
    """x.address == self.jumping_address"""
    if q.op != 'eq0':
        return False
    d = pd(q.args[0])
    if len(d) != 2 or sorted(d.values()) != [-1, 1]:
        return False
    ats = [m[0][0] for m in d if len(m) == 1 and m[0][1] == 1]
    return len(ats) == 2 and any(a.op == 'attr' and a.args[1] in ('address', '_address') for a in ats) and any('jumping_address' in show(a) for a in ats)
