"""C23: the storages of an instruction are its registers, memory and the program counter, each by its own number."""
import ast
import os
import glob
from ..terms import *
from ..prove import inconsistent
from ..report import conj
from ..engine import LoopItem, Ev
from ..shape import *
from .c19 import CHANGES

BASE = 'architecture.instruction'
CAPS = 'architecture.capstone_instruction'
CONST = 'architecture.arm_constants'
ASKED = ('registers_used', 'registers_written', 'registers_read', '_writes_to_memory', '_read_from_memory', 'is_branch', 'is_push_pop', 'is_a', '_inst_is')
SELF = mk('sym', 'self')
SP, PC, MEM, NONE = 13, 15, 16, 18


def named(ctx):
    """an instruction is a push or pop by the name it begins with"""
    c = ctx.cls(CAPS, 'CAPSInstruction')
    f = c.find('_inst_is')
    if f is None:
        return
    name = 'CAPSInstruction._inst_is'
    eng, sts = ctx.run(f, limit=60, selfcls=c)
    X = mk('sym', f.node.args.args[-1].arg)
    for s in sts or ():
        if s.exit[0] != 'return' or inconsistent(tuple(s.facts)):
            continue
        for t in [s.exit[1]] + list(s.facts):
            for y in walk(t):
                h = y.args[0] if y.op == 'truth' else y
                if h.op == 'mcall' and len(h.args) > 2 and h.args[2] is X and h.args[1] in ('startswith', 'endswith', 'find', 'count') and any(z.op == 'strof' for z in walk(h.args[0])):
                    ctx.decide(True if h.args[1] == 'startswith' else False, 'name', name, f.where(), 'the name %s' % show(y)[:80])
                elif h.op == 'in' and h.args[0] is X and any(z.op == 'strof' for z in walk(h.args[1])) and not has_op(h.args[1], 'index', 'slice', 'mcall_split'):
                    ctx.decide(False if plain_text(h.args[1]) else None, 'name', name, f.where(), 'the name is found anywhere: %s' % show(y)[:80])


def plain_text(t):
    while t.op == 'mcall' and t.args[1] in ('lower', 'strip', 'rstrip', 'lstrip', 'casefold'):
        t = t.args[0]
    return t.op == 'strof'


def run(ctx):
    for f in (table, named, operands, split, memory, storages):
        ctx.part(f)


# ---------------------------------------------------------------- the numbers of the registers

CORE = dict([('R%d' % i, i) for i in range(13)] + [('SP', 13), ('LR', 14), ('PC', 15)])
# constants of capstone 4 and 5 (arm_const.py), in case the installed file is not found
USUAL = dict([('R%d' % i, 66 + i) for i in range(13)] + [('SP', 12), ('LR', 10), ('PC', 11), ('INVALID', 0)])


def installed():
    for pat in ('/opt/venv/lib/python3*/site-packages/capstone/arm_const.py', '/usr/lib/python3*/site-packages/capstone/arm_const.py',
                '/usr/lib/python3/dist-packages/capstone/arm_const.py', '/usr/local/lib/python3*/*-packages/capstone/arm_const.py'):
        for p in glob.glob(pat):
            out = {}
            for n in ast.parse(open(p).read()).body:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.startswith('ARM_REG_') and isinstance(n.value, ast.Constant):
                    out[n.targets[0].id[8:]] = n.value.value
            if len(out) > 16:
                return out, p
    return USUAL, 'the usual constants'


def table(ctx):
    c = ctx.cls(CONST, 'AReg')
    vals, tab = {}, None
    for n in c.node.body:
        if not isinstance(n, ast.Assign):
            continue
        v = value(n.value, vals)
        for t in n.targets:
            if isinstance(t, ast.Name):
                if t.id == 'CAPSTONE_REGS':
                    tab = (n.value, n.lineno)
                elif v is not None:
                    vals[t.id] = v
    where = '%s:%d' % (c.mod.path, c.node.lineno) if hasattr(c.mod, 'path') else CONST
    for k in sorted(CORE):
        ctx.decide(vals[k] == CORE[k] if k in vals else None, 'number', 'AReg', where, '%s is register %s' % (k, vals.get(k)))
    for k, w in (('STORE', MEM), ('CPSR', 17), ('NOREG', NONE)):
        if k in vals:
            ctx.decide(vals[k] == w, 'number', 'AReg', where, '%s is storage %s' % (k, vals[k]))
    if tab is None or not isinstance(tab[0], ast.Dict):
        return ctx.unk('number', 'AReg.CAPSTONE_REGS', where, 'not a table')
    where = where.rsplit(':', 1)[0] + ':%d' % tab[1]
    regs, src = installed()
    got = {}
    for k, v in zip(tab[0].keys, tab[0].values):
        a, b = value(k, vals) if k is not None else None, value(v, vals)
        if a is None or b is None:
            return ctx.unk('number', 'AReg.CAPSTONE_REGS', where, 'entries that are not constants')
        got[a] = b
    back = {regs[n]: n for n in CORE if n in regs}
    for a in sorted(got):
        if a == regs.get('INVALID', 0):
            continue
        ctx.decide(a in back and got[a] == CORE[back[a]], 'number', 'AReg.CAPSTONE_REGS', where, 'disassembler register %s (%s) becomes %s' % (a, back.get(a), got[a]))
    miss = sorted(n for a, n in back.items() if a not in got)
    ctx.decide(not miss, 'number', 'AReg.CAPSTONE_REGS', where, 'no number for %s (%s)' % (' '.join(miss), src))


def value(n, vals):
    if isinstance(n, ast.Constant) and isinstance(n.value, int):
        return n.value
    if isinstance(n, ast.Name):
        return vals.get(n.id)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
        a, b = value(n.left, vals), value(n.right, vals)
        if a is not None and b is not None:
            return a + b if isinstance(n.op, ast.Add) else a - b
    return None


# ---------------------------------------------------------------- registers among the operands

def attrs(t):
    """('value', 'mem', 'base') of x.value.mem.base, and x"""
    out = []
    while t.op == 'attr':
        out.insert(0, t.args[1])
        t = t.args[0]
    return tuple(out), t


KINDS = {('value', 'reg'): 'reg', ('reg',): 'reg', ('value', 'mem', 'base'): 'base', ('mem', 'base'): 'base', ('value', 'mem', 'index'): 'index', ('mem', 'index'): 'index'}


def register_of(t, x):
    """which register of the operand x is the raw number t?"""
    a, o = attrs(t)
    return KINDS.get(a) if o is x else None


def looked(t, x):
    """('reg'|'base'|'index', 'table'|'beyond') for a translated register of x"""
    if t.op in ('index', 'dget', 'lookup') and 'CAPSTONE_REGS' in show(t.args[0]):
        k = register_of(t.args[1], x)
        return (k, 'table') if k else None
    if t.op == 'mcall' and t.args[1] == 'get' and 'CAPSTONE_REGS' in show(t.args[0]):
        k = register_of(t.args[2], x)
        return (k, 'table') if k else None
    if t.op == 'poly':
        ks = [a for m in pd(t) for a, e in m if register_of(a, x)]
        if len(ks) == 1:
            rest = sub(t, ks[0])
            if 'STORAGE_' in show(rest) and not mentions(rest, x):
                return (register_of(ks[0], x), 'beyond')
            if num_val(rest) is not None:
                return (register_of(ks[0], x), 'beyond' if num_val(rest) >= 20 else 'low')
    k = register_of(t, x)
    return (k, 'raw') if k else None


def reading(body, x, lst):
    """what the body's path says: kind, in the table, zero, listed"""
    kind, tab, zero, listed, odd = {}, {}, {}, {}, []
    for q in body.facts:
        pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
        if not mentions(h, x):
            continue
        if h.op == 'in' and h.args[0] is x:
            continue
        if h.op == 'eq0' and 'ARM_OP_' in show(h):
            n = [y.args[0] for y in walk(h) if y.op == 'ext' and 'ARM_OP_' in show(y)]
            if len(n) == 1 and any(y.op == 'attr' and y.args[1] == 'type' for y in walk(h)):
                kind['REG' if show(n[0]).rstrip(')').endswith('ARM_OP_REG') else 'MEM' if show(n[0]).rstrip(')').endswith('ARM_OP_MEM') else 'other'] = pos
                continue
        if h.op == 'in' and 'CAPSTONE_REGS' in show(h.args[1]):
            k = register_of(h.args[0], x)
            if k:
                tab[k] = pos
                continue
        if h.op == 'in':
            k = looked(h.args[0], x)
            if k and (h.args[1] is lst or mentions(h.args[1], lst) or h.args[1].op in ('cat', 'seq', 'list')):
                listed[k] = pos
                continue
        if h.op in ('eq0', 'truth'):
            t = h.args[0]
            if (looked(t, x) or ('', ''))[1] == 'table' or t.op == 'poly' and all(
                    not m or len(m) == 1 and m[0][1] == 1 and (looked(m[0][0], x) or ('', ''))[1] == 'table' for m in pd(t)):
                continue                       # its number says nothing about being there
            k = register_of(t, x)
            if k is None and t.op == 'poly':
                ks = [a for m in pd(t) for a, e in m if register_of(a, x)]
                if len(ks) == 1 and num_val(sub(t, ks[0])) == 0:
                    k = register_of(ks[0], x)
            if k:
                zero[k] = pos if h.op == 'eq0' else not pos
                continue
        odd.append(q)
    return kind, tab, zero, listed, odd


def operands(ctx):
    c = ctx.cls(CAPS, 'CAPSInstruction')
    f = c.find('registers_used')
    name = 'CAPSInstruction.registers_used'
    eng, sts = ctx.run(f, limit=60, selfcls=c, opaque_funcs=('is_push_pop', 'is_a', '_inst_is'))
    if not sts:
        return ctx.unk('budget', name)
    for s in sts:
        fs = tuple(s.facts)
        if inconsistent(fs) or s.exit[0] != 'return':
            continue
        lst = s.exit[1]
        pp = next((q.op != 'not' for q in fs if 'is_push_pop' in show(q) and (q.args[0] if q.op == 'not' else q).op == 'truth'), None)
        first, seen = [], None
        for it in s.items():
            if isinstance(it, LoopItem):
                if any(isinstance(e, Ev) and e.kind in ('Append', 'Extend', 'Insert') for b in it.loop.bodies for e in b.trace) or seen is None:
                    seen = it.loop
            elif it.kind in ('Append', 'Insert', 'Extend') and it.a[0] is lst:
                first.append((num_val(it.a[1]) if it.kind == 'Append' else None, seen is not None))
        content_ = s.heap.get((lst, '#'))
        if content_ is not None and content_.op == 'perm' and any(isinstance(e, Ev) and e.kind in ('Sorted', 'Sort') and e.a[0] is lst for e in s.items()):
            ctx.bad('operands', name, f.where(), 'answers the registers in another order')
            continue
        if lst.op != 'obj' or content_ is None or content_.op not in ('out', 'seq') or seen is not None and content_.op == 'out' and lst not in list(walk(content_)):
            ctx.unk('operands', name, f.where(), 'answers %s' % show(lst if content_ is None else content_)[:120])
            continue
        if pp is None:
            ctx.decide(False if not any('push' in show(q) for q in fs) and lst.op == 'obj' else None, 'stack', name, f.where(), 'SP does not depend on push or pop')
        else:
            nums = [n for n, late in first]
            ctx.decide(True if nums == ([SP] if pp else []) and not (first and first[0][1]) else (False if None not in nums and lst.op == 'obj' else None), 'stack', name, f.where(),
                       '%s uses %s' % ('a push or pop' if pp else 'another instruction', nums))
        if seen is None or seen.seq is False or seen.seq is None:
            ctx.unk('operands', name, f.where(), 'no walk over the operands')
            continue
        L = seen
        whole = L.seq.op == 'attr' and L.seq.args[1] == 'operands'
        ctx.decide(True if whole else (False if L.seq.op == 'slice' and 'operands' in show(L.seq) else None), 'operands', name, L.loc, 'walks over %s' % show(L.seq))
        if not whole:
            continue
        x = L.elem
        for b in L.bodies:
            if inconsistent(tuple(b.facts)):
                continue
            if b.kind != 'next':
                kind = reading(b, x, lst)[0]
                ctx.decide(False if b.kind == 'break' and kind else None, 'operands', name, L.loc, 'stops at an operand under %s' % conj(b.facts)[-160:])
                continue
            kind, tab, zero, listed, odd = reading(b, x, lst)
            if kind.get('REG') and kind.get('MEM') or kind.get('other') and (kind.get('REG') or kind.get('MEM')):
                continue
            odd = [q for q in odd if not independent(q, x)]
            if odd:
                ctx.unk('operands', name, L.loc, 'tests %s' % conj(odd)[-160:])
                continue
            puts, strange = [], False
            for e in b.trace:
                if not isinstance(e, Ev) or e.kind in CHANGES + ('Yield',) and not (e.a and e.a[0] is lst):
                    strange = True
                if isinstance(e, Ev) and e.kind in ('Append', 'Insert', 'Extend', 'Remove', 'Pop', 'Clear') and e.a and e.a[0] is lst:
                    k = looked(e.a[1], x) if e.kind == 'Append' else None
                    if k is None:
                        strange = True
                        if e.kind == 'Append' and is_num(e.a[1]):
                            ctx.bad('operands', name, e.loc, 'every operand adds %s' % show(e.a[1]))
                    else:
                        puts.append((k, e))
            if strange:
                ctx.unk('operands', name, L.loc, 'adds something else')
                continue
            here = {'reg'} if kind.get('REG') else {'base', 'index'} if kind.get('MEM') else set()
            known = 'REG' in kind or 'MEM' in kind or bool(kind.get('other'))
            for (k, how), e in puts:
                want = k in here
                ctx.decide(want, 'operands', name, e.loc, '%s register of an operand of another type' % k)
                if not want:
                    continue
                if k == 'reg':
                    right = (how == 'table' and tab.get(k) is True) or (how == 'beyond' and tab.get(k) is False)
                    ctx.decide(True if right else (False if how in ('raw', 'low') or how == 'beyond' and tab.get(k) is True else None if k not in tab else False), 'operands', name, e.loc,
                               '%s register is numbered by %s (in the table: %s)' % (k, how, tab.get(k)))
                else:
                    ctx.decide(True if how == 'table' else (False if how in ('raw', 'low') else None), 'operands', name, e.loc, '%s register is numbered by %s' % (k, how))
                    ctx.decide(zero.get(k) is False, 'operands', name, e.loc, 'a missing %s counts as a register' % k)
                ctx.decide(listed.get((k, how)) is False, 'operands', name, e.loc, '%s register is listed twice' % k)
            had = set(k for (k, how), e in puts)
            for k in here - had:
                twice = any(v for (kk, how), v in listed.items() if kk == k)
                gone = k != 'reg' and zero.get(k) is True
                same = k != 'reg' and any(v for (kk, how), v in listed.items() if kk == k)
                if twice or gone or same:
                    ctx.ok('operands', name, L.loc, '%s left out because listed or absent' % k)
                else:
                    ctx.bad('operands', name, L.loc, '%s register of an operand is left out under %s' % (k, conj(b.facts)[-200:]))
            if not known:
                ctx.unk('operands', name, L.loc, 'the type of the operand is not looked at')


OTHER = (('value', 'mem', 'scale'), ('mem', 'scale'), ('value', 'mem', 'disp'), ('mem', 'disp'), ('value', 'mem', 'lshift'), ('mem', 'lshift'), ('subtracted',), ('access',),
         ('shift', 'type'), ('shift', 'value'), ('neon_lane',), ('vector_index',), ('value', 'mem', 'base'), ('value', 'mem', 'index'))


def independent(q, x=None):
    """a test of a part of an operand that says nothing about its registers"""
    h = q.args[0] if q.op == 'not' else q
    if h.op not in ('eq0', 'ge0', 'gt0', 'truth'):
        return False
    ats = [h.args[0]] if h.op == 'truth' else [m[0][0] for m in pd(h.args[0]) if m]
    if h.op != 'truth' and any(len(m) > 1 or m and m[0][1] != 1 for m in pd(h.args[0])):
        return False
    seen = False
    for a in ats:
        c, o = attrs(a)
        if c in OTHER and (o is x or x is None and o.op in ('elem', 'index')):
            seen = True
        else:
            return False
    return seen


# ---------------------------------------------------------------- written and read

def pieces(s, t, depth=0):
    """content of a list as pieces: ('all'|'first'|'rest', source name), numbers; None when unknown"""
    if depth > 8 or t is None:
        return None
    n = called_name(t)
    if n:
        return [('all', n)]
    if t.op == 'slice':
        n = called_name(t.args[0])
        lo, hi = int_val(t.args[1]), int_val(t.args[2]) if t.args[2] is not None and t.args[2].op != 'const' else None
        none = lambda y: y is None or y.op == 'const' and y.args[0] is None
        step = t.args[3] if len(t.args) > 3 else None
        if n and (none(step) or int_val(step) == 1):
            a = 0 if none(t.args[1]) else int_val(t.args[1])
            b = None if none(t.args[2]) else int_val(t.args[2])
            if a is None or b is None and not none(t.args[2]):
                return None
            if a == 0 and b is None:
                return [('all', n)]
            return [('first', n)] if (a, b) == (0, 1) else [('rest', n)] if (a, b) == (1, None) else [('%s:%s' % (a, b), n)]
        return None
    if t.op in ('copy',):
        return pieces(s, t.args[0], depth + 1)
    if t.op == 'cat':
        out = []
        for a in t.args:
            p = pieces(s, a, depth + 1)
            if p is None:
                return None
            out += p
        return out
    if t.op in ('seq', 'list', 'tuple'):
        out = []
        for a in t.args:
            v = int_val(a)
            if v is None:
                return None
            out.append(v)
        return out
    if t.op == 'obj':
        return pieces(s, s.heap.get((t, '#')), depth + 1)
    return None


def called_name(t):
    if t.op == 'call' and len(t.args) > 1 and t.args[1] is SELF:
        n = show(t.args[0]).rstrip(')').split('.')[-1]
        return n if n in ASKED else None
    if t.op == 'mcall' and t.args[0] is SELF and t.args[1] in ASKED:
        return t.args[1]
    return None


def asked(fs):
    """answers on the path: name (with 'push'/'pop' for is_a) -> bool"""
    out = {}
    for q in fs:
        pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
        if h.op != 'truth':
            continue
        n = called_name(h.args[0])
        if n in ('is_a', '_inst_is'):
            a = [y.args[0] for y in h.args[0].args[2:] if y.op == 'const' and isinstance(y.args[0], str)]
            if a:
                out[a[0]] = pos
        elif n:
            out[n] = pos
    if out.get('is_push_pop') is False:
        out.setdefault('push', False)
        out.setdefault('pop', False)
    if out.get('is_push_pop') and out.get('pop') is False:
        out.setdefault('push', True)
    if out.get('is_push_pop') and out.get('push') is False:
        out.setdefault('pop', True)
    return out


def content(s, name_, fs):
    """pieces of the returned list, appends to computed lists included"""
    v = s.exit[1]
    p = pieces(s, v)
    if p is None:
        return None
    if v.op != 'obj':
        for it in s.items():
            if isinstance(it, LoopItem):
                if any(isinstance(e, Ev) and e.a and e.a[0] is v for b in it.loop.bodies for e in b.trace if isinstance(e, Ev) and e.kind in ('Append', 'Extend', 'Insert', 'Remove', 'Pop', 'Del')):
                    return None
            elif it.kind == 'Append' and it.a[0] is v:
                n = int_val(it.a[1])
                if n is None:
                    return None
                p = p + [n]
            elif it.kind in ('Extend', 'Insert', 'Remove', 'Pop', 'Clear', 'Del') and it.a and it.a[0] is v:
                return None
    return p


def has_number(fs, n):
    for q in fs:
        pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
        if h.op == 'in' and int_val(h.args[0]) == n:
            return pos
    return None


def split(ctx):
    c = ctx.cls(CAPS, 'CAPSInstruction')
    for meth in ('registers_written', 'registers_read'):
        f = c.find(meth)
        name = 'CAPSInstruction.' + meth
        eng, sts = ctx.run(f, limit=60, selfcls=c, opaque_funcs=('registers_used', 'is_push_pop', 'is_a', '_inst_is'))
        if not sts:
            ctx.unk('budget', name)
            continue
        for s in sts:
            fs = tuple(s.facts)
            if inconsistent(fs) or s.exit[0] != 'return':
                continue
            a = asked(fs)
            if a.get('push') and a.get('pop') or a.get('is_push_pop') is False and (a.get('push') or a.get('pop')) or a.get('is_push_pop') and a.get('push') is False and a.get('pop') is False:
                continue                       # no such instruction
            p = content(s, name, fs)
            if p is None:
                ctx.unk('split', name, f.where(), 'answers %s' % show(s.exit[1])[:120])
                continue
            cases = [(k, w) for k, w in (('pop', 'pop'), ('push', 'push'), ('other', None)) if possible(a, k)]
            for k, _ in cases:
                ctx.decide(fits(meth, k, p, has_number(fs, SP)), 'split', name, f.where(), '%s %s %s' % (k, 'writes' if meth.endswith('written') else 'reads', p))


def possible(a, k):
    if k == 'other':
        return not a.get('push') and not a.get('pop') and not (a.get('is_push_pop'))
    return a.get(k) is not False and not a.get('push' if k == 'pop' else 'pop') and a.get('is_push_pop') is not False


def fits(meth, k, p, sp):
    U = 'registers_used'
    if meth == 'registers_written':
        return p == {'pop': [('all', U)], 'push': [], 'other': [('first', U)]}[k]
    if k == 'pop':
        return p == [SP] or p == [('first', U)]           # SP comes first
    if k == 'push':
        # the first register used is SP itself
        return len(p) == len(set(p)) and set(p) in ({('all', U)}, {SP, ('rest', U)}, {('rest', U), ('first', U)}) or p == [('rest', U)] and sp is True
    return p == [('rest', U)]


# ---------------------------------------------------------------- memory

def memory(ctx):
    c = ctx.cls(CAPS, 'CAPSInstruction')
    f = c.find('_writes_to_memory')
    name = 'CAPSInstruction._writes_to_memory'
    eng, sts = ctx.run(f, limit=60, selfcls=c) if f else (None, None)
    if not sts:
        ctx.unk('budget', name)
    for s in sts or ():
        if s.exit[0] != 'return' or inconsistent(tuple(s.facts)):
            continue
        v = s.exit[1]
        lits = list(s.facts)
        ans = None
        if v.op == 'const' or is_num(v):
            ans = bool(v.args[0]) if v.op == 'const' else bool(num_val(v))
        alls = lits + ([v] if v.op in ('ge0', 'gt0', 'eq0', 'not') else [])
        names = sorted(set(show(y).split('.')[-1].rstrip(')') for q in alls for y in walk(q) if y.op == 'ext' and 'ARM_INS_' in show(y)))
        okay = all(bound_of(q) in (('low', 'ARM_INS_STR'), ('high', 'ARM_INS_STRT'), ('below', 'ARM_INS_STR'), ('above', 'ARM_INS_STRT')) for q in alls)
        if not names:
            ctx.decide(False if v.op == 'const' and not lits else None, 'memory', name, f.where(), 'always answers %s' % show(v)[:80])
        elif v.op == 'eq0' and len(names) == 1:
            ctx.bad('memory', name, f.where(), 'only %s is a store' % names[0])
        elif not okay:
            bs = [bound_of(q) for q in alls]
            ctx.decide(False if None not in bs else None, 'memory', name, f.where(), 'stores are told by %s' % conj(alls)[-160:])
        else:
            bs = set(bound_of(q)[0] for q in alls)
            if ans is not None:
                good = bool(bs & {'below', 'above'}) if not ans else {'low', 'high'} <= bs
            else:
                good = {'low', 'high'} <= bs or v.op != 'const' and bound_of(v)[0] in ('low', 'high') and len(bs) == 2
            ctx.decide(good, 'memory', name, f.where(), 'stores are told by %s' % conj(alls)[-160:])
    f = c.find('_read_from_memory')
    name = 'CAPSInstruction._read_from_memory'
    eng, sts = ctx.run(f, limit=60, selfcls=c, opaque_funcs=('_writes_to_memory',)) if f else (None, None)
    if not sts:
        return ctx.unk('budget', name)
    for s in sts:
        fs = tuple(s.facts)
        if s.exit[0] != 'return' or inconsistent(fs):
            continue
        v = s.exit[1]
        mem = None
        for q in fs:
            pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
            if 'ARM_OP_MEM' in show(h) and h.op == 'exists':
                mem = pos
            elif h.op == 'eq0' and 'ARM_OP_MEM' in show(h) and pos:
                mem = True
        w = asked(fs).get('_writes_to_memory')
        lits = v
        if v.op == 'not' and called_name(v.args[0].args[0] if v.args[0].op == 'truth' else v.args[0]) == '_writes_to_memory':
            ans = 'load'
        elif v.op == 'truth' and called_name(v.args[0]) == '_writes_to_memory' or called_name(v) == '_writes_to_memory':
            ans = 'store'
        elif v.op == 'const':
            ans = bool(v.args[0])
        elif v.op == 'exists' and 'ARM_OP_MEM' in show(v) and v.args[1].op == 'eq0' and w is False:
            ctx.ok('memory', name, f.where(), 'no store, a memory operand')
            continue
        else:
            odd = v.args[0] if v.op == 'not' else v
            own = odd.op in ('eq0', 'ge0', 'gt0', 'truth') and not has_op(odd, 'call', 'mcall', 'unk', 'hav') and independent(odd)
            ctx.decide(False if own and mem and w is not True else None, 'memory', name, f.where(), 'answers %s' % show(v)[:100])
            continue
        want = False if mem is False or w is True else (True if mem and w is False else 'load' if mem else None)
        if want is None:
            ctx.decide(None if ans is False else False if ans in (True, 'store') or ans == 'load' and not any('ARM_OP_MEM' in show(q) for q in fs) else None, 'memory', name, f.where(), 'answers %s without looking for a memory operand' % ans)
        else:
            ctx.decide(ans == want, 'memory', name, f.where(), 'answers %s under %s' % (ans, conj(fs)[-120:]))


def bound_of(q):
    """('low', STR) for id >= STR, ('below', STR) for id < STR …"""
    pos = q.op != 'not'
    h = q if pos else q.args[0]
    if h.op not in ('ge0', 'gt0'):
        return None
    d = pd(h.args[0])
    ext = idc = None
    k = 0
    for m, c_ in d.items():
        if not m:
            k = c_
        elif len(m) == 1 and m[0][0].op == 'ext':
            ext = (show(m[0][0]).split('.')[-1].rstrip(')'), c_)
        elif len(m) == 1 and m[0][0].op == 'attr' and m[0][0].args[1] == 'id' or len(m) == 1 and 'opcode' in show(m[0][0]):
            idc = c_
        else:
            return None
    if ext is None or idc is None or abs(idc) != 1 or ext[1] != -idc:
        return None
    if not pos:                                 # not(p >= 0) is -p - 1 >= 0
        idc, k = -idc, -k - 1
        ext = (ext[0], -idc)
    if h.op == 'gt0' and pos:
        k -= 1
    elif h.op == 'gt0':
        k += 1
    if idc == 1:
        return ('low', ext[0]) if k == 0 else ('above', ext[0]) if k == -1 else ('odd', ext[0])
    return ('high', ext[0]) if k == 0 else ('below', ext[0]) if k == -1 else ('odd', ext[0])


# ---------------------------------------------------------------- storages

WANT = {'storages_used': 'registers_used', 'storages_written': 'registers_written', 'storages_read': 'registers_read'}


def storages(ctx):
    c = ctx.cls(BASE, 'Instruction')
    for meth, src in sorted(WANT.items()):
        f = c.find(meth)
        name = 'Instruction.' + meth
        if f is None:
            ctx.unk('absent', name)
            continue
        eng, sts = ctx.run(f, limit=60, selfcls=c, opaque_funcs=ASKED)
        if not sts:
            ctx.unk('budget', name)
            continue
        kept = mk('attr', SELF, '_' + meth)
        for s in sts:
            fs = tuple(s.facts)
            if inconsistent(fs) or s.exit[0] != 'return':
                continue
            v = s.exit[1]
            if v.op == 'attr' and v.args[0] is SELF and (SELF, v.args[1]) not in s.heap:
                said = [q for q in fs if mentions(q, v)]
                set_ = any(q.op == 'truth' and q.args[0] is v or q.op == 'not' and q.args[0].op in ('isnone', 'eq0') for q in said)
                ctx.decide(v is kept if v.args[1] in ('_storages_used', '_storages_read', '_storages_written') else None, 'kept', name, f.where(), 'gives back %s' % show(v))
                ctx.decide(True if set_ else (False if not said else None), 'kept', name, f.where(), 'gives back a list that may not be filled')
                continue
            if any(q.op == 'not' and q.args[0].op == 'truth' and len(q.args[0].args) > 1 and grown(q.args[0].args[1]) for q in fs):
                continue                       # something was added: not empty
            p = content(s, name, fs)
            if p is None:
                ctx.unk('storages', name, f.where(), 'answers %s' % show(v)[:120])
                continue
            a = asked(fs)
            ctx.decide(storage_fits(meth, src, p, a, fs), 'storages', name, f.where(), 'answers %s under %s' % (p, say(a, fs)))
            for o, k in sorted(((o, k) for o, k in s.heap if o is SELF and k.startswith('_storages_')), key=lambda z: z[1]):
                val = s.heap[(o, k)]
                if val is v:
                    ctx.decide(k == '_' + meth, 'kept', name, f.where(), 'kept as %s' % k)
        # lists handed out by the register queries stay untouched
        for s in sts:
            for it in s.items():
                if isinstance(it, Ev) and it.kind in ('Append', 'Extend', 'Insert') and it.a and called_name(it.a[0]):
                    ctx.unk('storages', name, it.loc, 'adds to the list of %s' % called_name(it.a[0]))


def grown(ver):
    return ver.op == 'mut' and (ver.args[1] == 'append' or grown(ver.args[0]))


def say(a, fs):
    return ' '.join('%s%s' % ('' if v else 'no ', k) for k, v in sorted(a.items()))


def storage_fits(meth, src, p, a, fs):
    w, r, br = a.get('_writes_to_memory'), a.get('_read_from_memory'), a.get('is_branch')
    if ('all', src) not in p:
        alt = [x for x in p if isinstance(x, tuple)]
        gone = not alt and meth == 'storages_used' and p == [NONE]
        if not gone:
            return False
    regs = [x for x in p if isinstance(x, tuple)]
    if len(regs) > 1:
        return False
    nums = [x for x in p if not isinstance(x, tuple)]
    if meth == 'storages_used':
        mem = True if w or r else (False if w is False and r is False else None)
        if mem is None:
            return None if not nums else False
        if mem:
            return nums == [MEM]
        empty = emptiness(fs)
        if empty is None:
            return False if nums in ([], [NONE]) else None
        return nums == ([NONE] if empty else [])
    if meth == 'storages_read':
        if r is None:
            return False
        return nums == ([MEM] if r else [])
    if w is None:
        return False
    rest = [x for x in nums if x != MEM]
    if (MEM in nums) != w or nums.count(MEM) > 1:
        return False
    has = has_number(fs, PC)
    if has is True:
        return rest == []
    if has is False:
        return False if br is None else rest == ([PC] if br else [])
    if br is False:
        return rest == []
    return False                                # PC would be missing or listed twice


def emptiness(fs):
    for q in fs:
        pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
        if h.op == 'truth' and (h.args[0].op in ('obj', 'cat', 'copy', 'seq') or called_name(h.args[0]) and called_name(h.args[0]).startswith('registers')):
            return not pos
        if h.op == 'eq0' and 'len(' in show(h) and num_val(sub(h.args[0], next((y for y in walk(h) if y.op == 'len'), const(0)))) == 0:
            return pos
    return None
