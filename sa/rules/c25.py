"""C25: disassembly readers."""
from ..terms import *
from ..prove import inconsistent
from ..report import conj
from ..engine import LoopItem, Ev, Alt
from ..fold import loop_index
from ..shape import *
from ..lines import *

MOD = 'architecture.disassembler_readers'
SELF = mk('sym', 'self')

WORD = ALPHA + '0123456789_'
SEC = F('SEC', WORD, ('text', 'init_1', 'P'))
ADDR = F('ADDR', HEX, ('00010544', 'f', '1a2b3'))
NAME = F('NAME', PRINT.replace(';', '').replace(' ', '').replace('\t', '').replace('>', ''), ('_init', '$a', 'main', 'a.b'))
BYTES = [F('B%d' % i, HEX, ('e8', '00')) for i in range(4)]
ENC = F('ENC', HEX, ('e92d4008', 'eb00002f'))
MNEM = F('MNEM', ALPHA + '0123456789.', ('push', 'b'))
REST = F('REST', PRINT, ('{r3, lr}', ' a:b;  c <x>'))
LAST = F('LAST', PRINT.replace(' ', '').replace('\t', ''), ('}', ':'))


def text_code(blanks, nl, ops=True):
    return Str([' ' * blanks, '.', SEC, ':', ADDR, ' ', BYTES[0], ' ', BYTES[1], ' ', BYTES[2], ' ', BYTES[3], ' ' * 22, MNEM] +
               (['\t', REST, LAST] if ops else []) + (['\n'] if nl else []))


DATA = [' ', BYTES[0], ' ', BYTES[1], ' ', BYTES[2], ' ', BYTES[3], ' ' * 22]
TEXT = {'code': [text_code(27, True), text_code(1, True), text_code(28, False), text_code(27, True, False),
                 Str([' ' * 27, '.text:', ADDR] + DATA + ['ldr\tlr, [pc, #4]\t; 0x00010560  <$d>: (a:b) .c\n'])],
        'header': [Str(['.', SEC, ':', ADDR, ' <', NAME, '>:\n']), Str(['.', SEC, ':', ADDR, ' <', NAME, '>:']), ] +
                  [Str('.%s:%s <%s>:\n' % (x, y, z)) for x in ('init', 'text_1') for y in ('0001054c', '9') for z in ('$a', '$t', '_x', 'main', 'Reset_Handler', 'z', 'A', '__aeabi_idiv0', '9p', 'a.b.1', 'f(int, char)')],
        'empty': [Str('\n')]}
CODE_SECTIONS = ('init', 'plt', 'text', 'fini')


def elf_code(fields, nl):
    s = ['0x', ADDR, ';', ENC]
    if fields > 2:
        s += [';', MNEM]
    if fields > 3:
        s += [';', REST, LAST]
    return Str(s + (['\n'] if nl else []))


ELF = {'code': [elf_code(4, True), elf_code(3, True), elf_code(4, False), elf_code(2, True), Str(['0x', ADDR, ';', ENC, ';b.w;#-4 .x;.y ; z\n'])],
       'function': [Str(['0x', ADDR, ';', NAME, '\n']), Str(['0x', ADDR, ';', NAME]), Str(['0x', ADDR, ';\n']), Str(['0x', ADDR, ';', '.L1.text\n'])],
       'empty': [Str('\n'), Str('  \n')]}


def run(ctx):
    ctx.part(text)
    ctx.part(elfio)


def line_of(L):
    """the term of the line in a loop over the lines of a file; False when lines are skipped"""
    if L.seq is None or L.seq is False:
        return None
    for t in [L.elem] + [x for b in L.bodies for q in b.facts for x in walk(q)]:
        for x in walk(t):
            if x.op == 'elem' and mentions(x.args[1], L.iota) and any(y.op == 'file' for y in walk(x.args[0])) and not any(y.op == 'elem' and y is not x for y in walk(x)):
                if x.args[1] is L.iota:
                    return x if x.args[0].op != 'slice' else False
                return False
    return None


def line_loops(s):
    return [L for L in loop_index(s.items()).values() if line_of(L) is not None]


def mk_eval(line, shape, state=()):
    env = {line: shape}
    env.update(dict(state))
    return Eval(env)


def returned(s):
    return s.exit[1]


def is_fn_list(eng, L, g):
    """is g a list (or mapping) of function objects?"""
    ok = False
    for b in L.bodies:
        for e in b.trace:
            if isinstance(e, Ev) and e.kind in ('Append', 'SetItem') and e.a and e.a[0] is g:
                if e.a[-1].op != 'obj':
                    return False
                ok = True
    return ok


def feasible(ctx, eng, L, b, ev, line, rule, name):
    """(possible on this shape?, context facts); possible is None when it depends on something not understood"""
    ctxf = []
    res = True
    for q in b.facts:
        pos, h = (False, q.args[0]) if q.op == 'not' else (True, q)
        if h.op == 'in' and h.args[0] is line and any(x.op == 'file' for x in walk(h.args[1])):
            if not pos:
                return False, ctxf
            continue
        if h.op == 'ge0' and mentions(h, L.iota) and not any(x is line for x in walk(h)):
            continue
        if h.op == 'in' and h.args[1].op == 'obj' and isinstance(ev.val(h.args[0]), Str) and is_fn_list(eng, L, h.args[1]) and not any(
                isinstance(e, Ev) and e.kind == 'SetItem' and e.a[0] is h.args[1] for x in L.bodies for e in x.trace):
            if pos:
                return False, ctxf                # a name is no function object
            continue
        if h.op == 'truth' and 'unmodelled_exception' in show(h.args[0])[:24]:
            if pos:
                return False, ctxf
            continue
        if h.op == 'in' and len(h.args) > 2 and h.args[2].op == 'mut' and h.args[2].args[-1] is h.args[0]:
            if not pos:
                return False, ctxf                # it has just been filed
            continue
        r = ev.lit(q)
        if r is False:
            return False, ctxf
        if r is True:
            continue
        if h.op == 'truth' and h.args[0].op in ('index', 'mcall', 'get', 'dget') and h.args[0].args[0].op == 'obj' and is_fn_list(eng, L, h.args[0].args[0]):
            if not pos:
                return False, ctxf
            continue
        if h.op == 'in' and h.args[1].op == 'obj' and isinstance(ev.val(h.args[0]), Num):
            ctxf.append((pos, h))
            continue
        if h.op == 'in' and h.args[1].op == 'obj' and isinstance(ev.val(h.args[0]), Str) and any(
                isinstance(e, Ev) and e.kind in ('Append', 'Add') and e.a[0] is h.args[1] and e.a[1] is h.args[0] for x in L.bodies for e in x.trace):
            ctxf.append((pos, h))                 # the same line may have been met before, or not
            continue
        if h.op == 'eq0':
            # a number of the line may or may not be this one
            d = dict(pd(h.args[0]))
            k = d.pop((), 0)
            if len(d) == 1:
                (m, c), = d.items()
                n = ev.val(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
                if isinstance(n, Num) and isinstance(n.base, int) and len(n.s.items) == 1 and isinstance(n.s.items[0], F) and -k / c == int(-k / c):
                    if -k / c < 0:
                        if pos:
                            return False, ctxf
                        continue
                    ctxf.append((pos, h))
                    continue
        if mentions(q, line) or any(x.op == 'hav' for x in walk(q)) and any(x in ev.given for x in walk(q) if x.op == 'hav'):
            res = None
        if any(x.op == 'hav' and isinstance(x.args[1], str) and not keeps_fn(eng, L, x) for x in walk(q)):
            res = None
        ctxf.append((pos, h))
    return res, ctxf


def keeps_fn(eng, L, h):
    """does the variable hold a function object?"""
    for k, x in L.hav.items():
        if x is h:
            vals = [eng.get_key(b.state, k) for b in L.bodies]
            return any(v is not None and (v.op in ('index', 'get', 'dget', 'mcall') and v.args[0].op == 'obj' or v.op == 'obj') for v in vals)
    return True


def appended(b, dst=None):
    return [e for e in b.trace if isinstance(e, Ev) and e.kind == 'Append' and (dst is None or e.a[0] is dst)]


def is_new(t):
    return t.op == 'new'


def check_inst(ctx, ev, t, want_enc, rule, name, loc):
    """is t the instruction of the line?"""
    if show(t.args[0]) not in ('CAPSInstruction', 'cls(CAPSInstruction)') and 'CAPSInstruction' not in str(t.args[0]):
        ctx.unk(rule, name, loc, 'makes %s' % show(t)[:100])
        return
    enc, pos = (list(t.args[1:]) + [None, None])[:2]
    p = ev.val(pos) if pos is not None else None
    if isinstance(p, Num):
        ok = p.base == 16 and p.s == Str([ADDR])
    elif isinstance(p, Str) or isinstance(p, int):
        ok = False
    else:
        ok = False if pos is None or pos.op in ('const', 'unbound') else None
    ctx.decide(ok, rule, name, loc, 'the address of a line becomes %s' % (p if p is not None else show(pos)[-120:] if pos is not None else 'missing'))
    r, msg = want_enc(ev, enc)
    ctx.decide(r, rule, name, loc, msg)


def text_enc(ev, enc):
    if enc is None or enc.op == 'const':
        return False, 'no encoding is given'
    inner = None
    if enc.op == 'call' and show(enc.args[0]).rstrip(')').endswith('.reverse_endianess'):
        inner = ev.val(enc.args[1])
        if isinstance(inner, Str):
            return inner.without(WS) == Str(BYTES), 'the bytes reversed are %r' % inner
        return (False if isinstance(inner, (Num, Lst)) else None), 'the bytes reversed are %s' % show(enc.args[1])[-140:]
    v = ev.val(enc)
    if isinstance(v, Str):
        return v.without(WS) == Str(BYTES[::-1]), 'the encoding is %r' % v
    if isinstance(v, Num):
        return (v.s == Str(BYTES[::-1]) and v.base == 16), 'the encoding is %r' % v
    return None, 'the encoding is %s' % show(enc)[-140:]


def elf_enc(ev, enc):
    v = ev.val(enc) if enc is not None else None
    if isinstance(v, Num):
        return v.base == 16 and v.s == Str([ENC]), 'the encoding is %r' % v
    if isinstance(v, Str):
        # read as the text of a number
        return None if v == Str([ENC]) else False, 'the encoding is %r' % v
    return None, 'the encoding is %s' % (show(enc)[-140:] if enc is not None else 'missing')


# ---------------------------------------------------------------- one instruction for each line

def everything(ctx, eng, L, line, name, rule):
    if line is False:
        ctx.bad(rule, name, L.loc, 'lines are left out: %s' % show(L.seq)[:100])
        return False
    for b in L.bodies:
        if b.kind in ('break', 'return') and not inconsistent(tuple(L.head_facts) + tuple(b.facts)):
            ctx.bad(rule, name, L.loc, 'stops reading under %s' % conj(b.facts)[-160:])
            return False
    return True


def inst_list(ctx, eng, s, R, shapes, want_enc, name, states=None):
    """R gets exactly the instruction of every code line, in order"""
    rule = 'lines'
    Ls = [L for L in line_loops(s) if any(appended(b, R) for b in L.bodies)]
    if len(Ls) != 1:
        # a comprehension over the lines, or nothing at all
        own = content_loop(eng, s, R)
        ctx.decide(None if own is not False else False, rule, name, '', 'the instructions are %s' % show(s.heap.get((R, '#')) or R)[:160])
        return None
    L = Ls[0]
    line = line_of(L)
    if not everything(ctx, eng, L, line, name, rule):
        return None
    others = [e for e in s.items() if isinstance(e, Ev) and e.a and e.a[0] is R and e.kind in ('Append', 'Insert', 'Extend', 'Remove', 'Pop', 'Clear', 'Sort', 'Reverse', 'Del')]
    for e in others:
        ctx.decide(False if e.kind in ('Remove', 'Pop', 'Clear', 'Reverse', 'Del', 'Append', 'Insert') or e.kind == 'Sort' and e.a[2].op == 'const' and e.a[2].args[0] is True else None, rule, name, e.loc, '%s on the instructions read' % e.kind)
    for kind, lines in shapes.items():
        for shape in lines:
            for st in (states or {None: [()]}).get(kind if states else None, [()]):
                inst_shape(ctx, eng, L, line, R, kind, shape, st, want_enc, rule, name)
    return L


def content_loop(eng, s, R):
    c = s.heap.get((R, '#'))
    return False if c is not None and c.op == 'seq' and not c.args else None


def inst_shape(ctx, eng, L, line, R, kind, shape, st, want_enc, rule, name):
    seen = 0
    for b in L.bodies:
        ev = mk_eval(line, shape, st)
        ok, cf = feasible(ctx, eng, L, b, ev, line, rule, name)
        if ok is False:
            continue
        seen += 1
        app = appended(b, R)
        if b.kind == 'raise':
            ctx.decide(False if ok else None, rule, name, L.loc, 'a %s line %r is refused' % (kind, shape))
            continue
        if kind != 'code':
            if app:
                ctx.decide(False if ok else None, rule, name, app[0].loc, 'a %s line %r gives an instruction' % (kind, shape))
            else:
                ctx.ok(rule, name, L.loc, 'no instruction from a %s line' % kind)
            continue
        if len(app) != 1:
            ctx.decide(False if ok else None, rule, name, L.loc, 'a code line %r gives %s instructions' % (shape, len(app)))
            continue
        if not ok:
            ctx.unk(rule, name, L.loc, 'a code line under %s' % ' & '.join(show(h)[-80:] for p, h in cf))
            continue
        if not is_new(app[0].a[1]):
            ctx.unk(rule, name, app[0].loc, 'appends %s' % show(app[0].a[1])[:100])
            continue
        check_inst(ctx, ev, app[0].a[1], want_enc, rule, name, app[0].loc)
    if not seen:
        ctx.unk(rule, name, L.loc, 'a %s line %r' % (kind, shape))


# ---------------------------------------------------------------- text files

def text(ctx):
    c = ctx.cls(MOD, 'TextDisassembleReader')
    for m in ('read_instructions', 'read_functions', 'read'):
        f = c.find(m)
        name = 'TextDisassembleReader.' + m
        if f is None:
            ctx.unk('anchor', name)
            continue
        eng, sts = ctx.run(f, limit=60, selfcls=c, opaque_funcs=('reverse_endianess',))
        if not sts:
            ctx.unk('budget', name)
            continue
        n = 0
        for s in sts:
            if s.exit[0] != 'return' or inconsistent(tuple(s.facts)):
                continue
            n += 1
            v = returned(s)
            fl, il = (v.args[0], v.args[1]) if m == 'read' and v.op == 'tuple' and len(v.args) == 2 else (v, None) if m == 'read_functions' else (None, v)
            if il is not None:
                if il.op == 'obj':
                    inst_list(ctx, eng, s, il, TEXT, text_enc, name)
                else:
                    ctx.unk('lines', name, f.where(), 'returns %s' % show(il)[:100])
            if fl is not None:
                if fl.op == 'obj':
                    text_functions(ctx, eng, s, fl, name)
                else:
                    ctx.unk('functions', name, f.where(), 'returns %s' % show(fl)[:100])
        if not n:
            ctx.bad('lines', name, f.where(), 'never returns')


def made(b_or_s, items=None):
    """function objects made on the path: obj -> (class, args)"""
    return {e.a[0]: e for e in (items if items is not None else b_or_s.trace) if isinstance(e, Ev) and e.kind == 'NewObj'}


def text_functions(ctx, eng, s, G, name):
    rule = 'functions'
    Ls = [L for L in line_loops(s) if any(appended(b, G) for b in L.bodies)]
    if len(Ls) != 1:
        c = s.heap.get((G, '#')) or G
        part = c.op == 'mapseq' and len(c.args) > 3 and c.args[3] is not TRUE and c.args[3].op != 'unk' and c.args[1].op == 'elem' and c.args[1].args[0].op == 'obj'
        ctx.decide(False if part or not Ls and line_loops(s) and content_loop(eng, s, G) is False else None, rule, name, '', 'the functions are %s' % show(s.heap.get((G, '#')) or G)[:160])
        return
    L = Ls[0]
    line = line_of(L)
    if not everything(ctx, eng, L, line, name, rule):
        return
    # before the first header
    init = L.inits.get((G, '#'))
    first = init.args[0] if init is not None and init.op == 'seq' and len(init.args) == 1 else None
    if init is not None and init.op == 'seq' and not init.args:
        ctx.unk(rule, name, L.loc, 'no function before the first header')
    # variables that hold the newest function
    newest = set()
    for key, h in L.hav.items():
        if not isinstance(eng.key_name(key), str) or h.op != 'hav':
            continue
        ini = L.inits.get(key)
        if ini is None or ini is not first:
            continue
        good = True
        for b in L.bodies:
            v = eng.get_key(b.state, key)
            app = appended(b, G)
            good = good and (v is (app[-1].a[1] if app else h))
        if good:
            newest.add(h)
    for kind, lines in TEXT.items():
        for shape in lines:
            seen = 0
            for b in L.bodies:
                ev = mk_eval(line, shape)
                ok, cf = feasible(ctx, eng, L, b, ev, line, rule, name)
                if ok is False:
                    continue
                seen += 1
                if b.kind == 'raise':
                    ctx.decide(False if ok else None, rule, name, L.loc, 'a %s line is refused' % kind)
                    continue
                fns = appended(b, G)
                ins = [e for e in appended(b) if is_new(e.a[1])]
                if kind == 'header':
                    if len(fns) != 1 or ins:
                        ctx.decide(False if ok else None, rule, name, L.loc, 'a header line %r gives %s functions and %s instructions' % (shape, len(fns), len(ins)))
                        continue
                    e = made(b).get(fns[0].a[1])
                    if e is not None and len(e.a) > 2 and e.a[2] and stale(eng, L, e.a[2][0], line):
                        ctx.bad(rule, name, e.loc, 'the function is named %s whatever the line' % show(e.a[2][0])[-80:])
                        continue
                    if not ok:
                        ctx.unk(rule, name, L.loc, 'a header line under %s' % ' & '.join(show(h)[-80:] for p, h in cf))
                        continue
                    e = made(b).get(fns[0].a[1])
                    if e is None:
                        ctx.decide(False if fns[0].a[1] is first or fns[0].a[1] in newest else None, rule, name, fns[0].loc, 'a header line adds %s' % show(fns[0].a[1])[:80])
                        continue
                    arg = e.a[2][0] if len(e.a) > 2 and e.a[2] else None
                    nm = ev.val(arg) if arg is not None else None
                    own = shape.text()
                    has_name = isinstance(nm, Str) and (NAME.name in nm.fields() if own is None else nm.text() is not None and own[own.index('<') + 1:own.index('>')] in nm.text())
                    ctx.decide(has_name if isinstance(nm, Str) else (False if arg is None or arg.op == 'const' else None), rule, name, e.loc, 'the function is named %s' % (nm if nm is not None else show(arg)[-80:] if arg is not None else 'by default'))
                elif kind == 'code':
                    if fns or len(ins) != 1:
                        ctx.decide(False if ok else None, rule, name, L.loc, 'a code line %r gives %s functions and %s instructions' % (shape, len(fns), len(ins)))
                        continue
                    if not ok:
                        ctx.unk(rule, name, L.loc, 'a code line under %s' % ' & '.join(show(h)[-80:] for p, h in cf))
                        continue
                    if any(stale(eng, L, x, line) for x in made_args(b, ins[0].a[1])):
                        ctx.bad(rule, name, ins[0].loc, 'the instruction of a line does not come from the line')
                        continue
                    check_inst(ctx, ev, ins[0].a[1], text_enc, rule, name, ins[0].loc)
                    dst = ins[0].a[0]
                    base = dst.args[0] if dst.op == 'attr' and dst.args[1] == 'instructions' else None
                    ok2 = None
                    if base is not None and base.op == 'index' and base.args[0] is G:
                        i = base.args[1]
                        n = num_val(i)
                        if n is not None:
                            ok2 = n == -1
                        else:
                            d = dict(pd(i))
                            k = d.pop((), 0)
                            ok2 = k == -1 if len(d) == 1 and list(d.items())[0][0][0][0].op == 'len' and list(d.values())[0] == 1 else None
                    elif base in newest:
                        ok2 = True
                    elif base is not None and base is first:
                        ok2 = False
                    ctx.decide(ok2, rule, name, ins[0].loc, 'the instruction of a line goes to %s' % show(dst)[:140])
                else:
                    if fns or ins:
                        ctx.decide(False if ok else None, rule, name, L.loc, 'an empty line gives something')
                    else:
                        ctx.ok(rule, name, L.loc, 'nothing from an empty line')
            if not seen:
                ctx.unk(rule, name, L.loc, 'a %s line %r' % (kind, shape))


def made_args(b, t):
    return [x for x in t.args[1:] if isinstance(x, T)] if t.op == 'new' else []


def stale(eng, L, t, line):
    """a variable of the loop that no iteration takes from its line"""
    if not isinstance(t, T) or t.op != 'hav':
        return False
    k = next((k for k, h in L.hav.items() if h is t), None)
    if k is None:
        return False
    vs = [eng.get_key(b.state, k) for b in L.bodies]
    return all(v is not None and not any(x is L.elem or x is line or x.op in ('unk', 'out', 'call', 'obj') for x in walk(v)) for v in vs)


# ---------------------------------------------------------------- elfio files

def elfio(ctx):
    c = ctx.cls(MOD, 'ElfioTextDisassembleReader')
    for m in ('read', 'read_instructions', 'read_functions'):
        f = c.find(m)
        name = 'ElfioTextDisassembleReader.' + m
        if f is None:
            ctx.unk('anchor', name)
            continue
        eng, sts = ctx.run(f, limit=60, selfcls=c)
        if not sts:
            ctx.unk('budget', name)
            continue
        n = 0
        for s in sts:
            if s.exit[0] != 'return' or inconsistent(tuple(s.facts)):
                continue
            n += 1
            v = returned(s)
            fl, il = (v.args[0], v.args[1]) if m == 'read' and v.op == 'tuple' and len(v.args) == 2 else (v, None) if m == 'read_functions' else (None, v)
            Ls = [L for L in line_loops(s)]
            if len(Ls) != 1:
                ctx.unk('lines', name, f.where(), '%d loops over the lines' % len(Ls))
                continue
            L = Ls[0]
            line = line_of(L)
            if not everything(ctx, eng, L, line, name, 'lines'):
                continue
            st = sections(ctx, eng, L, line, name)
            if st is None:
                continue
            R = il
            if il is not None:
                if il.op == 'obj':
                    inst_list(ctx, eng, s, il, ELF_KINDS(), elf_enc, name, st)
                else:
                    ctx.unk('lines', name, f.where(), 'returns %s' % show(il)[:100])
            if fl is not None:
                elf_functions(ctx, eng, s, L, line, fl, R, st, name)
        if not n:
            ctx.bad('lines', name, f.where(), 'never returns')


def ELF_KINDS():
    r = dict(ELF)
    r['section'] = [Str('.%s\n' % x) for x in CODE_SECTIONS + ('functions',)]
    return r


def sections(ctx, eng, L, line, name):
    """state of the walk in each section: {kind of line: [state]}; state = ((hav term, abstract value), ...)"""
    per = {}
    doubt = []
    vary = [k for k, h in L.hav.items() if isinstance(eng.key_name(k), str) and h.op == 'hav']
    used = set(x for b in L.bodies for q in b.facts for x in walk(q) if x.op == 'hav')
    # variables that only section lines change, to something known
    for sec in CODE_SECTIONS + ('functions',):
        shape = Str('.%s\n' % sec)
        got = {}
        for b in L.bodies:
            ev = mk_eval(line, shape)
            ok, cf = feasible(ctx, eng, L, b, ev, line, 'sections', name)
            if ok is False or b.kind == 'raise':
                continue
            for k in vary:
                v = eng.get_key(b.state, k)
                x = ev.val(v) if v is not None else None
                if v is L.hav[k] or x is None:
                    got[k] = None if k not in got or got[k] is None else None
                    got[k] = 'keep' if v is L.hav[k] and got.get(k, 'keep') == 'keep' else None
                elif k in got and got[k] != x:
                    got[k] = None
                else:
                    got[k] = x
        per[sec] = tuple(sorted(((L.hav[k], x) for k, x in got.items() if x is not None and x != 'keep'), key=lambda p: show(p[0])))
    hs = set(h for st in per.values() for h, x in st)
    for h in hs:
        k = next(k for k in vary if L.hav[k] is h)
        for kind in ('code', 'function', 'empty'):
            for shape in ELF[kind]:
                for b in L.bodies:
                    state = per['functions'] if kind == 'function' else per['text']
                    ev = mk_eval(line, shape, state)
                    ok, cf = feasible(ctx, eng, L, b, ev, line, 'sections', name)
                    if ok is False:
                        continue
                    v = eng.get_key(b.state, k)
                    if v is not h:
                        x = ev.val(v)
                        if ok and h in used and x is not None and x != dict(state)[h]:
                            ctx.bad('sections', name, L.loc, 'a %s line %r is taken as the start of a section' % (kind, shape))
                            return None
                        doubt.append('a %s line changes %s' % (kind, eng.key_name(k)))
    for d in doubt[:1]:
        ctx.unk('sections', name, L.loc, d)
        return None
    if not hs:
        ctx.unk('sections', name, L.loc, 'the section of a line is not remembered')
        return None
    return {'code': [per[x] for x in CODE_SECTIONS], 'function': [per['functions']], 'empty': [per['text'], per['functions']], 'section': [()]}


def table_events(b, D):
    return [e for e in b.trace if isinstance(e, Ev) and e.kind == 'SetItem' and e.a[0] is D]


def elf_functions(ctx, eng, s, L, line, G, R, st, name):
    rule = 'functions'
    # the table the list is made of
    c = s.heap.get((G, '#')) if G.op == 'obj' else G
    if G.op == 'obj' and any(is_new(e.a[1]) for b in L.bodies for e in appended(b, G)):
        ctx.bad(rule, name, L.loc, 'instructions are returned as functions')
        return
    Ds = set(e.a[0] for b in L.bodies for e in b.trace if isinstance(e, Ev) and e.kind == 'SetItem')
    if len(Ds) != 1:
        ctx.decide(None, rule, name, L.loc, '%d tables of functions' % len(Ds))
        return
    D = Ds.pop()
    if c is None or not any(x is D for x in walk(c)):
        ctx.decide(None, rule, name, L.loc, 'the functions are %s' % (show(c)[:120] if c is not None else '?'))
        return
    whole = None
    if c.op == 'mapseq' and len(c.args) >= 3 and c.args[1].op == 'index' and c.args[1].args[0] is D and c.args[1].args[1].op == 'elem' and c.args[1].args[1].args[0] is D:
        whole = c.args[2].op == 'len' and c.args[2].args[0] is D and c.args[1].args[1].args[1] is c.args[0]
        whole = True if whole else None
    elif c.op in ('copy', 'mcall', 'values') and any(x.op in ('mcall', 'values') and ('values' in x.args[1:2] or x.op == 'values') for x in walk(c)):
        whole = not any(x.op == 'slice' for x in walk(c)) or None
    ctx.decide(whole, rule, name, L.loc, 'the functions returned are %s' % show(c)[:140])
    for kind, shapes in ELF.items():
        for shape in shapes:
            for state in st[kind]:
                seen = 0
                for b in L.bodies:
                    ev = mk_eval(line, shape, state)
                    ok, cf = feasible(ctx, eng, L, b, ev, line, rule, name)
                    if ok is False:
                        continue
                    seen += 1
                    sets = table_events(b, D)
                    ins = [e for e in appended(b) if is_new(e.a[1]) and e.a[0].op == 'attr' and e.a[0] is not R and e.a[0].args[1] == 'instructions' and e.a[0].args[0] is not SELF]
                    if b.kind == 'raise':
                        ctx.decide(False if ok else None, rule, name, L.loc, 'a %s line is refused' % kind)
                        continue
                    if kind == 'function':
                        if len(sets) != 1 or ins:
                            ctx.decide(False if ok else None, rule, name, L.loc, 'a function line %r gives %s functions' % (shape, len(sets)))
                            continue
                        if not ok:
                            ctx.unk(rule, name, L.loc, 'a function line under %s' % ' & '.join(show(h)[-80:] for p, h in cf))
                            continue
                        k = ev.val(sets[0].a[1])
                        ctx.decide((k.base == 16 and k.s == Str([ADDR])) if isinstance(k, Num) else (False if isinstance(k, Str) else None), rule, name, sets[0].loc, 'the function is filed under %s' % (k if k is not None else show(sets[0].a[1])[-80:]))
                        e = made(b).get(sets[0].a[2])
                        arg = e.a[2][0] if e is not None and len(e.a) > 2 and e.a[2] else None
                        nm = ev.val(arg) if arg is not None else None
                        own = strip(Str(shape.items[shape.items.index(';') + 1:]), '\n')
                        ctx.decide(nm == own if isinstance(nm, Str) else (False if e is not None and (arg is None or arg.op == 'const') else None), rule, name, sets[0].loc, 'the function is named %s' % nm)
                        continue
                    if sets:
                        ctx.decide(False if ok else None, rule, name, sets[0].loc, 'a %s line %r gives a function' % (kind, shape))
                        continue
                    if kind == 'empty':
                        ctx.decide(True if not ins else False if ok else None, rule, name, L.loc, 'an empty line gives an instruction')
                        continue
                    if not ok:
                        ctx.unk(rule, name, L.loc, 'a code line under %s' % ' & '.join(show(h)[-80:] for p, h in cf))
                        continue
                    owner(ctx, eng, L, b, ev, D, cf, ins, rule, name)
                if not seen:
                    ctx.unk(rule, name, L.loc, 'a %s line %r' % (kind, shape))
    # the current function stays what it is where no instruction is read
    cur = set(e.a[0].args[0] for b in L.bodies for e in appended(b) if is_new(e.a[1]) and e.a[0].op == 'attr' and e.a[0].args[1] == 'instructions' and e.a[0].args[0].op == 'hav')
    for key, h in L.hav.items():
        if h not in cur:
            continue
        for kind, shapes in [('section', [Str('.%s\n' % x) for x in CODE_SECTIONS])] + [(k, v) for k, v in ELF.items() if k == 'empty']:
            for shape in shapes:
                for b in L.bodies:
                    ok, cf = feasible(ctx, eng, L, b, mk_eval(line, shape, st[kind][0]), line, rule, name)
                    v = eng.get_key(b.state, key)
                    if ok is False or v is h or b.kind == 'raise':
                        continue
                    ctx.decide(False if ok and v is not None and v.op == 'const' else None, rule, name, L.loc, 'the current function becomes %s at a %s line' % (show(v)[:80] if v is not None else '?', kind))


def owner(ctx, eng, L, b, ev, D, cf, ins, rule, name):
    """the function an instruction goes to"""
    starts = alive = None
    cur = None
    for pos, h in cf:
        if h.op == 'in' and h.args[1] is D:
            k = ev.val(h.args[0])
            if isinstance(k, Num) and k.s == Str([ADDR]) and k.base == 16:
                starts = pos
            else:
                ctx.decide(False if k is not None else None, rule, name, L.loc, 'functions start at %s' % (k if k is not None else show(h.args[0])[-80:]))
                return
        elif h.op == 'truth' and h.args[0].op == 'hav':
            alive, cur = pos, h.args[0]
        elif h.op == 'eq' and any(a.op == 'hav' for a in h.args) and any(a.op == 'const' and a.args[0] is None for a in h.args):
            alive, cur = not pos, [a for a in h.args if a.op == 'hav'][0]
        elif h.op in ('is', 'isnone') and h.args[0].op == 'hav':
            alive, cur = not pos, h.args[0]
        else:
            ctx.unk(rule, name, L.loc, 'a code line under %s' % show(h)[-120:])
            return
    keys = [k for k, h in L.hav.items() if isinstance(eng.key_name(k), str) and h.op == 'hav' and ('fn' in eng.key_name(k) or h is cur or any(e.a[0].args[0] is h for e in ins))]
    if len(keys) != 1:
        ctx.unk(rule, name, L.loc, 'the current function is kept in %s' % sorted(map(str, keys)))
        return
    key = keys[0]
    h = L.hav[key]
    after = eng.get_key(b.state, key)

    def entry(t):
        return t is not None and t.op in ('index', 'get', 'dget', 'mcall') and t.args[0] is D and isinstance(ev.val(t.args[1] if t.op != 'mcall' else t.args[2]), Num)
    if starts is None:
        if alive is False and not ins or alive and ins and ins[0].a[0].args[0] is h:
            ctx.bad(rule, name, L.loc, 'where functions start is not asked')
        else:
            ctx.unk(rule, name, L.loc, 'the function of an instruction under %s' % ' & '.join(show(x)[-80:] for p, x in cf))
        return
    if starts:
        ok = len(ins) == 1 and entry(ins[0].a[0].args[0])
        wrong = not ins or ins[0].a[0].args[0] is h
        ctx.decide(True if ok else False if wrong else None, rule, name, L.loc, 'the first instruction of a function goes to %s' % ([show(e.a[0])[:80] for e in ins]))
        ctx.decide(True if entry(after) else False if after is h else None, rule, name, L.loc, 'the current function becomes %s' % show(after)[:80])
        return
    ctx.decide(True if after is h else False if after.op == 'const' or entry(after) else None, rule, name, L.loc, 'the current function becomes %s' % show(after)[:80])
    ini = L.inits.get(key)
    if alive is False:
        ctx.decide(True if not ins else None, rule, name, L.loc, 'an instruction before any function goes to %s' % ([show(e.a[0])[:80] for e in ins]))
    elif alive:
        ok = len(ins) == 1 and ins[0].a[0].args[0] is h
        ctx.decide(True if ok else False if not ins or entry(ins[0].a[0].args[0]) else None, rule, name, L.loc, 'the next instruction of a function goes to %s' % ([show(e.a[0])[:80] for e in ins]))
    else:
        ok = len(ins) == 1 and ins[0].a[0].args[0] is h
        ctx.decide(False if not ins else None, rule, name, L.loc, 'the next instruction of a function goes to %s' % ([show(e.a[0])[:80] for e in ins]))
