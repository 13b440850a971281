"""C31: the control flow graph holds every instruction once and an edge for every way control can go."""
import ast
from itertools import product

from ..terms import *
from ..prove import inconsistent, prove
from ..report import conj
from ..engine import Ev, LoopItem, Alt, V0
from .. import engine
from ..shape import has
from .c28 import called

SELF = mk('sym', 'self')
MOD = 'static_analysis.cfg'
G = 'ARMControlFlowGraph.'
STEPS = ('_add_node', '_add_multiple_edges', '_split_node', '_add_pending_jump', '_get_node_with_inst', '_get_conditional',
         'branch_to', '_branch_conditional', '_branch_instruction', 'CFGBlock.__init__')


def run(ctx):
    old = engine.MAXPATHS
    engine.MAXPATHS = max(old, 200)
    try:
        for p in (block, adding, holding, deciding, several, pending, target, splitting, conditional, branching, building,
                  unconditional):
            ctx.part(p)
    finally:
        engine.MAXPATHS = old


# ------------------------------------------------------------------ what a path does to the graph
def steps_but(*own):
    return tuple(x for x in STEPS if x not in own)


def consts(ctx):
    c = ctx.cls(MOD, 'CFGBlock')
    out = {k: ast.literal_eval(v) for k, v in c.consts.items() if isinstance(v, ast.Constant)}
    return out


def always(ctx):
    for m in ('architecture.arm_constants', 'architecture.arm_instruction'):
        mod = ctx.prog.mods.get('semantic_codec.' + m) or ctx.prog.mods.get(m)
        if mod and 'AOpType' in mod.classes and 'COND_ALWAYS' in mod.classes['AOpType'].consts:
            return ast.literal_eval(mod.classes['AOpType'].consts['COND_ALWAYS'])
    for mod in ctx.prog.mods.values():
        c = mod.classes.get('AOpType')
        if c is not None and 'COND_ALWAYS' in c.consts:
            return ast.literal_eval(c.consts['COND_ALWAYS'])
    return None


def step(t):
    """the name of the step a term is the result of"""
    if t.op == 'call' and t.args[0].op == 'fn':
        return t.args[0].args[0].split('.')[-1]
    if t.op == 'mcall' and len(t.args) > 1 and isinstance(t.args[1], str):
        return t.args[1]
    return None


def bare(t):
    """without the bookkeeping: a node that was added is the node; versions of the containers are dropped"""
    if not isinstance(t, T):
        return t
    if t.op == 'at' or (t.op == 'idx' and False):
        return bare(t.args[0])
    if step(t) == '_add_node' and len(t.args) >= 3:
        return bare(t.args[2])
    return t


def lists(s, t):
    """the elements of a list literal, or None"""
    if t.op == 'obj':
        c = s.heap.get((t, '#'))
        if c is not None and c.op == 'seq':
            return tuple(c.args)
        return None
    if t.op in ('seq', 'list', 'listlit'):
        return tuple(t.args)
    return None


class Path(object):
    """the effects on the graph of one path: edges, nodes, calls of the other steps"""
    def __init__(self, s, facts, items):
        self.s, self.facts = s, tuple(facts)
        self.edges, self.nodes, self.added, self.calls, self.appended, self.gone, self.set, self.odd = \
            [], {}, [], [], [], [], [], []
        self.many, self.items, self.loops = [], items, []
        for e in items:
            self.take(e)
        for f in self.facts:
            self.known(f)

    def known(self, f):
        if f.op == 'truth' and f.args[0].op == 'call' and f.args[0].args[0].op == 'attr' and f.args[0].args[0].args[1] == 'has_edge':
            a = f.args[0].args[1]
            if a.op == 'tuple' and len(a.args) == 2:
                self.edges.append(('there', bare(a.args[0]), bare(a.args[1])))

    def take(self, e):
        if isinstance(e, LoopItem):
            m = self.each(e.loop)
            if m is not None:
                self.many.append(m)
            else:
                self.loops.append(e)
            return
        if e.kind == 'Call':
            n, a = e.a[0].split('.')[-1], [bare(x) for x in e.a[1]]
            if e.a[0].endswith('CFGBlock.__init__'):
                self.nodes[a[0]] = a[1:]
            elif n == '_add_node':
                self.added.append(a[1])
            elif n == '_add_multiple_edges':
                self.many.append((a[1], a[2]))
            else:
                self.calls.append((n, a, e))
            return
        for m in ('add_edge', 'del_edge', 'del_node', 'add_node'):
            p = called(e, m)
            if p is not None:
                if p and p[0].op == 'tuple' and len(p[0].args) == 2 and m.endswith('edge'):
                    x = (bare(p[0].args[0]), bare(p[0].args[1]))
                    if m == 'add_edge':
                        self.edges.append(('add',) + x)
                    else:
                        self.gone.append(x)
                elif m == 'add_node' and p:
                    self.added.append(bare(p[0]))
                else:
                    self.odd.append(e)
                return
        if e.kind in ('Append', 'Extend', 'Insert'):
            self.appended.append((e.kind, e.a[0], bare(e.a[-1]) if e.kind != 'Insert' else e))
        elif e.kind in ('SetAttr', 'SetItem', 'Del', 'Pop', 'Remove', 'Clear'):
            self.set.append(e)
        elif e.kind in ('CallUnknown', 'MCall'):
            if not any(called(e, m) is not None for m in ('has_edge', 'has_node', 'incidents', 'neighbors')) and e.kind == 'CallUnknown':
                self.odd.append(e)

    def each(self, L):
        """(destination, sources) of a loop that adds the edge from every element to one node"""
        dest = None
        for b in L.bodies:
            if b.kind not in ('next', 'fall', 'continue'):
                return None
            p = Path(b.state, b.facts, [x for x in b.trace])
            if p.calls or p.set or p.appended or p.loops or p.odd or p.gone or p.nodes:
                return None
            es = [x for x in p.edges if x[1] is L.elem]
            if len(es) != len(p.edges) or not es or any(has(x[2], L.elem) for x in es):
                return None
            if dest is not None and es[0][2] is not dest:
                return None
            dest = es[0][2]
        return None if dest is None else (dest, base(L.seq))

    def has(self, a, b):
        return any(x[1] is a and x[2] is b for x in self.edges)


def base(t):
    while t.op in ('at', 'copy') or (t.op == 'index' and False):
        t = t.args[0]
    return t


def index_of(t, inst):
    """t is the pending jumps of the instruction"""
    if t.op == 'index' and t.args[1] is inst and t.args[0].op == 'attr' and t.args[0].args[1] == '_pending_jumps':
        return True
    if t.op in ('get', 'mcall') and inst in t.args and any(isinstance(x, T) and x.op == 'attr' and x.args[1] == '_pending_jumps' for x in t.args):
        return True
    return False


def paths(s):
    outs = [((), [])]
    for it in s.items():
        if isinstance(it, Alt):
            outs = [(f + tuple(fs), tr + list(t)) for f, tr in outs for fs, t in it.paths]
            if len(outs) > 300 or any(isinstance(x, Alt) for _, tr in outs for x in tr):
                return None
        else:
            for _, tr in outs:
                tr.append(it)
    return [Path(s, tuple(s.facts) + f, tr) for f, tr in outs]


def analysed(ctx, name, own=(), limit=60):
    f = ctx.func(MOD, G + name)
    eng, sts = ctx.run(f, limit=limit, opaque_funcs=steps_but(name, *own))
    if not sts:
        ctx.unk('budget', name, f.where())
        return None, None, None
    ps = [mk('sym', a.arg) for a in f.node.args.args]
    out = []
    for s in sts:
        p = paths(s)
        if p is None:
            ctx.unk('paths', name, f.where())
            return None, None, None
        out += [(s, x) for x in p]
    return f, ps, out


def none(t):
    return mk('isnone', t)


def normal(f):
    """`if node` asks whether there is a node"""
    if f.op == 'not':
        return neg_lit(normal(f.args[0]))
    if f.op == 'truth' and (f.args[0].op == 'sym' or step(f.args[0]) in ('_get_node_with_inst', '_get_conditional', 'branch_to')):
        return neg_lit(none(f.args[0]))
    return f


def plain(f, known):
    """the literal is about things the rule knows"""
    while f.op == 'not':
        f = f.args[0]
    if f.op in ('and_', 'or_', 'and', 'or'):
        return all(plain(x, known) for x in f.args if isinstance(x, T))
    if f in known:
        return True
    if f.op == 'truth' and f.args[0].op == 'call' and f.args[0].args[0].op == 'attr' and f.args[0].args[0].args[1] in ('has_edge',):
        return True
    if f.op == 'truth':
        return any(k.op == 'truth' and k.args[0] is f.args[0] for k in known)
    if f.op == 'in':
        return any(k.op == 'in' and k.args[:2] == f.args[:2] for k in known)
    if f.op in ('eq0', 'ge0', 'gt0', 'isnone', 'eq'):
        return any(has(f, k) for k in known if k.op in ('attr', 'sym', 'find', 'len') or step(k))
    return False


class Case(object):
    """facts of a path, normalised; questions about it"""
    def __init__(self, p, known):
        self.facts = tuple(normal(f) for f in p.facts)
        self.strange = [f for f in self.facts if not plain(f, known)]
        # what links is a branch
        self.facts += tuple(truth(mk('attr', f.args[0].args[0], 'is_branch')) for f in self.facts
                            if f.op == 'truth' and f.args[0].op == 'attr' and f.args[0].args[1] == 'is_branch_with_link')

    def may(self, *lits):
        """the path can be taken when the literals hold"""
        fs = self.facts + tuple(lits)
        for f in fs:
            n = neg_lit(f)
            for g in fs:
                if g is n or (f.op in ('truth', 'in') and g.op == 'not' and g.args[0].op == f.op and g.args[0].args[:len(f.args) - 1] == f.args[:-1]):
                    return False
        return not inconsistent(fs)

    def never(self, *lits):
        return not self.may(*lits)


def truth(t):
    return mk('truth', t, V0)


def shown(e):
    return '(%s)' % ', '.join(show(x)[:60] for x in e)


# ------------------------------------------------------------------ the parts
def block(ctx):
    """CFGBlock keeps its kind and its instructions; what it says about its last instruction"""
    c = ctx.cls(MOD, 'CFGBlock')
    for name, attr in (('last_is_branch', 'is_branch'), ('last_is_branch_with_link', 'is_branch_with_link')):
        f = c.find(name)
        if f is None:
            ctx.unk('last', name)
            continue
        eng, sts = ctx.run(f, limit=20, selfcls=c)
        if not sts:
            ctx.unk('last', name, f.where())
            continue
        inst = mk('attr', SELF, 'instructions')
        for s in sts:
            v = s.exit[1]
            empty = prove(s.facts, cmp_eq(mk('len', inst, V0), const(0))) or any(
                x.op == 'not' and x.args[0].op == 'truth' and x.args[0].args[0] is inst for x in s.facts)
            if s.exit[0] != 'return':
                ctx.unk('last', name, f.where())
                continue
            if empty:
                ctx.decide(True if v is FALSE else None if v.op not in ('const', 'true') else False, 'last', name, f.where(),
                           'without instructions: %s' % show(v))
                continue
            x = v
            while x.op in ('truth', 'at'):
                x = x.args[0]
            ok = None
            if x.op == 'attr' and x.args[1] != attr and x.args[1].startswith('is_'):
                ok = False
            elif x.op == 'attr' and x.args[1] == attr:
                y = x.args[0]
                if y.op == 'at':
                    y = y.args[0]
                if y.op in ('index', 'elem', 'last', 'first'):
                    last = y.op == 'last' or num_val(y.args[1]) == -1 or (
                        prove(s.facts, cmp_eq(add(y.args[1], const(1)), mk('len', inst, V0))))
                    ok = True if last else False if num_val(y.args[1]) == 0 else None
            elif v.op in ('const', 'false', 'true') or v in (TRUE, FALSE):
                ok = False
            ctx.decide(ok, 'last', name, f.where(), 'the last instruction decides: %s' % show(v)[:120])
    f = c.find('__init__')
    ps = [mk('sym', a.arg) for a in f.node.args.args]
    eng, sts = ctx.run(f, limit=20, selfcls=c)
    for s in sts or []:
        if s.exit[0] == 'raise':
            continue
        got = s.heap.get((SELF, '_kind'))
        ctx.decide(None if got is None else True if got is ps[2] else False if got.op in ('const', 'num') else None, 'kind', '__init__', f.where(),
                   'the block is of the kind asked for: %s' % (show(got) if got else None))
        ins = s.heap.get((SELF, 'instructions'))
        one = lists(s, ins) if ins is not None else None
        ctx.decide(True if ins is ps[1] or one == (ps[1],) or (ins is not None and ins.op == 'copy' and ins.args[0] is ps[1]) else
                   False if one == () or (ins is not None and ins.op == 'slice') else None, 'content', '__init__', f.where(),
                   'the block has the instructions given: %s' % (show(ins)[:80] if ins else None))


def adding(ctx):
    f, ps, out = analysed(ctx, '_add_node')
    for s, p in out or []:
        n = ps[1]
        v = s.exit[1]
        there = any(x.op == 'in' and x.args[0] is n for x in p.facts) or any(
            x.op == 'truth' and x.args[0].op == 'call' and has(x.args[0], n) for x in p.facts)
        ctx.decide(True if v is n else None if v is not None and v is not NONE else False, 'added', '_add_node:result', f.where(),
                   'returns the node: %s' % show(v))
        ok = True if n in p.added or there else (False if not p.odd and not p.loops and not p.calls else None)
        ctx.decide(ok, 'added', '_add_node', f.where(), 'the node is in the graph when %s' % conj(p.facts))


def holding(ctx):
    """_get_node_with_inst: the block that has the instruction"""
    f, ps, out = analysed(ctx, '_get_node_with_inst')
    inst = ps[1] if ps else None
    for s, p in out or []:
        L = [x for x in s.items() if isinstance(x, LoopItem)]
        if len(L) != 1:
            ctx.unk('holding', '_get_node_with_inst', f.where())
            continue
        L = L[0]
        el = L.loop.elem
        good = bad = None
        for b in L.loop.bodies:
            yes = [x for x in b.facts if x.op == 'in' and x.args[0] is inst and x.args[1].op == 'attr' and x.args[1].args[0] is el]
            no = [x for x in b.facts if x.op == 'not' and x.args[0].op == 'in' and x.args[0].args[0] is inst]
            if b.kind == 'return':
                v = b.state.exit[1] if b.state is not None and b.state.exit else None
                if yes and (v is el or v is None):
                    good = True
                elif no:
                    bad = 'a block without the instruction is returned'
            elif b.kind in ('next', 'fall', 'continue'):
                if yes and not no:
                    bad = 'a block with the instruction is passed over'
        if bad and not any(b.kind == 'return' for b in L.loop.bodies) and any(x[0].exit[1] is not NONE for x in out):
            bad = None
        ctx.decide(False if bad else True if good else None, 'holding', '_get_node_with_inst', f.where(), bad or 'the block whose instructions have it')
        break


def deciding(ctx):
    """_get_conditional: the conditional in front of the first instruction of a conditional block"""
    if G + '_get_conditional' not in ctx.prog.mods[[m for m in ctx.prog.mods if m.endswith('static_analysis.cfg')][0]].funcs and \
            ctx.cls(MOD, 'ARMControlFlowGraph').find('_get_conditional') is None:
        return ctx.unk('conditional', '_get_conditional')
    K, A = consts(ctx), always(ctx)
    f, ps, out = analysed(ctx, '_get_conditional')
    if not out:
        return
    node, inst = ps[1], ps[2]
    cond = mk('attr', inst, 'conditional_field')
    is_always = cmp_eq(cond, const(A))
    seen = False
    for s, p in out:
        loops = [x for x in p.items if isinstance(x, LoopItem)]
        facts = tuple(p.facts)
        v = s.exit[1]
        if not loops:
            if v is NONE or v is None:
                # no conditional: only for instructions that are always executed or are not the first one
                first = [x for x in facts if x.op == 'not' and x.args[0].op in ('eq', 'eq0') and has(x, inst) and not has(x, cond)] + \
                        [x for x in facts if x.op == 'not' and x.args[0].op == 'eq0' and has(x, node)]
                if prove(facts, is_always) or first:
                    ctx.ok('conditional', '_get_conditional:none', f.where(), conj(facts))
                else:
                    ctx.unk('conditional', '_get_conditional:none', f.where(), conj(facts))
            continue
        if prove(facts, is_always):
            ctx.bad('conditional', '_get_conditional:always', f.where(), 'a conditional is looked up for an instruction that is always executed')
            continue
        if not any(has(q, cond) for q in facts) and not any(has(q, cond) for x in loops for b in x.loop.bodies for q in b.facts):
            # nothing is asked about the condition here: then it must be where the conditional is looked up
            ctx.decide(None if asked_before(ctx) else False, 'conditional', '_get_conditional:always', f.where(), 'a conditional is looked up for an instruction that is always executed')
        for x in loops:
            seen = True
            src = base(x.loop.seq)
            if src.op == 'slice' and src.args[0].op == 'call' and all(y is NONE or num_val(y) is not None for y in src.args[1:]) and src.args[2] is not NONE:
                ctx.bad('conditional', '_get_conditional:sources', f.where(), 'only looked up in %s' % show(src)[:80])
                continue
            ok = src.op == 'call' and src.args[0].op == 'attr' and src.args[0].args[1] == 'incidents' and src.args[1] is node
            if not ok:
                ctx.decide(False if src.op == 'call' and src.args[0].op == 'attr' and src.args[0].args[1] == 'neighbors' else None,
                           'conditional', '_get_conditional:sources', f.where(), 'looked up in %s' % show(src)[:80])
                continue
            st = None
            for b in x.loop.bodies:
                kind = mk('attr', x.loop.elem, 'kind')
                isc = prove(b.facts, cmp_eq(kind, const(K['COND'])))
                isn = prove(b.facts, neg_lit(cmp_eq(kind, const(K['COND']))))
                if b.kind == 'return':
                    st = False if isn or st is False else True if isc else None
                elif isc:
                    st = False
            ctx.decide(st, 'conditional', '_get_conditional', f.where(), 'the predecessor that is a conditional')
    if not seen:
        ctx.unk('conditional', '_get_conditional', f.where())


def asked_before(ctx):
    """the condition of the instruction branched to is asked about (or any step that is not known made) where branches are followed"""
    f, ps, out = analysed(ctx, '_branch_instruction')
    for s, p in out or ():
        for t in list(p.facts) + everything(p):
            for x in walk(t):
                if x.op == 'attr' and x.args[1] == 'conditional_field' and x.args[0] is not ps[3]:
                    return True
    return not out


def several(ctx):
    """_add_multiple_edges: the edge from every source"""
    f, ps, out = analysed(ctx, '_add_multiple_edges')
    for s, p in out or []:
        dest, src = ps[1], ps[2]
        m = [x for x in p.many if x[1] is src]
        loops = [x for x in p.loops]
        bad = None
        for x in loops:
            for b in x.loop.bodies:
                q = Path(b.state, b.facts, list(b.trace))
                if b.kind in ('break', 'return'):
                    bad = 'the edges of the sources after one are left out'
                elif b.kind in ('next', 'fall', 'continue') and not q.has(x.loop.elem, dest) and not q.odd and not q.loops:
                    bad = 'no edge from a source when %s' % conj(b.facts)
        if bad:
            ctx.bad('several', '_add_multiple_edges', f.where(), bad)
        elif m:
            ctx.decide(m[0][0] is dest, 'several', '_add_multiple_edges', f.where(), 'edges from every source to %s' % show(m[0][0]))
        else:
            ctx.decide(None if loops or p.odd else False, 'several', '_add_multiple_edges', f.where(), 'no edge is added when %s' % conj(p.facts))


def pending(ctx):
    """_add_pending_jump: the block is kept for the instruction, with those already there"""
    f, ps, out = analysed(ctx, '_add_pending_jump')
    if not out:
        return
    inst, blk = ps[1], ps[2]
    P = mk('attr', SELF, '_pending_jumps')
    for s, p in out:
        isin = any(x.op == 'in' and x.args[0] is inst and x.args[1] is P and i == 0 for i, x in enumerate(p.facts))
        nin = any(x.op == 'not' and x.args[0].op == 'in' and x.args[0].args[0] is inst and x.args[0].args[1] is P for x in p.facts)
        sets = [e for e in p.set if e.kind == 'SetItem' and e.a[0] is P]
        st = None
        msg = ''
        if sets:
            e = sets[-1]
            v = e.a[2]
            c = s.heap.get((v, '#')) if v.op == 'obj' else v
            if e.a[1] is not inst:
                st, msg = (False if e.a[1] is blk else None), 'kept under %s' % show(e.a[1])
            elif c is not None and c.op == 'seq' and tuple(c.args) == (blk,):
                st, msg = (True if nin else False), 'the jumps already there are %s' % ('none' if nin else 'dropped')
            elif c is not None and has(c, blk) and has(c, P):
                st = True
            elif c is not None and c.op == 'seq' and blk not in c.args:
                if any(x[2] is blk for x in p.appended):
                    st = True
                else:
                    st, msg = False, 'the block is not kept'
        for k, o, x in p.appended:
            if x is blk and (index_of(bare(base(o)), inst)):
                st = True
            elif x is blk and o.op in ('mcall', 'setdefault', 'get') and has(o, P) and has(o, inst):
                st = True
        if st is None and not sets and not p.appended and not p.odd and not p.calls and not p.loops:
            st, msg = False, 'the jump is not kept when %s' % conj(p.facts)
        ctx.decide(st, 'pending', '_add_pending_jump:%s' % ('there' if isin and not nin else 'first'), f.where(), msg or conj(p.facts))


def target(ctx):
    """branch_to: the instruction at the address jumped to"""
    f = ctx.func('architecture.instruction', 'Instruction.branch_to')
    eng, sts = ctx.run(f, limit=20, opaque_funcs=('jumping_address', 'address'))
    ps = [mk('sym', a.arg) for a in f.node.args.args]
    for s in sts or []:
        L = [x for x in s.items() if isinstance(x, LoopItem)]
        if len(L) != 1:
            ctx.unk('target', 'branch_to', f.where())
            continue
        x = L[0].loop
        if base(x.seq) is not ps[1] and not (x.seq.op == 'range'):
            ctx.decide(False if base(x.seq).op == 'slice' and base(x.seq).args[0] is ps[1] else None, 'target', 'branch_to', f.where(),
                       'searched in %s' % show(x.seq)[:80])
            continue
        st, msg = None, ''
        for b in x.bodies:
            adr = [t for fa in b.facts for t in walk(fa) if t.op == 'attr' and t.args[1] == 'address' and has(t, x.elem) or
                   t.op == 'attr' and t.args[1] == 'address' and t.args[0].op == 'elem']
            jump = [t for fa in b.facts for t in walk(fa) if step(t) == 'jumping_address' and SELF in t.args or
                    t.op == 'attr' and t.args[0] is SELF and 'jumping_address' in t.args[1]]
            if not adr or not jump:
                st = None if st is not False else st
                continue
            eq = cmp_eq(adr[0], jump[0])
            if b.kind == 'return':
                if prove(b.facts, eq):
                    st = True if st is not False else st
                elif prove(b.facts, neg_lit(eq)) or not inconsistent(tuple(b.facts) + (neg_lit(eq),)):
                    st, msg = False, 'an instruction of another address: %s' % conj(b.facts)
            elif b.kind in ('next', 'fall', 'continue') and prove(b.facts, eq):
                st, msg = False, 'the instruction of the address is passed over'
        ctx.decide(st, 'target', 'branch_to', f.where(), msg or 'the instruction whose address is the address jumped to')
        break


def splitting(ctx):
    """_split_node: the jump goes to the instruction, the instructions before it keep the predecessors"""
    f, ps, out = analysed(ctx, '_split_node')
    if not out:
        return
    split, branch, inst = ps[1], ps[2], ps[3]
    ins = mk('attr', split, 'instructions')
    pos = [t for s, p in out for fa in p.facts for t in walk(fa) if t.op in ('mcall', 'find', 'call') and has(t, ins) and has(t, inst) and 'index' in [x for x in t.args if isinstance(x, str)]]
    if not pos:
        pos = [t for s, p in out for e in p.items if isinstance(e, Ev) for a in e.a if isinstance(a, T) for t in walk(a)
               if t.op in ('mcall', 'find', 'call') and has(t, ins) and has(t, inst) and 'index' in [x for x in t.args if isinstance(x, str)]]
    if not pos:
        return ctx.unk('split', '_split_node', f.where(), 'no position of the instruction')
    I = pos[0]
    first = cmp_eq(I, const(0))
    later = cmp_gt(I)
    base_facts = (cmp_ge(I),)
    for s, p in out:
        fs = tuple(p.facts) + base_facts
        if inconsistent(fs):
            continue
        name = '_split_node'
        ctx.decide(True if p.has(branch, split) else None if p.odd or p.calls else False, 'split', name + ':jump', f.where(),
                   'the edge of the jump when %s' % conj(p.facts))
        if prove(fs, first):
            more = [x for x in p.edges if x[0] == 'add' and (x[1], x[2]) != (branch, split)]
            ctx.decide(not p.gone and not more and not p.nodes, 'split', name + ':first', f.where(), 'a block is not split before its first instruction')
            continue
        if not p.nodes and not prove(fs, later):
            # the two cases are not told apart
            ctx.decide(False if not p.loops and not p.odd and not p.calls else None, 'split', name + ':later', f.where(),
                       'the block is not split when %s' % conj(p.facts))
            continue
        if not p.nodes:
            ctx.decide(None if p.odd or p.calls else False, 'split', name + ':later', f.where(), 'the block is not split when %s' % conj(p.facts))
            continue
        up = list(p.nodes)[0]
        content = p.nodes[up][0]
        low = s.heap.get((split, 'instructions'))
        halves(ctx, f, s, ins, I, content, low)
        ctx.decide(True if p.has(up, split) else None if p.odd else False, 'split', name + ':flow', f.where(), 'the first half flows into the second')
        ctx.decide(True if up in p.added else None if p.odd or p.calls else False, 'split', name + ':added', f.where(), 'the first half is in the graph')
        moved(ctx, f, s, p, split, up)


def halves(ctx, f, s, ins, I, up, low):
    def cut(t):
        while t is not None and t.op == 'copy':
            t = t.args[0]
        if t is None or t.op != 'slice' or t.args[0] is not ins:
            return None
        a, b = t.args[1], t.args[2]
        return (const(0) if a is NONE or a is None else a, None if b is NONE or b is None else b)
    u, l = cut(up), cut(low)
    if u is None:
        ctx.unk('split', '_split_node:up', f.where(), show(up)[:80])
    else:
        ctx.decide(num_val(u[0]) == 0 and u[1] is I if (u[1] is None or has(u[1], I)) else None, 'split', '_split_node:up', f.where(),
                   'the first half ends before the instruction: %s' % show(up)[:100])
    if l is None:
        ctx.decide(False if low is None or low is ins else None, 'split', '_split_node:low', f.where(),
                   'the second half starts at the instruction: %s' % (show(low)[:80] if low is not None else 'not changed'))
    else:
        ctx.decide(l[0] is I and l[1] is None if has(l[0], I) or num_val(l[0]) is not None else None, 'split', '_split_node:low', f.where(),
                   'the second half starts at the instruction: %s' % show(low)[:100])


def moved(ctx, f, s, p, split, up):
    n = '_split_node:predecessors'
    working = [x for x in p.loops if effect(x.loop)]
    if not working:
        stay = any(d is up and any(t.op == 'call' and split in t.args for t in walk(x)) for d, x in whole_lists(s, p))
        return ctx.decide(False if stay or not (p.odd or p.calls or p.many) else None, 'split', n, f.where(), 'the predecessors stay at the second half')
    for x in working:
        L = x.loop
        src = base(L.seq)
        live = src.op == 'call' and not L.copied
        if L.seq.op == 'obj':
            c = s.heap.get((L.seq, '#'))
            if c is None:
                return ctx.unk('split', n, f.where())
            if c.op == 'copy':
                src, live = base(c), False
            elif c.op == 'mapseq' or c.op == 'cat':
                r = [t for t in walk(c) if t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] in ('incidents', 'neighbors')]
                if not r:
                    return ctx.unk('split', n, f.where())
                src, live = r[0], False
            else:
                return ctx.unk('split', n, f.where())
        elif L.seq.op == 'copy':
            live = False
        if not (src.op == 'call' and src.args[0].op == 'attr' and src.args[0].args[1] in ('incidents', 'neighbors') and src.args[1] is split):
            return ctx.unk('split', n, f.where(), show(src)[:80])
        if src.args[0].args[1] == 'neighbors':
            return ctx.bad('split', n, f.where(), 'the edges to the successors are moved, not those of the predecessors')
        for b in L.bodies:
            q = Path(b.state, b.facts, list(b.trace))
            gone, new = (L.elem, split) in q.gone, q.has(L.elem, up)
            if q.odd or q.calls or q.loops:
                ctx.unk('split', n, f.where())
            elif b.kind not in ('next', 'fall', 'continue'):
                ctx.bad('split', n, f.where(), 'some predecessors are not moved')
            else:
                ctx.decide(gone and new, 'split', n, f.where(), 'the edge from a predecessor %s; the edge to the first half %s'
                           % ('is taken away' if gone else 'stays', 'is added' if new else 'is missing'))
                if gone and live:
                    ctx.bad('split', n + ':live', f.where(), 'the list of predecessors is walked while its elements are taken away: every other one is left')


def effect(L):
    """the loop changes the graph"""
    for b in L.bodies:
        if b.kind not in ('next', 'fall', 'continue'):
            return True
        for e in b.trace:
            if isinstance(e, Ev) and (any(called(e, m) is not None for m in ('add_edge', 'del_edge', 'del_node', 'add_node')) or
                                      e.kind in ('SetAttr', 'SetItem', 'Call')) or isinstance(e, LoopItem) and effect(e.loop) or isinstance(e, Alt):
                return True
    return False


def whole_lists(s, p):
    for d, x in p.many:
        c = s.heap.get((x, '#')) if x.op == 'obj' else None
        yield d, (c if c is not None else x)


def required(ctx, f, rule, case, p, cond, a, b, what, may=()):
    """the edge (a, b) is there whenever cond (a list of literals) holds, and only when cond or one of may holds"""
    there = p.has(a, b)
    if there:
        added = any(x[0] == 'add' and x[1] is a and x[2] is b for x in p.edges)
        if not added:
            return True
        bad = False
        for pick in product(*[c for c in (tuple(cond),) + tuple(may)]):
            if case.may(*[neg_lit(x) for x in pick]):
                bad = True
        if not bad:
            return True
        ctx.bad(rule, what, f.where(), 'the edge %s is added when %s' % (shown((a, b)), conj(p.facts)))
        return False
    if case.may(*cond):
        ctx.bad(rule, what, f.where(), 'the edge %s is missing when %s' % (shown((a, b)), conj(p.facts)))
        return False
    return True


def conditional(ctx):
    """_branch_conditional: a block for the instruction, behind a conditional unless it is always executed"""
    f, ps, out = analysed(ctx, '_branch_conditional')
    if not out:
        return
    K, A = consts(ctx), always(ctx)
    inst, cb, last = ps[1], ps[2], ps[3]
    P = mk('attr', SELF, '_pending_jumps')
    cond = mk('attr', inst, 'conditional_field')
    br, link = mk('attr', cb, 'last_is_branch'), mk('attr', cb, 'last_is_branch_with_link')
    known = (cond, last, truth(br), truth(link), mk('in', inst, P, V0), truth(mk('attr', inst, 'is_branch')), truth(mk('attr', inst, 'is_branch_with_link')))
    al = cmp_eq(cond, const(A))
    R = 'conditional'
    for s, p in out:
        case = Case(p, known)
        if not case.may():
            continue
        if case.strange or p.loops or p.calls or p.odd or s.exit[0] != 'return':
            ctx.unk(R, '_branch_conditional', f.where(), conj(case.strange)[:200])
            continue
        rets = s.exit[1]
        if rets.op != 'tuple' or len(rets.args) != 2:
            ctx.unk(R, '_branch_conditional:result', f.where(), show(rets)[:80])
            continue
        B = [o for o, a in p.nodes.items() if a and (a[0] is inst or lists(s, a[0]) == (inst,)) and (len(a) < 2 or num_val(a[1]) == K['BLOCK'])]
        C = [o for o, a in p.nodes.items() if len(a) > 1 and num_val(a[1]) == K['COND']]
        if len(B) != 1 or len(C) > 1 or len(p.nodes) != len(B) + len(C):
            ctx.decide(False if not B and not p.appended else None, 'placed', '_branch_conditional', f.where(),
                       'one block with the instruction is made, when %s' % conj(p.facts))
            continue
        B = B[0]
        good = True
        for o in [B] + C:
            if o not in p.added:
                ctx.bad('placed', '_branch_conditional:added', f.where(), 'a node is not added to the graph when %s' % conj(p.facts))
                good = False
        entry = C[0] if C else B
        if case.may(neg_lit(al)) and not C:
            ctx.bad(R, '_branch_conditional:node', f.where(), 'no conditional before an instruction that is not always executed, when %s' % conj(p.facts))
            continue
        if case.may(al) and C:
            ctx.bad(R, '_branch_conditional:node', f.where(), 'a conditional before an instruction that is always executed, when %s' % conj(p.facts))
            continue
        T_, N_ = (), (FALSE,)
        if C:
            good &= required(ctx, f, R, case, p, T_, entry, B, '_branch_conditional:taken')
        # the block before flows in unless it ends with a branch that does not return
        good &= required(ctx, f, 'falls-through', case, p, (neg_lit(truth(br)),), cb, entry, '_branch_conditional:previous',
                         may=((truth(br), truth(link)),))
        if not p.has(cb, entry) and case.may(truth(br), truth(link)):
            good = False
            ctx.bad('returns', '_branch_conditional:link', f.where(), 'a call does not return to the next instruction when %s' % conj(p.facts))
        good &= required(ctx, f, 'skipped', case, p, (neg_lit(none(last)),), last, entry, '_branch_conditional:last conditional')
        jumps = any(d is entry and index_of(bare(base(x)), inst) for d, x in p.many)
        wrong = any(d is not entry and index_of(bare(base(x)), inst) for d, x in p.many)
        if wrong:
            ctx.bad('arrives', '_branch_conditional:pending', f.where(), 'the jumps to the instruction go around its condition')
            good = False
        elif not jumps and case.may(mk('in', inst, P, V0)):
            ctx.bad('arrives', '_branch_conditional:pending', f.where(), 'the jumps made before to the instruction have no edge when %s' % conj(p.facts))
            good = False
        for k, a, b in p.edges:
            if k == 'add' and (a, b) not in ((entry, B), (cb, entry), (last, entry)):
                ctx.unk('edges', '_branch_conditional', f.where(), shown((a, b)))
        r0, r1 = bare(rets.args[0]), bare(rets.args[1])
        ok = r0 is B and (r1 is C[0] if C else r1 is NONE)
        if not ok:
            ctx.decide(False if r0 in p.nodes or r0 in ps else None, R, '_branch_conditional:result', f.where(),
                       'returns the block and the conditional: %s' % show(rets)[:100])
        elif good:
            ctx.ok(R, '_branch_conditional', f.where(), conj(p.facts))


def branching(ctx):
    """_branch_instruction: edges to where the branch goes; from where the next instruction is reached"""
    f, ps, out = analysed(ctx, '_branch_instruction')
    if not out:
        return
    K, A = consts(ctx), always(ctx)
    cb, branch, inst, end = ps[1], ps[2], ps[3], ps[4]
    P = mk('attr', SELF, '_pending_jumps')
    cond = mk('attr', inst, 'conditional_field')
    link = mk('attr', inst, 'is_branch_with_link')
    al = cmp_eq(cond, const(A))
    for s, p in out:
        tos = [t for t in everything(p) if step(t) == 'branch_to']
        nodes = [t for t in everything(p) if step(t) == '_get_node_with_inst']
        conds = [t for t in everything(p) if step(t) == '_get_conditional']
        if not tos or len(set(tos)) > 1 or len(set(nodes)) > 1 or len(set(conds)) > 1:
            ctx.unk('jumps', '_branch_instruction', f.where())
            continue
        to = tos[0]
        if to.args[-1] is not mk('attr', SELF, '_instructions') or inst not in to.args:
            ctx.unk('jumps', '_branch_instruction', f.where(), show(to)[:80])
            continue
        N = nodes[0] if nodes else None
        C = conds[0] if conds else None
        if (N is not None and to not in N.args) or (C is not None and (N not in C.args or to not in C.args)):
            ctx.unk('jumps', '_branch_instruction', f.where())
            continue
        known = (cond, cb, branch, to, truth(link), mk('in', inst, P, V0)) + tuple(x for x in (N, C) if x is not None)
        case = Case(p, known)
        if not case.may():
            continue
        if case.strange or p.loops or p.odd or s.exit[0] != 'return':
            ctx.unk('jumps', '_branch_instruction', f.where(), conj(case.strange)[:200])
            continue
        # the two ways it is used: with the block before the branch, or with the block of the branch
        for way, sc in (('new', (neg_lit(none(cb)), none(branch))), ('made', (none(cb), neg_lit(none(branch))))):
            if not case.may(*sc):
                continue
            c = Case(p, known)
            c.facts = c.facts + sc
            one(ctx, f, s, p, c, way, (cb, branch, inst, end, to, N, C, P, link, al), K)


def everything(p):
    out = []
    for t in list(p.facts) + [x for e in p.items if isinstance(e, Ev) for a in e.a for x in (a if isinstance(a, tuple) else (a,))]:
        if isinstance(t, T):
            for x in walk(t):
                if x not in out and x.op in ('call', 'mcall'):
                    out.append(x)
    return out


def one(ctx, f, s, p, case, way, names, K):
    cb, branch, inst, end, to, N, C, P, link, al = names
    n = '_branch_instruction'
    made = [o for o, a in p.nodes.items() if a and (a[0] is inst or lists(s, a[0]) == (inst,)) and (len(a) < 2 or num_val(a[1]) == K['BLOCK'])]
    unknown = [o for o, a in p.nodes.items() if len(a) > 1 and num_val(a[1]) == K['UNKNOWN_BRANCH']]
    if len(made) > 1 or len(unknown) > 1 or len(p.nodes) != len(made) + len(unknown):
        return ctx.unk('jumps', n, f.where(), 'nodes made when %s' % conj(p.facts))
    if way == 'new' and not made:
        return ctx.bad('placed', n, f.where(), 'no block is made for the branch when %s' % conj(p.facts))
    if way == 'made' and made:
        return ctx.bad('placed', n, f.where(), 'a second block is made for the branch when %s' % conj(p.facts))
    B = made[0] if made else branch
    good = True
    for o in made + unknown:
        if o not in p.added:
            good = False
            ctx.bad('placed', n + ':added', f.where(), 'a node is not added to the graph when %s' % conj(p.facts))
    if way == 'new':
        good &= required(ctx, f, 'falls-through', case, p, (), cb, B, n + ':previous')
        jumps = any(d is B and index_of(bare(base(x)), inst) for d, x in p.many)
        if not jumps and case.may(mk('in', inst, P, V0)):
            good = False
            ctx.bad('arrives', n + ':pending', f.where(), 'the jumps made before to the branch have no edge when %s' % conj(p.facts))
    pend = [a for nm, a, e in p.calls if nm == '_add_pending_jump']
    split = [a for nm, a, e in p.calls if nm == '_split_node']
    other = [nm for nm, a, e in p.calls if nm not in ('_add_pending_jump', '_split_node', '_get_node_with_inst', '_get_conditional', 'branch_to')]
    if other:
        return ctx.unk('jumps', n, f.where(), str(other))
    # 1 where the branch goes
    kinds = [('unknown', (none(to),))]
    if N is not None:
        kinds.append(('ahead', (neg_lit(none(to)), none(N))))
        if C is not None:
            kinds.append(('condition', (neg_lit(none(to)), neg_lit(none(N)), neg_lit(none(C)))))
            kinds.append(('built', (neg_lit(none(to)), neg_lit(none(N)), none(C))))
        else:
            kinds.append(('built', (neg_lit(none(to)), neg_lit(none(N)))))
    else:
        kinds.append(('known', (neg_lit(none(to)),)))
    for kind, sc in kinds:
        if not case.may(*sc):
            continue
        why = None
        if kind == 'unknown':
            if not unknown or not p.has(B, unknown[0]):
                why = 'the branch to an unknown place has no edge to a node standing for it'
            elif not p.has(unknown[0], end):
                why = 'the unknown place does not lead to the end'
        elif kind == 'ahead':
            if not any(a[1] is to and a[2] is B for a in pend):
                why = 'the jump to an instruction that has no block yet is forgotten'
                if pend and not any(a[1] is to for a in pend):
                    why = 'the jump is kept for another instruction: %s' % show(pend[0][1])[:80]
        elif kind == 'condition':
            if not p.has(B, C):
                why = 'no edge to the conditional in front of the instruction'
        elif kind == 'built':
            if not any(a[1] is N and a[2] is B and a[3] is to for a in split):
                # an instruction that is always executed, or the first one: an edge would do
                why = 'the block of the instruction jumped to is not split for the branch'
            elif C is None and not any(x.op == 'attr' and x.args[0] is to and x.args[1] == 'conditional_field' for fa in p.facts for x in walk(fa)):
                why = 'the jump goes around the condition of the instruction'
        else:
            return ctx.unk('jumps', n, f.where(), conj(p.facts)[:200])
        if kind != 'unknown' and unknown:
            why = 'a branch to an instruction of the program goes to an unknown place'
        if why:
            good = False
            ctx.bad('jumps', n + ':' + kind, f.where(), '%s when %s' % (why, conj(p.facts)))
    # 2 from where the next instruction is reached
    v = bare(s.exit[1]) if s.exit[1] is not None else NONE
    if v is branch and way == 'new':
        v = NONE
    U = unknown[0] if unknown else None
    if v not in (cb, branch, NONE, B, U):
        return ctx.unk('returns', n + ':next', f.where(), show(v)[:80])
    lk = truth(link)
    here = v is B or (way == 'made' and v in (NONE, cb))
    if case.may(lk):
        if not here and v is not U:
            good = False
            ctx.bad('returns', n + ':call', f.where(), 'the next instruction is not reached from the call when %s' % conj(p.facts))
    if case.may(neg_lit(lk), al):
        if not here:
            good = False
            ctx.bad('falls-through', n + ':always', f.where(), 'the instruction after an unconditional branch is reached from %s when %s'
                    % ('the unknown place' if v is U else 'the block before the branch', conj(p.facts)))
    if case.may(neg_lit(lk), neg_lit(al)):
        if v is U and U is not None:
            good = False
            ctx.bad('falls-through', n + ':conditional', f.where(), 'the instruction after a branch is reached from the unknown place when %s' % conj(p.facts))
        elif way == 'new' and v is not cb:
            good = False
            ctx.bad('falls-through', n + ':conditional', f.where(),
                    'the instruction after a conditional branch that is not taken is not reached when %s' % conj(p.facts))
    if good:
        ctx.ok('jumps', n + ':' + way, f.where(), conj(p.facts)[:300])


def building(ctx):
    """build: each instruction is put in one block"""
    f = ctx.func(MOD, G + 'build')
    eng, sts = ctx.run(f, limit=100, opaque_funcs=steps_but('build'))
    if not sts:
        return ctx.unk('budget', 'build', f.where())
    K = consts(ctx)
    INS = mk('attr', SELF, '_instructions')
    P = mk('attr', SELF, '_pending_jumps')
    n, done = 'build', False
    for s in sts:
        top = paths(s)
        if top is None:
            return ctx.unk('paths', n, f.where())
        for p in top:
            L = [x for x in p.items if isinstance(x, LoopItem)]
            if not L:
                empty = prove(tuple(p.facts), cmp_eq(mk('len', INS, V0), const(0))) or any(
                    x.op == 'not' and x.args[0].op == 'truth' and x.args[0].args[0] is INS for x in p.facts)
                if not empty:
                    ctx.unk('placed', n + ':none', f.where(), conj(p.facts))
                continue
            if len(L) != 1:
                ctx.unk('placed', n, f.where())
                continue
            frame(ctx, f, s, p, L[0].loop, INS, K)
            if not done:
                done = True
                iteration(ctx, eng, f, s, p, L[0].loop, INS, P, K)
    if not done:
        ctx.unk('placed', n, f.where())


def frame(ctx, f, s, p, L, INS, K):
    """the root, the end, the instructions walked"""
    ends = [o for o, a in p.nodes.items() if len(a) > 1 and num_val(a[1]) == K['END']]
    n = 'build'
    if len(ends) != 1 or ends[0] not in p.added:
        return ctx.decide(False if not ends and not p.odd else None, 'frame', n + ':end', f.where(), 'one END node')
    root = [x for x in p.added if x.op == 'attr' and x.args[1] in ('_root_node', 'root_node')]
    if not root:
        ctx.decide(None if p.odd else False, 'frame', n + ':root', f.where(), 'the ROOT node is in the graph')
    cbs = [k for k, v in L.inits.items() if root and bare(v) is root[0]]
    if len(cbs) != 1:
        return ctx.unk('frame', n + ':current', f.where())
    last = mk('out', L.lid, cbs[0][1]) if cbs[0][0] == 'env' else None
    out = [x for x in p.edges if x[2] is ends[0] and x[1].op == 'out']
    ctx.decide(True if out else None if p.odd else False, 'frame', n + ':last', f.where(), 'the last block leads to the end when %s' % conj(p.facts)[:120])
    # every instruction asked for, in order
    q = L.seq
    ok = None
    if base(q) is INS:
        ok = True
    elif q.op == 'range':
        a, b, st = q.args[0], q.args[1], q.args[2]
        cnt = mk('sym', f.node.args.args[1].arg)
        ln = mk('len', INS, V0)
        if num_val(a) == 0 and num_val(st) == 1 and b in (cnt, ln):
            ok = True
            if b is cnt and not inconsistent(tuple(p.facts) + (cmp_eq(cnt, const(-1)),)):
                ok = False
        elif num_val(a) is not None and num_val(st) is not None:
            ok = False if num_val(a) > 0 or num_val(st) != 1 or (b.op != 'sym' and (prove(p.facts, cmp_gt(sub(ln, b))) or prove(p.facts, cmp_gt(sub(b, ln))))) else None
    elif base(q).op == 'slice' and base(q).args[0] is INS:
        a = base(q).args[1]
        ok = None if a is NONE or num_val(a) == 0 else False
    ctx.decide(ok, 'frame', n + ':instructions', f.where(), 'walked: %s' % show(q)[:80])


def iteration(ctx, eng, f, s, p0, L, INS, P, K):
    n = 'build'
    end = [o for o, a in p0.nodes.items() if len(a) > 1 and num_val(a[1]) == K['END']]
    end = end[0] if end else None
    inst = None
    for b in L.bodies:
        for fa in b.facts:
            for t in walk(fa):
                if t.op == 'attr' and t.args[1] in ('is_undefined', 'conditional_field', 'is_branch') and t.args[0].op == 'elem':
                    inst = t.args[0]
    if inst is None:
        inst = L.elem if L.elem.op == 'elem' else None
    if inst is None or base(inst.args[0]) is not INS:
        return ctx.unk('placed', n, f.where(), 'the instruction looked at')
    keys = [k[1] for k in L.inits if k[0] == 'env']
    root = [k for k, v in L.inits.items() if k[0] == 'env' and bare(v).op == 'attr' and bare(v).args[1] in ('_root_node', 'root_node')]
    if len(root) != 1:
        return ctx.unk('placed', n, f.where(), 'the current block')
    cb = mk('hav', L.lid, root[0][1])
    undef = mk('attr', inst, 'is_undefined')
    isbr = mk('attr', inst, 'is_branch')
    cond = mk('attr', inst, 'conditional_field')
    # the last condition seen is the one compared to the condition of the instruction
    lasts = [k for k in keys if any(has(fa, mk('hav', L.lid, k)) and has(fa, cond) for b in L.bodies for fa in b.facts)]
    if len(lasts) != 1:
        return ctx.unk('placed', n, f.where(), 'the last condition')
    lk = lasts[0]
    lc = mk('hav', L.lid, lk)
    same = cmp_eq(cond, lc)
    ctx.decide(True if L.inits.get(('env', lk)) is NONE else None, 'placed', n + ':first', f.where(),
               'the first instruction has no condition before it')
    calls = [e for b in L.bodies for e in b.trace if isinstance(e, Ev) and e.kind == 'Call' and e.a[0].endswith('_branch_conditional')]
    lcn = [k for k in keys if any(mk('hav', L.lid, k) in e.a[1] for e in calls) and k not in (root[0][1], lk)]
    known = (cond, lc, truth(undef), truth(isbr), mk('in', inst, P, V0), L.iota, cb, truth(mk('attr', inst, 'is_branch_with_link')))
    for b in L.bodies:
        p = Path(b.state, b.facts, [x for x in b.trace])
        if any(isinstance(x, Alt) for x in b.trace):
            ctx.unk('placed', n, f.where(), 'merged paths')
            continue
        case = Case(p, known)
        case.facts = tuple(x for x in case.facts if not (x.op == 'ge0' and has(x, L.iota)))
        strange = [x for x in case.strange if not any(step(t) in ('_branch_instruction', '_branch_conditional') for t in walk(x))]
        if not case.may():
            continue
        if b.kind not in ('next', 'fall', 'continue'):
            ctx.decide(None if b.kind == 'raise' else False, 'placed', n + ':all', f.where(), 'the walk stops when %s' % conj(b.facts)[:150])
            continue
        if strange or p.loops or p.odd:
            ctx.unk('placed', n, f.where(), conj(strange)[:200])
            continue
        nxt = lambda k: b.state.env.get(k)
        app = [x for k, o, x in p.appended if x is inst]
        into = [o for k, o, x in p.appended if x is inst]
        newb = [o for o, a in p.nodes.items() if a and (a[0] is inst or lists(b.state, a[0]) == (inst,))]
        bc = [a for nm, a, e in p.calls if nm == '_branch_conditional']
        bi = [a for nm, a, e in p.calls if nm == '_branch_instruction']
        # a branch instruction is given a block by _branch_instruction when it is not given one
        own = [a for a in bi if a[2] is NONE]
        count = len(app) + len(newb) + len(bc) + len(own)
        if case.never(neg_lit(truth(undef))):
            same_state = all(nxt(k) is mk('hav', L.lid, k) for k in (root[0][1], lk) + tuple(lcn))
            ctx.decide(count == 0 and same_state, 'placed', n + ':undefined', f.where(), 'an undefined instruction is left out')
            continue
        if case.may(truth(undef)) and count:
            ctx.bad('placed', n + ':undefined', f.where(), 'an undefined instruction is put in a block when %s' % conj(b.facts)[:150])
            continue
        if count != 1:
            ctx.bad('placed', n, f.where(), 'the instruction is put in %s blocks when %s' % (count or 'no', conj(b.facts)[:150]))
            continue
        good = True
        def fail(rule, what, msg):
            ctx.bad(rule, n + ':' + what, f.where(), '%s when %s' % (msg, conj(b.facts)[:200]))
            return False
        if not bc and case.may(neg_lit(same)):
            good = fail('conditional', 'changed', 'an instruction with another condition gets no conditional')
        if bc and case.may(same, neg_lit(truth(isbr))) :
            good = fail('conditional', 'same', 'a new conditional for an instruction with the condition of the one before')
        if bc and not lcn and len(bc[0]) > 3 and bc[0][3].op in ('const', 'none'):
            good = fail('skipped', 'arguments', 'the last conditional is left out')
        if bc and lcn and bc[0] != [SELF, inst, cb, mk('hav', L.lid, lcn[0])]:
            good = fail('conditional', 'arguments', 'the block is made for %s' % ', '.join(show(x)[:40] for x in bc[0][1:]))
        if app:
            own_list = [o for o in into if bare(base(o)).op == 'attr' and bare(base(o)).args[0] is cb and bare(base(o)).args[1] == 'instructions']
            if not own_list:
                ctx.unk('placed', n + ':block', f.where(), show(into[0])[:80])
                good = False
            if case.may(truth(isbr)):
                good = fail('branch-ends-block', 'same', 'a branch is put in the block of the instructions before it')
            if case.may(mk('in', inst, P, V0)):
                good = fail('arrives', 'pending', 'an instruction that is jumped to is put in the block of the instructions before it')
            if nxt(root[0][1]) is not cb:
                good = fail('placed', 'current', 'the current block changes')
        if newb:
            o = newb[0]
            if o not in p.added:
                good = fail('placed', 'added', 'the block is not added to the graph')
            if not p.has(cb, o):
                good = fail('falls-through', 'pending', 'no edge from the block before')
            if case.may(mk('in', inst, P, V0)) and not any(d is o and index_of(bare(base(x)), inst) for d, x in p.many):
                good = fail('arrives', 'pending', 'the jumps made before to the instruction have no edge')
            if bare(nxt(root[0][1])) is not o:
                good = fail('placed', 'current', 'the new block is not the current one')
            if case.may(truth(isbr)):
                good = fail('branch-ends-block', 'pending', 'a branch is put in a block as any other instruction')
        if case.may(truth(isbr)) and not bi:
            good = fail('jumps', 'branch', 'a branch gets no edges to where it goes')
        if bi and case.may(neg_lit(truth(isbr))):
            good = fail('jumps', 'branch', 'an instruction that is not a branch gets edges of a branch')
        if len(bi) > 1:
            good = fail('jumps', 'branch', 'the edges of a branch are added twice')
        if bi:
            a = bi[0]
            if a[3] is not inst or a[4] is not end:
                good = fail('jumps', 'arguments', 'the branch is %s' % ', '.join(show(x)[:40] for x in a[1:]))
            if own and a[1] is not cb:
                good = fail('falls-through', 'branch', 'the branch does not come after the current block')
            v = nxt(lk)
            if v is not NONE and not (v is not None and is_num(v) and num_val(v) is not None and not 0 <= num_val(v) <= 15):
                st = False if v is cond or v is lc else None
                ctx.decide(st, 'branch-ends-block', n + ':next', f.where(), 'the instruction after a branch with the same condition starts a block: %s' % show(v)[:60])
                good = False
            res = [t for t in everything(p) if step(t) == '_branch_instruction']
            cur = nxt(root[0][1])
            c2 = bare(cur)
            isres = step(c2) == '_branch_instruction'
            isblock = bc and c2.op == 'index' and step(c2.args[0]) == '_branch_conditional' and num_val(c2.args[1]) == 0
            if not isres and not isblock:
                if c2.op in ('or_', 'ite', 'alt', 'phi') or c2 is not cb:
                    ctx.unk('placed', n + ':current', f.where(), show(c2)[:100])
                    good = False
                else:
                    good = fail('falls-through', 'current', 'the block before the branch stays the current one')
            if isblock:
                nores = any(fa.op == 'not' and fa.args[0].op == 'truth' and fa.args[0].args[0] in res or fa.op == 'isnone' and fa.args[0] in res
                            for fa in p.facts)
                if not nores:
                    good = fail('returns', 'current', 'where the branch continues is left out')
        else:
            v = nxt(lk)
            if v is not cond and not (v is lc and not case.may(neg_lit(same))):
                ctx.decide(False if v is NONE or v is lc else None, 'conditional', n + ':last', f.where(),
                           'the last condition is the one of the instruction: %s' % show(v)[:60])
                good = False
            if bc:
                c2 = bare(nxt(root[0][1]))
                if not (c2.op == 'index' and step(c2.args[0]) == '_branch_conditional' and num_val(c2.args[1]) == 0):
                    good = fail('placed', 'current', 'the block made for the instruction is not the current one')
        if lcn:
            v = bare(nxt(lcn[0]))
            h = mk('hav', L.lid, lcn[0])
            if bc:
                if not (v.op == 'index' and step(v.args[0]) == '_branch_conditional' and num_val(v.args[1]) == 1):
                    good = False
                    ctx.decide(False if v is h or v is NONE else None, 'skipped', n + ':last conditional', f.where(), 'the last conditional is %s' % show(v)[:60])
            elif v is not h:
                good = False
                ctx.decide(False if v is NONE else None, 'skipped', n + ':last conditional', f.where(), 'the last conditional is %s' % show(v)[:60])
        if good:
            ctx.ok('placed', n, f.where(), conj(b.facts)[:300])


def unconditional(ctx):
    """remove_conditionals: what led to a conditional leads to what it led to"""
    f, ps, out = analysed(ctx, 'remove_conditionals')
    if not out:
        return
    K = consts(ctx)
    n = 'remove_conditionals'
    for s, p in out:
        L = [x.loop for x in p.items if isinstance(x, LoopItem)]
        kept, joined, removed, seen = [], None, None, False
        for x in L:
            src = base(x.seq)
            nodes = src is SELF or (src.op == 'call' and src.args[0].op == 'attr' and src.args[0].args[0] is SELF and src.args[0].args[1] == 'nodes')
            copied = False
            if src.op == 'obj' and src not in kept:
                c = s.heap.get((src, '#'))
                if c is not None and c.op == 'copy' and base(c) is SELF:
                    nodes = copied = True
                elif c is not None and c.op == 'mapseq' and any(t.op == 'attr' and t.args[1] == 'kind' for t in walk(c)) and \
                        any(num_val(t) in (K['COND'], -K['COND']) or t.op == 'poly' and has(t, t) for t in walk(c) if is_num(t)):
                    kept.append(src)
            if nodes:
                seen = True
                kind = cmp_eq(mk('attr', x.elem, 'kind'), const(K['COND']))
                for b in x.bodies:
                    q = Path(b.state, b.facts, list(b.trace))
                    isc, isn = prove(b.facts, kind), prove(b.facts, neg_lit(kind))
                    gone = takes(b)
                    app = [y for y in q.appended if y[2] is x.elem]
                    if b.kind not in ('next', 'fall', 'continue'):
                        ctx.decide(False if b.kind in ('break', 'return') else None, 'reconnected', n + ':all', f.where(), 'every node is looked at')
                    elif gone and not copied:
                        ctx.bad('reconnected', n + ':live', f.where(), 'nodes are taken away while the nodes are walked')
                    elif isn:
                        if app or gone:
                            ctx.bad('reconnected', n + ':others', f.where(), 'other nodes are taken away')
                    elif isc:
                        if app:
                            kept += [app[0][1]]
                        if gone:
                            removed = removed is not False
                        if q.loops:
                            r = cross(q, x.elem)
                            joined = r if joined in (None, True) else joined
            elif src in kept:
                seen = True
                for b in x.bodies:
                    q = Path(b.state, b.facts, list(b.trace))
                    if b.kind in ('break', 'return'):
                        removed = False
                    elif takes(b) and takes(b)[0] is x.elem:
                        removed = removed is not False
                    if q.loops:
                        r = cross(q, x.elem)
                        joined = r if joined in (None, True) else joined
        work = [x for x in L if effect(x)]
        if not seen:
            ctx.unk('reconnected', n, f.where())
            continue
        if joined is None and not any(isinstance(y, LoopItem) for x in work for b in x.bodies for y in b.trace) and not p.calls and not p.odd:
            joined = False
        ctx.decide(joined, 'reconnected', n, f.where(), 'every predecessor of a conditional gets an edge to every successor')
        if removed is None and not any(takes(b) for x in L for b in x.bodies) and not p.calls and not p.odd:
            removed = False
        ctx.decide(removed, 'reconnected', n + ':removed', f.where(), 'every conditional is taken away')


def takes(b):
    for e in b.trace:
        if isinstance(e, Ev) and called(e, 'del_node') is not None:
            return called(e, 'del_node')
    return None


def chosen(L, side):
    """the loop is over some of the nodes only, told by their kind"""
    src = base(L.seq)
    c = L.pre.heap.get((src, '#')) if src.op == 'obj' and L.pre is not None else src
    if c is None or c.op != 'mapseq':
        return False
    return any(side(y) for y in walk(c) if y.op == 'call') and any(y.op == 'attr' and y.args[1] in ('kind', '_kind') for y in walk(c))


def cross(q, node):
    """True when the loops over the predecessors and successors of node add all the edges"""
    def side(t, what):
        t = base(t)
        return t.op == 'call' and t.args[0].op == 'attr' and t.args[0].args[1] == what and t.args[1] is node
    if not q.loops:
        return None if q.many or q.odd or q.calls else False
    for x in q.loops:
        a = x.loop
        for first, second in (('incidents', 'neighbors'), ('neighbors', 'incidents')):
            if not side(a.seq, first):
                continue
            res = True
            for b in a.bodies:
                if b.kind not in ('next', 'fall', 'continue'):
                    return False
                inner = [y.loop for y in b.trace if isinstance(y, LoopItem) and effect(y.loop)]
                if len(inner) != 1:
                    return None if inner else False
                y = inner[0]
                if not side(y.seq, second):
                    return False if chosen(y, lambda t: side(t, second)) else None
                for c in y.bodies:
                    r = Path(c.state, c.facts, list(c.trace))
                    e = (a.elem, y.elem) if first == 'incidents' else (y.elem, a.elem)
                    if c.kind not in ('next', 'fall', 'continue') or (not r.has(*e) and not r.odd):
                        return False
                    if not r.has(*e):
                        return None
            return res
    return None
