"""C13: counting scores share what is left of the metadata among the candidates."""
from ..terms import *
from ..prove import prove, inconsistent
from ..report import events, loops_of, understood, conj
from ..fold import counting, loop_index, flat_paths, steps
from ..shape import *
from ..trans import at_init
from ..engine import Ev, LoopItem, Alt
from .c11 import ignore_of, method, seq_of, mentions_ignore
from .c12 import quotient, cell

MOD = 'metadata.probabilistic_rules.counting_rules'
KINDS = {'ConditionalCount': ('conditional_field', 'condition_count', False),
         'InstructionCount': ('opcode_field', 'instruction_count', False),
         'RegisterCount': ('registers_used', 'storage_count', True)}


def run(ctx):
    for k in KINDS:
        ctx.part(rule_class, k)


def rule_class(ctx, name):
    cls = ctx.cls(MOD, name)
    f = ctx.func(MOD, name + '.recover', required=False) or ctx.func(MOD, 'CountingRule.recover')
    eng, sts = ctx.run(f, selfcls=cls)
    if not sts:
        return ctx.unk('budget', name)
    for s in sts:
        if s.exit[0] == 'return':
            K(ctx, eng, name, s, f).check()


class K(object):
    def __init__(self, ctx, eng, name, s, f):
        self.ctx, self.eng, self.name, self.s, self.f = ctx, eng, name, s, f
        self.field, self.table, self.many = KINDS[name]
        self.items = list(s.items())
        self.index = loop_index(self.items)

    def dec(self, st, rule, loc, msg):
        self.ctx.decide(st, rule, self.name, loc, msg)

    # ------------------------------------------------------------ what a term is
    def program(self, t):
        return t is not None and t.op == 'attr' and t.args[1] == '_program'

    def lst(self, t, L):
        """t is the candidate list of the round of L"""
        t = t.args[0] if t is not None and t.op in ('copy', 'perm') else t
        return t is not None and t.op == 'index' and self.program(t.args[0]) and t.args[1].op == 'elem' and t.args[1].args[1] is L.iota

    def value_of(self, k, x, M=None):
        """k is a counted value of candidate x (the element of M when there are several)"""
        if self.many:
            return M is not None and k is M.elem and M.seq is not None and method(seq_of(M), self.field) is x
        return k.op == 'attr' and k.args[1] == self.field and k.args[0] is x or \
            M is not None and k is M.elem and M.seq is not None and M.seq.op in ('seq', 'lit', 'tuple') and len(M.seq.args) == 1 and self.value_of(M.seq.args[0], x)

    def base_of(self, k):
        """(field, candidate) a counted value comes from"""
        for y in vwalk(k):
            if y.op == 'attr' and y.args[1] in ('conditional_field', 'opcode_field'):
                return y.args[1], y.args[0]
            for n in ('registers_used', 'storages_used', 'registers_read', 'registers_written', 'storages_read', 'storages_written'):
                if method(y, n) is not None:
                    return n, method(y, n)
        return None

    def decided(self, fs, L):
        """does the path say that the list of the round has exactly one valid candidate"""
        out = None
        for q in fs:
            h = q.args[0] if q.op == 'not' else q
            if h.op not in ('eq0', 'ge0'):
                continue
            for y in walk(h.args[0]):
                if y.op in ('out', 'agg', 'len') and self.valid_count(y, L):
                    if prove(fs, cmp_ge(sub(const(1 + self.start), y))):
                        out = True
                        if prove(fs, cmp_eq(y, const(self.start))):
                            # no valid candidate at all
                            out = False
                    elif prove(fs, neg_lit(cmp_eq(y, const(1 + self.start)))) or inconsistent(tuple(fs) + (cmp_eq(y, const(1 + self.start)),)):
                        out = False
                    else:
                        self.plain_len = True
                elif h.op == 'eq0' and y.op == 'len' and y.args[0].op in ('index', 'copy', 'perm') and self.lst(y.args[0], L):
                    o = shift_form(h.args[0], y)
                    if o is not None and num_val(o) == -1:
                        self.plain_len = True
        return out

    def valid_count(self, y, L):
        self.start = 0
        if y.op in ('agg', 'len'):
            m = y.args[0] if y.op == 'len' else y.args[1] if y.args[0] == 'sum' else None
            if not isinstance(m, T) or m.op != 'mapseq' or not self.lst(m.args[5] if len(m.args) > 5 else None, L):
                return False
            x = next((z for z in walk(m.args[3]) if z.op == 'elem' and self.lst(z.args[0], L)), None)
            c = m.args[3]
            neg_ = c.op == 'not' and c.args[0].op == 'truth' and c.args[0].args[0].op == 'attr' and c.args[0].args[0].args[1] == 'ignore'
            return x is not None and neg_ and (y.op == 'len' or num_val(m.args[1]) == 1)
        r = steps(self.eng, y, self.index)
        if r is None or r[0] is None or num_val(r[0]) is None or num_val(r[0]) != int(num_val(r[0])):
            return False
        self.start = int(num_val(r[0]))
        for st in r[1]:
            if len(st.chain) != 1:
                return False
            M, b = st.chain[0]
            if not self.lst(M.seq, L):
                return False
            ign = ignore_of(st.facts, M.elem)
            if st.op == 'sum' and num_val(st.amount) == 1 and ign is False:
                continue
            if st.op == 'keep' and ign is True:
                continue
            return False
        return True

    # ------------------------------------------------------------ tables
    def check(self):
        sets = [(ev, ls) for ev, ls in events(self.items) if ev.kind == 'SetItem' and ev.a[0].op == 'attr' and ev.a[0].args[1] == '_scores']
        fill = any(q.op == 'eq0' and any(y.op == 'len' for y in walk(q)) for q in self.s.facts)
        R = C = None
        if not sets:
            if not any(q.op in ('not', 'eq0', 'ge0', 'truth') and any(y.op == 'attr' and y.args[1] == '_scores' for y in walk(q)) for q in self.s.facts):
                self.dec(None, 'shares', self.f.where(), 'no table of shares')
        for ev, ls in sets:
            k, v = ev.a[1], ev.a[2]
            if num_val(v) == 0:
                continue
            q = quotient(v)
            a, b = (cell(q[0]), cell(q[1])) if q else (None, None)
            if a is None or b is None or a[1] is not k or b[1] is not k:
                cells = [x for x in vwalk(v) if x.op == 'index' and cell(x) is not None and cell(x)[1] is k]
                wrong = num_val(v) is not None or q is None and len(set(cells)) > 1 and v.op == 'poly' and not any(x.op in ('call', 'mcall', 'unk', 'div') for x in vwalk(v))
                return self.dec(False if wrong else None, 'shares', ev.loc, 'share is %s' % show(v)[:120])
            if (R, C) not in ((None, None), (a[0], b[0])):
                return self.dec(None, 'shares', ev.loc, 'several tables')
            R, C = a[0], b[0]
        if R is None:
            if sets:
                self.dec(None, 'shares', self.f.where(), 'no share')
        else:
            if not self.tables(R, C):
                return
            for ev, ls in sets:
                k, v = ev.a[1], ev.a[2]
                fs = ev.facts
                for L, b in ls:
                    fs = tuple(fs) + tuple(b.facts)
                if num_val(v) == 0:
                    z = any(q.op == 'not' and q.args[0].op == 'in' and q.args[0].args[0] is k and q.args[0].args[1] is C for q in fs)
                    self.dec(True if z else None, 'no-candidate', ev.loc, 'share zero under %s' % conj(fs)[-120:])
                L = ls[0][0] if ls else None
                if len(ls) == 1 and L.seq is not None and (L.seq is R or L.seq.op in ('keys', 'copy', 'perm', 'items') and L.seq.args[0] is R) and k is L.elem:
                    self.dec(True, 'shares', ev.loc, 'for every value of the metadata')
                else:
                    self.dec(None, 'shares', ev.loc, 'for other values')
            for L in {ls[0][0] for ev, ls in sets if ls}:
                for b in L.bodies:
                    if b.kind == 'break':
                        self.dec(False, 'complete', L.loc, 'the shares stop early')
        self.scores()

    def tables(self, R, C):
        cp = [ev for ev, ls in events(self.items) if ev.kind in ('Copy', 'NewDict', 'NewList') and ev.a and ev.a[0] is R]
        if R.op == 'attr' and R.args[1] in [t[1] for t in KINDS.values()]:
            self.dec(False, 'metadata-kept', self.f.where(), 'what is left is counted in the metadata itself')
            src = R
        elif cp and cp[0].kind == 'Copy':
            src = cp[0].a[1]
            self.dec(True, 'metadata-kept', cp[0].loc, 'counted in a copy')
        elif any(ev.kind == 'Copy' and ev.a and ev.a[0] is C for ev, ls in events(self.items)):
            self.dec(False, 'shares', self.f.where(), 'the candidates are divided by what is left')
            return False
        else:
            self.dec(None, 'metadata-kept', self.f.where(), 'what is left comes from %s' % show(R)[:60])
            return False
        good = src.op == 'attr' and src.args[1] == self.table
        other = src.op == 'attr' and src.args[1] in [t[1] for t in KINDS.values()]
        self.dec(True if good else (False if other else None), 'metadata', self.f.where(), 'counts of %s' % show(src)[:60])
        ok = self.count(R, -1, True, 'left') and self.count(C, 1, False, 'candidates')
        return ok

    def count(self, D, sign, want, what):
        ent = counting(self.items, D)
        if ent is None:
            self.dec(None, what, self.f.where(), 'written in another way')
            return False
        tops = {}
        for e in ent:
            if e[0]:
                tops.setdefault(e[0][0][0], []).append(e)
            elif e[2]:
                self.dec(None, what, self.f.where(), 'written outside the pass')
                return False
        tops = {L: es for L, es in tops.items() if any(e[2] for e in es)}
        if len(tops) != 1:
            self.dec(None, what, self.f.where(), '%d passes' % len(tops))
            return False
        (L, es), = tops.items()
        P = L.seq
        while P is not None and P.op in ('values', 'keys', 'items', 'copy', 'perm'):
            P = P.args[0]
        if not self.program(P):
            self.dec(None, what, L.loc, 'runs over %s' % (show(L.seq)[:80] if L.seq is not None else '?'))
            return False
        for b in L.bodies:
            if b.kind == 'break':
                self.dec(False, 'complete', L.loc, 'the pass stops early under %s' % conj(b.facts)[:160])
        for loops, fs, bump, path in es:
            if len(loops) != 1 or loops[0][1].kind != 'next' or inconsistent(fs):
                continue
            self.plain_len = False
            d = self.decided(fs, L)
            inner = [it.loop for it in path if isinstance(it, LoopItem) and any(e[2] for e in es if len(e[0]) > 1 and e[0][1][0] is it.loop)]
            if bump:
                b = [self.base_of(k) for k in bump]
                first = all(x is not None and x[1].op == 'index' and self.lst(x[1].args[0], L) for x in b)
                if first and ignore_of(fs, b[0][1]) is not False:
                    self.dec(False, what, L.loc, 'one candidate of the list is taken, whether or not it is the valid one')
                else:
                    self.dec(None, what, L.loc, 'counted outside the candidates')
                continue
            if d is None:
                st = None if not self.plain_len else False
                if inner or not all(understood(q) for q in fs):
                    self.dec(st, what, L.loc, 'no telling whether the address is decided under %s' % conj(fs)[-160:])
                continue
            if d is not want:
                self.dec(not inner, what, L.loc, 'counted although the address is %s' % ('decided' if d else 'not decided'))
                continue
            if len(inner) != 1:
                self.dec(False if not inner else None, what, L.loc, 'not counted although the address is %s' % ('decided' if d else 'not decided'))
                continue
            self.candidates(inner[0], L, es, D, sign, what)
        return True

    def candidates(self, M, L, es, D, sign, what):
        if not self.lst(M.seq, L):
            x = self.base_of(M.seq) if M.seq is not None else None
            if x is not None and x[1].op == 'index' and self.lst(x[1].args[0], L):
                return self.dec(False, what, M.loc, 'one candidate of the list is taken, whether or not it is the valid one')
            return self.dec(None, what, M.loc, 'runs over %s' % (show(M.seq)[:80] if M.seq is not None else '?'))
        x = M.elem
        for b in M.bodies:
            if b.kind == 'break' and not (sign < 0 and any(ev.a and ev.a[0] is D for ev, ls in events(b.trace))):
                self.dec(False if all(clear(q) for q in b.facts) else None, 'complete', M.loc, 'the candidates stop early under %s' % conj(b.facts)[:160])
        for loops, fs, bump, path in es:
            if len(loops) != 2 or loops[1][0] is not M or inconsistent(fs) or loops[1][1].kind not in ('next', 'break'):
                continue
            own = tuple(loops[1][1].facts)
            ign = ignore_of(fs, x)
            inner = [it.loop for it in path if isinstance(it, LoopItem) and any(e[2] for e in es if len(e[0]) > 2 and e[0][2][0] is it.loop)]
            if ign is True:
                self.dec(not bump and not inner, 'ignored', M.loc, 'an ignored candidate is counted')
                continue
            if ign is None and (bump or inner):
                self.dec(None if mentions_ignore(list(own)) else False, 'ignored', M.loc, 'ignored candidates are counted')
                continue
            if not bump and not inner:
                if sign < 0 and any(q.op == 'not' and q.args[0].op == 'in' and q.args[0].args[1] is D for q in fs):
                    continue                      # a value the metadata does not have
                self.dec(False if all(understood(q, allow=self.counts(fs, L)) for q in fs) else None, what, M.loc, 'a candidate is not counted under %s' % conj(own)[-160:])
                continue
            if bump:
                for k, n in bump.items():
                    self.bump_ok(k, n, x, None, sign, what, M.loc)
                if inner:
                    self.dec(None, what, M.loc, 'counted in several places')
                continue
            if len(inner) != 1:
                self.dec(None, what, M.loc, 'counted in several loops')
                continue
            F = inner[0]
            for b in F.bodies:
                if b.kind == 'break':
                    self.dec(False if all(clear(q) for q in b.facts) else None, 'complete', F.loc, 'the values stop early')
            if not any(self.value_of(F.elem, x, F) for _ in (0,)):
                b = self.base_of(F.seq) if F.seq is not None else None
                self.dec(False if b is not None and b[1] is x and b[0] != self.field and seq_of(F) is not None and method(seq_of(F), b[0]) is x else None, what, F.loc, 'values of %s' % (show(F.seq)[:80] if F.seq is not None else '?'))
                continue
            for e in es:
                if len(e[0]) != 3 or e[0][2][0] is not F or e[0][2][1].kind != 'next' or inconsistent(e[1]):
                    continue
                if not e[2]:
                    if sign < 0 and any(q.op == 'not' and q.args[0].op == 'in' and q.args[0].args[0] is F.elem and q.args[0].args[1] is D for q in e[1]):
                        continue
                    self.dec(False if all(understood(q, allow=self.counts(e[1], L)) for q in e[1]) else None, what, F.loc, 'a value is not counted under %s' % conj(e[0][2][1].facts)[-160:])
                for k, n in e[2].items():
                    self.bump_ok(k, n, x, F, sign, what, F.loc)

    def counts(self, fs, L):
        return {y for q in fs for y in walk(q) if y.op == 'out' and self.valid_count(y, L)}

    def bump_ok(self, k, n, x, F, sign, what, loc):
        good = self.value_of(k, x, F)
        b = self.base_of(k)
        wrong = b is not None and (b[0] != self.field or b[1] is not x) and clear(k)
        self.dec(True if good else (False if wrong else None), what, loc, 'counted under %s' % show(k)[:100])
        self.dec(True if num_val(n) == sign else (False if num_val(n) is not None or n.op == 'reset' else None), what, loc, 'counted by %s' % show(n)[:40])

    # ------------------------------------------------------------ the score of a candidate
    def scores(self):
        lists = [it for it in self.items if isinstance(it, LoopItem) and any(ev.kind == 'SetItem' and self.target(ev.a[0]) is not None for b in it.loop.bodies for ev, ls in events(b.trace))]
        if len(lists) != 1:
            return self.dec(False if not lists and not any(ev.kind == 'CallUnknown' for ev, ls in events(self.items)) else None, 'score', self.f.where(), 'scores are set in %d loops' % len(lists))
        L = lists[0].loop
        S = L.seq
        S = S.args[0] if S is not None and S.op in ('copy', 'perm') else S
        good = S is not None and S.op == 'index' and self.program(S.args[0]) and S.args[1].op in ('sym', 'param')
        if not good:
            return self.dec(None, 'score', L.loc, 'scores over %s' % (show(S)[:80] if S is not None else '?'))
        x = L.elem
        for b in L.bodies:
            if b.kind == 'break':
                self.dec(False, 'complete', L.loc, 'the candidates stop early under %s' % conj(b.facts)[:160])
            if b.kind != 'next' or inconsistent(tuple(b.facts)):
                continue
            ign = ignore_of(b.facts, x)
            for p in flat_paths(b.trace) or []:
                put = [it for it in p if isinstance(it, Ev) and it.kind == 'SetItem' and self.target(it.a[0]) is not None]
                fs = tuple(b.facts)
                for it in p:
                    if isinstance(it, Ev):
                        fs += tuple(g for g in it.facts if g not in fs)
                if ign is True:
                    self.dec(not put or num_val(put[-1].a[2]) == 0, 'ignored', L.loc, 'an ignored candidate gets a score')
                    continue
                if not put:
                    # the same score already filed
                    same = any(q.op == 'eq0' and any(y.op == 'index' and self.target(y.args[0]) is x for y in walk(q)) for q in fs)
                    if not same:
                        self.dec(False if all(clear(q) for q in fs) else None, 'score', L.loc, 'no score under %s' % conj(fs)[-160:])
                    continue
                if len(put) > 1 or self.target(put[0].a[0]) is not x:
                    self.dec(None, 'score', L.loc, 'several scores')
                    continue
                if ign is None:
                    self.dec(None if mentions_ignore(b.facts) else False, 'ignored', L.loc, 'ignored candidates get a score')
                self.name_ok(put[0].a[1], put[0].loc)
                self.mean(put[0].a[2], x, fs, put[0].loc)

    def target(self, t):
        if t.op == 'attr' and t.args[1] == 'scores_by_rule':
            return t.args[0]
        return None

    def name_ok(self, k, loc):
        pre = k.args[0] if k.op == 'str' and k.args else None
        if isinstance(pre, T) and pre.op == 'const':
            pre = pre.args[0]
        if k.op == 'const' and isinstance(k.args[0], str):
            self.dec(False, 'name', loc, 'filed under %s whatever the pass' % show(k)[:80])
        elif isinstance(pre, str):
            names = getattr(self.ctx, 'c13names', None)
            if names is None:
                names = self.ctx.c13names = {}
            o = names.setdefault(pre, self.name)
            self.dec(o == self.name, 'name', loc, 'filed under %s, the name %s uses' % (pre, o))
            self.dec(True if has_pass(k) else (False if clear(k) else None), 'name', loc, 'filed under %s' % show(k)[:80])
        else:
            thing = clear(k) and k.op in ('elem', 'index', 'sym', 'num') or k is NONE
            self.dec(False if thing else None, 'name', loc, 'filed under %s' % show(k)[:80])

    def mean(self, v, x, fs, loc):
        self.pathfacts = tuple(fs)
        branch = next((q.op != 'not' for q in fs for h in [q.args[0] if q.op == 'not' else q] if h.op == 'truth' and h.args[0].op == 'attr' and h.args[0].args[1] == 'is_branch'), None)
        if v.op == 'out':
            r = steps(self.eng, v, self.index)
            if r is None or r[0] is None:
                return self.dec(None, 'score', loc, 'score is %s' % show(v)[:120])
            init, st = r
            self.extra(init, branch, loc)
            for q in st:
                if inconsistent(q.facts):
                    continue
                F = q.chain[0][0]
                if not self.value_of(F.elem, x, F):
                    b = self.base_of(F.seq) if F.seq is not None else None
                    self.dec(False if b is not None and b[1] is x and b[0] != self.field and seq_of(F) is not None and method(seq_of(F), b[0]) is x else None, 'score', F.loc, 'values of %s' % (show(F.seq)[:80] if F.seq is not None else '?'))
                    continue
                miss = any(y.op == 'not' and y.args[0].op == 'in' and y.args[0].args[0] is F.elem and self.shares(y.args[0].args[1]) for y in q.facts)
                if q.op == 'keep':
                    self.dec(True if miss else (False if all(understood(y) for y in q.facts) else None), 'score', q.loc, 'a value is left out')
                elif q.op == 'sum':
                    self.share(q.amount, F.elem, F.seq, q.loc)
                else:
                    self.dec(None if q.op != 'set' or not clear(q.amount) else False, 'score', q.loc, 'the score is %s to %s' % (q.op, show(q.amount)[:80]))
            return
        # one value, no loop
        rest = None
        for y in walk(v):
            if y.op == 'index' and self.shares(y.args[0]):
                rest = shift_form(v, y)
                if rest is None or rest is not None and num_val(rest) is None:
                    return self.dec(None, 'score', loc, 'score is %s' % show(v)[:120])
                self.dec(True if self.value_of(y.args[1], x) else (False if clear(y.args[1]) else None), 'score', loc, 'share of %s' % show(y.args[1])[:80])
                return self.extra(rest, branch, loc)
        if num_val(v) is not None:
            miss = any(y.op == 'not' and y.args[0].op == 'in' and self.shares(y.args[0].args[1]) for y in fs)
            self.dec(True if miss else (False if all(clear(q) for q in fs) else None), 'score', loc, 'a value is left out')
            return self.extra(v, branch, loc)
        L = self.index.get(v.args[0]) if v.op == 'hav' else None
        if L is not None and L.elem is not None and self.value_of(L.elem, x, L):
            for b in L.bodies:
                if b.kind == 'break' and any(q.op == 'not' and q.args[0].op == 'in' and q.args[0].args[0] is L.elem and self.shares(q.args[0].args[1]) for q in b.facts):
                    return self.dec(False, 'score', L.loc, 'the values after one without share are left out')
        self.dec(None, 'score', loc, 'score is %s' % show(v)[:120])

    def extra(self, t, branch, loc):
        n = num_val(t)
        if n is None:
            kept = [y for y in walk(t) if y.op == 'hav' and y.args[0] in self.index]
            old = any(at_init(self.eng, self.index[y.args[0]], y) is not None and num_val(at_init(self.eng, self.index[y.args[0]], y)) is not None for y in kept)
            return self.dec(False if old and not any(y.op in ('call', 'mcall', 'unk') for y in walk(t)) else None, 'extra', loc, 'starts at %s' % show(t)[:60])
        if not self.many:
            return self.dec(n == 0, 'extra', loc, 'starts at %s' % n)
        if branch is None:
            asked = any(x.op == 'attr' and x.args[1] == 'is_branch' or x.op in ('call', 'mcall', 'unk') for q in self.pathfacts for x in walk(q))
            return self.dec(None if asked else False, 'extra', loc, 'starts at %s whether or not it is a branch' % float(n))
        self.dec(0 < n <= 0.001 if branch else n == 0, 'extra', loc, 'starts at %s for %s' % (float(n), 'a branch' if branch else 'others'))

    def shares(self, t):
        return t.op == 'attr' and t.args[1] == '_scores'

    def share(self, t, k, seq, loc):
        q = quotient(t)
        if q is None:
            c = cell(t)
            return self.dec(False if c is not None and self.shares(c[0]) and self.many else None, 'score', loc, 'adds %s' % show(t)[:80])
        c = cell(q[0])
        ln = q[1].op == 'len' and (q[1].args[0] is seq)
        self.dec(True if c is not None and self.shares(c[0]) and c[1] is k and ln else (False if clear(t) and c is not None and self.shares(c[0]) else None), 'score', loc, 'adds %s' % show(t)[:100])


def has_pass(k):
    return any(y.op == 'attr' and y.args[1] == 'current_pass' for y in walk(k))
