"""Obligations, evidence and exit codes shared by all checks."""
import json
import os
import signal
import time
import traceback
from .engine import Engine, Ev, LoopItem, Alt
from .model import Program
from .terms import T, show, walk
from . import engine, num

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')


class AnchorMissing(Exception):
    pass


class Timeout(Exception):
    pass


class Ctx(object):
    def __init__(self, prop, tier='quick', repo=None):
        self.prop, self.tier = prop, tier
        if tier == 'thorough':
            engine.MAXPATHS, engine.MAXDEPTH = 256, 12
        self.repo = repo or REPO
        self.t0 = time.time()
        self.prog = Program(self.repo)
        self.obl = []            # (status, rule, construct, loc, msg)
        self.functions = set()
        self.paths = 0
        self.loops = 0
        self.events = 0
        self.notes = []
        self.assumptions = []
        self.inert = []

    # ----------------------------------------------------------- obligations
    def ok(self, rule, construct, loc='', msg=''):
        self.obl.append(('ok', rule, construct, loc, msg))

    def bad(self, rule, construct, loc='', msg=''):
        self.obl.append(('bad', rule, construct, loc, msg))

    def unk(self, rule, construct, loc='', msg=''):
        self.obl.append(('unk', rule, construct, loc, msg))

    def decide(self, status, rule, construct, loc='', msg=''):
        {'ok': self.ok, 'bad': self.bad, 'unk': self.unk, True: self.ok, False: self.bad, None: self.unk}[status](
            rule, construct, loc, msg)

    def part(self, f, *a, **k):
        """one independent part of a rule"""
        try:
            return f(self, *a, **k)
        except (AnchorMissing, Timeout):
            raise
        except Exception as ex:
            if os.environ.get('SA_DEBUG'):
                raise
            self.unk('analysis', getattr(f, '__name__', '?'), '', '%s: %s' % (type(ex).__name__, ex))

    # ----------------------------------------------------------- analysis
    def func(self, mod, qual, required=True):
        mod = 'semantic_codec.' + mod if not mod.startswith(('semantic_codec', '=')) else mod.lstrip('=')
        fi = self.prog.func(mod, qual)
        if fi is None and required:
            raise AnchorMissing('%s:%s' % (mod, qual))
        return fi

    def cls(self, mod, name, required=True):
        mod = 'semantic_codec.' + mod if not mod.startswith(('semantic_codec', '=')) else mod.lstrip('=')
        c = self.prog.cls(mod, name)
        if c is None and required:
            raise AnchorMissing('%s:%s' % (mod, name))
        return c

    def run(self, fi, limit=60, **kw):
        """analyse one function: (engine, final states); (engine, None) when out of budget"""
        rk = {k: kw.pop(k) for k in ('selfcls', 'args', 'selfterm', 'pre', 'facts') if k in kw}
        eng = Engine(self.prog, **kw)

        def h(*a):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, h)
        signal.alarm(limit * 3 if self.tier == 'thorough' else limit)
        try:
            sts = eng.run(fi, **rk)
        except Timeout:
            self.notes.append('analysis of %s out of budget' % fi.where())
            return eng, None
        except RecursionError:
            self.notes.append('analysis of %s too deep' % fi.where())
            return eng, None
        except AnchorMissing:
            raise
        except Exception as ex:                     # a construct the interpreter cannot handle
            self.notes.append('analysis of %s failed: %s' % (fi.where(), ex))
            if os.environ.get('SA_DEBUG'):
                traceback.print_exc()
            return eng, None
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        self.functions |= eng.visited
        self.paths += len(sts)
        self.loops += len(eng.loops) if isinstance(eng.loops, list) else 0
        for s in sts:
            for _ in events(s.items()):
                self.events += 1
        self.notes.extend(n for n in eng.notes if n not in self.notes)
        return eng, sts


# ----------------------------------------------------------------- trace helpers
def events(items, ctx=()):
    """(event, enclosing loops) of a trace, all alternatives included"""
    for it in items:
        if isinstance(it, Ev):
            yield it, ctx
        elif isinstance(it, LoopItem):
            for b in it.loop.bodies:
                for x in events(b.trace, ctx + ((it.loop, b),)):
                    yield x
        elif isinstance(it, Alt):
            for fs, tr in it.paths:
                for x in events(tr, ctx):
                    yield x


def loops_of(items, out=None):
    out = [] if out is None else out
    for it in items:
        if isinstance(it, LoopItem):
            out.append(it)
            for b in it.loop.bodies:
                loops_of(b.trace, out)
        elif isinstance(it, Alt):
            for fs, tr in it.paths:
                loops_of(tr, out)
    return out


OPAQUE_OPS = {'unk', 'out', 'rand'}


def understood(t, extra=(), allow=()):
    """no part of the term stands for something the analysis did not follow"""
    if not isinstance(t, T):
        return True
    for x in walk(t):
        if x.op in OPAQUE_OPS and x not in allow:
            return False
        if x.op in extra:
            return False
    return True


def conj(lits):
    return ' & '.join(sorted(show(l) for l in lits))


# ----------------------------------------------------------------- main
def known_entries(prop):
    path = os.path.join(ROOT, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: ') and (' property=%s ' % prop) in line + ' ':
                d = {}
                body = line[len('finding: '):]
                head, _, text = body.partition(' :: ')
                for kv in head.split(' '):
                    k, _, v = kv.partition('=')
                    d[k] = v
                d['text'] = text
                out.append(d)
    return out


def main(prop, fn, tier):
    meta = None
    ctx = None
    try:
        ctx = Ctx(prop, tier)
        fn(ctx)
    except AnchorMissing as ex:
        print('ANALYSIS-BROKEN property=%s anchor not found: %s' % (prop, ex))
        return 2
    except Exception as ex:
        if ctx is None or os.environ.get('SA_DEBUG'):
            raise
        # a shape of the code the rule does not know: no verdict from this part
        ctx.unk('analysis', prop, '', '%s: %s' % (type(ex).__name__, ex))
    known = known_entries(prop)
    bad = [o for o in ctx.obl if o[0] == 'bad']
    new, old = [], []
    for o in bad:
        k = [d for d in known if d.get('rule') == o[1] and d.get('construct') == o[2]]
        (old if k else new).append((o, k))
    seen = set()
    for o, k in old:
        if o[1:3] not in seen:
            seen.add(o[1:3])
            print('KNOWN-FINDING: property=%s %s' % (prop, k[0]['text']))
    okn = [o for o in ctx.obl if o[0] == 'ok']
    unk = [o for o in ctx.obl if o[0] == 'unk']
    rules = {}
    for o in ctx.obl:
        r = rules.setdefault(o[1], {'instances': 0, 'held': 0, 'violated': 0, 'undecided': 0})
        r['instances'] += 1
        r[{'ok': 'held', 'bad': 'violated', 'unk': 'undecided'}[o[0]]] += 1
    import hashlib
    EVD = os.environ.get('SA_EVIDENCE') or os.path.join(ROOT, 'evidence')
    os.makedirs(EVD, exist_ok=True)
    level = 'other'
    cov = {
        'explanation': 'Static analysis of /repo: the functions listed were abstractly interpreted from their source '
                       '(value numbering, affine facts, effect traces, one summary per loop) and every rule instance '
                       'found in the summaries was decided; nothing of the repository was executed.',
        'functions': len(ctx.functions), 'paths': ctx.paths, 'loops': ctx.loops, 'effects': ctx.events,
        'obligations': len(ctx.obl), 'held': len(okn), 'violated': len(bad), 'undecided': len(unk),
        'rules': rules,
        'analysed': sorted('%s:%s' % x for x in ctx.functions),
        'instances': [{'status': o[0], 'rule': o[1], 'construct': o[2], 'where': o[3], 'detail': o[4][:400]}
                      for o in ctx.obl][:400],
        'sources_digest': ctx.prog.digest(),
        'notes': ctx.notes[:50],
    }
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': cov, 'wall_s': round(time.time() - ctx.t0, 3), 'violations': len(new),
          'assumptions': ctx.assumptions}
    with open(os.path.join(EVD, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('property=%s obligations=%d held=%d violated=%d undecided=%d functions=%d paths=%d wall=%.1fs' % (
        prop, len(ctx.obl), len(okn), len(bad), len(unk), len(ctx.functions), ctx.paths, time.time() - ctx.t0))
    for o in unk:
        print('undecided: rule=%s %s at %s %s' % (o[1], o[2], o[3], o[4][:300]))
    if os.environ.get('SA_DEBUG'):
        for n in ctx.notes:
            print('note:', n)
    if not ctx.obl:
        print('ANALYSIS-BROKEN property=%s no obligation was generated' % prop)
        return 2
    if new:
        rp = os.path.join('evidence', prop + '.violation.txt')
        with open(os.path.join(EVD, prop + '.violation.txt'), 'w') as f:
            for o, _ in new:
                f.write('rule=%s\nconstruct=%s\nwhere=%s\n%s\n\n' % o[1:])
            f.write('replay: cd /verif && python3 check.py %s --tier %s\n' % (prop, tier))
        for o, _ in new[:20]:
            print('  violated: rule=%s construct=%s at %s: %s' % (o[1], o[2], o[3], o[4]))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0
