"""Debug aid: python3 -m sa.dump module:Class.func …  prints the summary the rules work on."""
import sys
import time
from .model import Program
from .engine import Engine, Ev, LoopItem, Alt
from .terms import T, show

HIDE = {'Attr', 'Read', 'Call0', 'Return', 'Index'}


def sh(x):
    return show(x) if isinstance(x, (T, tuple)) else str(x)


def items(tr, ind, base, full):
    p = '  ' * ind
    for it in tr:
        if isinstance(it, Ev):
            if it.kind in HIDE and not full:
                continue
            fs = [f for f in it.facts if f not in base]
            print(p + it.kind, '|', ', '.join(sh(x) for x in it.a), '@' + it.loc.split(':')[1].split(' ')[0],
                  ('  {' + ' & '.join(sh(f) for f in fs) + '}') if fs else '')
        elif isinstance(it, LoopItem):
            L = it.loop
            print(p + 'LOOP', L.lid, 'seq', L.seq is not None and sh(L.seq), 'elem', L.elem is not None and sh(L.elem),
                  'count', L.count is not None and sh(L.count), 'closed', {str(k[1] if k[0] != 'heap' else k): sh(v) for k, v in L.closed.items()},
                  'EXIT' if it.body is None else it.body.kind)
            for b in L.bodies:
                print(p + ' BODY', b.kind, '{' + ' & '.join(sh(f) for f in b.facts) + '}')
                items(b.trace, ind + 2, set(b.facts) | set(base), full)
        elif isinstance(it, Alt):
            print(p + 'ALT', it.name)
            for fs, tr2 in it.paths:
                print(p + ' PATH', '{' + ' & '.join(sh(f) for f in fs) + '}')
                items(tr2, ind + 2, set(fs) | set(base), full)


def main():
    prog = Program('/repo')
    full = '-f' in sys.argv
    for a in sys.argv[1:]:
        if ':' not in a:
            continue
        m, n = a.split(':')
        ops = [x[2:] for x in sys.argv if x.startswith('-o')]
        e = Engine(prog, opaque_funcs=ops)
        t = time.time()
        if m.startswith('.'):
            m = 'semantic_codec' + m
        sts = e.run(prog.func(m, n))
        print('=====', a, len(sts), 'states %.2fs' % (time.time() - t), 'notes', e.notes)
        for s in sts:
            print('-- exit', s.exit[0], sh(s.exit[1]), '{' + ' & '.join(sh(f) for f in s.facts) + '}')
            for k, v in s.heap.items():
                print('   heap', '.'.join(sh(x) for x in k), '=', sh(v))
            items(s.items(), 2, set(s.facts), full)


if __name__ == '__main__':
    main()
