"""P28: PEC wires hold the field along them at zero on exactly their edges, during the run."""
from checks.common import *
from checks.P02 import impose

BOUNDS = ('2 to 3 steps from an arbitrary field state (symbolic samples, zero on the wires and walls); one wire at every position of 3x2x1 and 2x2x1 cell meshes (corner indices symbolic, split by the solver) '
          'along each axis, every pair of wires of a 2x1x1 mesh along different axes, three crossing wires, wires freed again by a later FREE_SPACE wire, wires in dielectric blocks, user-defined wire names '
          'and end types; PEC and PMC walls; graded meshes')
OUTSIDE = 'wires with radius (the build has PEC and FREE_SPACE wires only); wires running into PML layers or lying on periodic faces; larger meshes'


def run(B, dm, types, cards, objs, nt=2, s1=(), ):
    types = faces_of(types)
    lines = mlines(dm)

    def body():
        g = Grid(B)
        dt = B.ld(B.g('dt'), 'f32')
        m = paint(g, objs, types)
        S = {f: {} for f in E3 + H3}
        ins = {f: set(g.idx(f)) for f in E3 + H3}
        for f in E3 + H3:
            sc = 1.0 if f[0] == 'E' else 1.0 / ETA0
            for c in g.cells():
                S[f][c] = B.real('%s_%d_%d_%d' % ((f,) + c), -sc, sc) if c in ins[f] and not (f[0] == 'E' and m[f, c] == PECM) else 0.0
        impose(S, g.go, types)
        ghost_h(S, g.go, types)
        for f in E3 + H3:
            for c in g.cells():
                g.set(f, *c, S[f][c])
        B.real_propagate()
        r = Ref(g, lines, types, dt, med=m, S=S)
        r.run(nt)
        for f in E3:
            for c in r.ins[f]:
                if m[f, c] == PECM:
                    B.check('zero on the wire %s%s' % (f, c), g.get(f, *c) == 0.0)
        r.compare(B)
    run_mesh(B, mesh_text(B, dm, ext=types, s1=s1, s2=cards, nt=nt, lines=lines), body)


def one(axis, dm, types, name='PEC', nt=2, block=False, ends=''):
    def h(B):
        box = sym_box(B, dm, 'w', 'line', axis)
        cards, objs = [], []
        if block:
            md = simple(3.0, 0.01, 2.0)
            cards += [mt_card(B, 'stuff', md), 'MB 0 %d 0 %d 0 %d stuff' % dm]
            objs += [([0, dm[0], 0, dm[1], 0, dm[2]], md, '111111')]
        if name != 'PEC':
            cards += ['WT other PEC', 'WT %s PEC' % name, 'WT third PEC']
        cards += ['TW %s %s %s' % (box_str(B, box), name, ends)]
        objs += [(box, PECM, '111111')]
        run(B, dm, types, cards, objs, nt)
    return h


def two(a, b, dm, types, second='PEC'):
    def h(B):
        p, q = sym_box(B, dm, 'p', 'line', a), sym_box(B, dm, 'q', 'line', b)
        run(B, dm, types, ['TW %s PEC' % box_str(B, p), 'TW %s %s' % (box_str(B, q), second)],
            [(p, PECM, '111111'), (q, PECM if second == 'PEC' else FREE, '111111')], 1 if second != 'PEC' else 2)
    return h


def cross(types):
    def h(B):
        dm = (4, 3, 3)
        bs = [[0, 4, 1, 1, 2, 2], [2, 2, 0, 3, 1, 1], [3, 3, 2, 2, 1, 3], [1, 2, 0, 0, 3, 3]]
        run(B, dm, types, ['TW %s PEC' % box_str(B, b) for b in bs], [(b, PECM, '111111') for b in bs], 3)
    return h


MIX = ('PEC', 'PMC', 'PMC', 'PEC', 'PMC', 'PMC')


def cases(tier):
    cs = []
    for a in range(3):
        dm = [2, 2, 2]
        dm[a] = 3
        dm[(a + 1) % 3] = 1
        dm = tuple(dm) if tier == 'quick' else (3, 3, 3)
        x = 'xyz'[a]
        cs.append(Case('wire %s' % x, one(a, dm, 'PMC'), time=400))
        cs.append(Case('wire %s mixed' % x, one(a, tuple(1 if i == (a + 2) % 3 else 2 for i in range(3)), MIX, name='wire9', block=True)))
        cs.append(Case('wire %s ends' % x, one(a, (1, 2, 1), 'PMC', ends=('THRU END', 'CORNER', 'END THRU')[a], nt=3)))
        for b in range(3):
            if b != a:
                cs.append(Case('wires %s %s' % (x, 'xyz'[b]), two(a, b, (2, 1, 1) if tier == 'quick' else (2, 2, 1), 'PMC'), time=400))
        cs.append(Case('wire %s freed' % x, two(a, a, tuple(2 if i == a else 1 for i in range(3)), 'PMC', 'FREE_SPACE')))
    cs.append(Case('crossing PMC', cross('PMC')))
    cs.append(Case('crossing PEC', cross('PEC')))
    cs.append(Case('crossing mixed', cross(MIX)))
    return cs
