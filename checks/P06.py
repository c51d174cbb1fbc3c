"""P06: blocks, surfaces and wires paint exactly the components of their box, in the documented order."""
from checks.common import *

BOUNDS = ('every block, surface and wire position in a 2x2x2 mesh (corner indices symbolic, split into paths by the solver), all 64 masks, '
          'symbolic medium parameters, every pair of block positions in a 2x2x2 mesh, all orders of the card '
          'kinds, with and without PML padding and PEC walls')
OUTSIDE = 'larger meshes; Debye and impedance objects (P10, P11); averaged media build option'
DM = (2, 2, 2)


def mats(B):
    a = simple(B.real('ea', 2.0, 5.0), B.real('sa', 0.1, 2.0), B.real('ma', 2.0, 5.0))
    b = simple(B.real('eb', 12.0, 15.0), B.real('sb', 10.1, 12.0), B.real('mb', 12.0, 15.0))
    return a, b


def run(B, cards, objs, a, b, ext='PMC', dm=DM):
    def body():
        g = Grid(B)
        dt = B.ld(B.g('dt'), 'f32')
        inner(g)
        m = paint(g, objs, faces_of(ext))
        check_media(B, g, m, dt)

    def inner(g):
        if 'PML' in str(ext):
            # judge the mesh proper; the padding is P03's
            lims = Grid.lims

            def lim(f, g=g):
                return [range(max(r[0], g.gi[2 * d]), min(r[-1], g.gi[2 * d + 1] - (0 if site2(f, (0, 0, 0))[d] == 0 else 1)) + 1)
                        for d, r in enumerate(lims(g, f))]
            g.lims = lim
    s2 = [mt_card(B, 'ma', a), mt_card(B, 'mb', b)] + cards
    run_mesh(B, mesh_text(B, dm, ext=ext, s2=s2, nt=1, ms=0.01), body)


def one(kind, axis=None, ext='PMC', what=None, dm=DM):
    def h(B):
        a, b = mats(B)
        box = sym_box(B, dm, 'b', kind, axis)
        if kind == 'volume':
            md, card = a, 'MB %s ma' % box_str(B, box)
        elif kind == 'surface':
            md, card = (PECM, 'TB %s PEC' % box_str(B, box)) if what != 'FREE' else (FREE, 'TB %s FREE_SPACE' % box_str(B, box))
        else:
            md, card = (PECM, 'TW %s PEC' % box_str(B, box)) if what != 'FREE' else (FREE, 'TW %s FREE_SPACE' % box_str(B, box))
        pre = (([0, dm[0], 0, dm[1], 0, dm[2]], b, '111111'))
        cards = ['MB 0 %d 0 %d 0 %d mb' % dm, card]
        run(B, cards, [pre, (box, md, '111111')], a, b, ext, dm)
    return h


def masks(lo, hi):
    def h(B):
        a, b = mats(B)
        k = B.fork(B.int('mask', lo, hi))
        mask = format(k, '06b')
        box = [0, 2, 0, 1, 1, 3]
        # PMC walls so that faces on the mesh limits count too
        run(B, ['MB %s ma %s' % (box_str(B, box), mask)], [(box, a, mask)], a, b, dm=(3, 2, 3))
    return h


def pair(x):
    """Every pair of block positions; x: extent of the first block along x."""
    def h(B):
        a, b = simple(3.0, 1.0, 4.0), simple(13.0, 11.0, 14.0)
        p = list(x)
        for d in (1, 2):
            lo, hi = B.int('p_lo%d' % d, 0, DM[d] - 1), B.int('p_hi%d' % d, 1, DM[d])
            B.assume(hi > lo)
            p += [B.fork(lo), B.fork(hi)]
        q = sym_box(B, DM, 'q')
        run(B, ['MB %s ma' % box_str(B, p), 'MB %s mb' % box_str(B, q)], [(p, a, '111111'), (q, b, '111111')], a, b)
    return h


def order(perm):
    """Cards of the three kinds in any order: blocks, then surfaces, then wires are applied."""
    cs = [('MB', [0, 2, 0, 2, 0, 1], 'A'), ('MB', [1, 2, 0, 2, 0, 2], 'B'), ('TB', [0, 2, 0, 1, 1, 1], 'PEC'),
          ('TB', [1, 1, 0, 2, 0, 2], 'FREE_SPACE'), ('TW', [0, 2, 1, 1, 1, 1], 'FREE_SPACE'), ('TW', [1, 1, 0, 2, 0, 0], 'PEC')]

    def h(B):
        a, b = mats(B)
        md = {'A': a, 'B': b, 'PEC': PECM, 'FREE_SPACE': FREE}
        nm = {'A': 'ma', 'B': 'mb'}
        seq = [cs[i] for i in perm]
        objs = [(c[1], md[c[2]], '111111') for k in ('MB', 'TB', 'TW') for c in seq if c[0] == k]
        run(B, ['%s %s %s' % (c[0], box_str(B, c[1]), nm.get(c[2], c[2])) for c in seq], objs, a, b)
    return h


def wt(kind):
    """Wire and boundary tags defined by the mesh."""
    def h(B):
        a, b = mats(B)
        ax = B.fork(B.int('axis', 0, 2))
        box = [1, 1, 1, 1, 1, 1]
        box[2 * ax] = 0
        if kind == 'WT':
            cards = ['WT thing PEC', 'TW %s thing' % box_str(B, box)]
        else:
            box[(2 * ax + 2) % 6] = 0
            cards = ['BT thing PEC', 'TB %s thing' % box_str(B, box)]
        run(B, cards, [(box, PECM, '111111')], a, b)
    return h


def cases(tier):
    out = []
    for e in ('PMC', 'PEC', ('PEC', 'PMC', 'PERIODIC', 'PERIODIC', 'MUR', 'PEC'), ('PML 2', 'PML 3', 'PMC', 'PML 1', 'PEC', 'PML 4')):
        t = e if isinstance(e, str) else '/'.join(e)
        out.append(Case('block ' + t, one('volume', ext=e)))
        for ax in range(3):
            for w in ('PEC', 'FREE') if e == 'PMC' or tier == 'thorough' else ('PEC',):
                out.append(Case('surface %s %s %s' % ('xyz'[ax], w, t), one('surface', ax, e, w)))
                out.append(Case('wire %s %s %s' % ('xyz'[ax], w, t), one('line', ax, e, w)))
    for lo in range(0, 64, 8):
        out.append(Case('masks %d' % lo, masks(lo, lo + 7)))
    for x in ((0, 1), (1, 2), (0, 2)):
        out.append(Case('overlap %d-%d' % x, pair(x)))
    ps = [p for p in itertools.permutations(range(6))]
    step = 61 if tier == 'quick' else 7
    for p in ps[::step]:
        out.append(Case('order %s' % ''.join(map(str, p)), order(p)))
    out.append(Case('wire tag', wt('WT')))
    out.append(Case('boundary tag', wt('BT')))
    return out
