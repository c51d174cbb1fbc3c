"""P29: the grid dump (-g) shows the medium the simulation uses at every field component."""
from checks.common import *

BOUNDS = ('every position of a block, a surface and a wire in a 2x2x2 mesh (corner indices symbolic, split by the solver), masked blocks; relative permittivity and '
          'permeability in [1.01,100] and conductivity in [0.01,100] S/m symbolic; cell size in [1e-4,10] m symbolic; all wall types')
OUTSIDE = ('media within 1e-3 of free space or with conductivities that make them indistinguishable from PEC; Debye media; components inside absorbing layers '
           'and beyond the outer faces; larger meshes')
DM = (2, 2, 2)


def kind(md, f):
    """-> the documented character."""
    if md == PECM:
        return '*' if f[0] == 'E' else '.'
    if md == FREE or md[0] != 'SIMPLE':
        return '.'
    if f[0] == 'E':
        return '.' if md[1] == 1.0 and md[2] == 0.0 else 'o'
    return '.' if md[3] == 1.0 else 'o'


def judge(B, inside=None):
    """Each row of a file: k and j descend from the high faces to one below the low ones, i ascends."""
    go, m = B.saved['go'], B.saved['m']
    for f in E3 + H3:
        ls = B.lines('media%s.dat' % (f[0] + f[1]))
        n = (go[5] - go[4] + 2) * (go[3] - go[2] + 2)
        B.check('%s has a row for each j and k' % f, len([l for l in ls if l]) == n)
        it = iter(ls)
        rows = {(j, k): next(it) for k in range(go[5], go[4] - 2, -1) for j in range(go[3], go[2] - 2, -1)}
        for (h, c), md in m.items():
            if h != f or inside and not inside(f, c):
                continue
            i, j, k = c
            B.check('%s%s shows %s' % (f, c, kind(md, f)), rows[j, k][0][i - go[0] + 1] == kind(md, f))


def run(B, s2, objs, ext='PMC', dm=DM, ms=0.01, opt='-g', inside=None):
    def body():
        g = Grid(B)
        B.saved['go'] = tuple(g.go)
        B.saved['gi'] = tuple(g.gi)
        B.saved['m'] = paint(g, objs, faces_of(ext))
    run_mesh(B, mesh_text(B, dm, ext=ext, s2=s2, nt=1, ms=ms), body, [opt])
    judge(B, inside)


def mats(B):
    return (simple(B.real('ea', 1.01, 100.0), B.real('sa', 0.0, 100.0), B.real('ma', 1.01, 100.0)),
            simple(1.0, B.real('sb', 0.01, 100.0), 1.0))


def one(obj, axis=None, ext='PMC', opt='-g', x=None):
    def h(B):
        a, b = mats(B)
        box = sym_box(B, DM, 'b', obj, axis) if not x else list(x) + sym_box(B, (1, 2, 2), 'b')[2:]
        h = B.real('h', 1e-4, 10.0)
        if obj == 'volume':
            md, card = a, 'MB %s ma' % box_str(B, box)
        elif obj == 'surface':
            md, card = PECM, 'TB %s PEC' % box_str(B, box)
        else:
            md, card = PECM, 'TW %s PEC' % box_str(B, box)
        whole = [0, DM[0], 0, DM[1], 0, DM[2]]
        run(B, [mt_card(B, 'ma', a), mt_card(B, 'mb', b), 'MB 0 2 0 2 0 2 mb', card],
            [(whole, b, '111111'), (box, md, '111111')], ext, ms=h, opt=opt)
    return h


def size(lo, hi, md):
    """One cell of a medium in free space, cells of any size."""
    def h(B):
        a = md(B)
        run(B, [mt_card(B, 'ma', a), 'MB 0 1 0 1 0 1 ma'], [([0, 1, 0, 1, 0, 1], a, '111111')], ms=B.real('h', lo, hi))
    return h


def masks(lo, hi):
    def h(B):
        a, _ = mats(B)
        k = format(B.fork(B.int('mask', lo, hi)), '06b')
        box = [0, 2, 0, 1, 1, 3]
        run(B, [mt_card(B, 'ma', a), 'MB %s ma %s' % (box_str(B, box), k)], [(box, a, k)], dm=(3, 2, 3), opt='--dump-grid')
    return h


def empty(ext, dm=(2, 3, 1)):
    def h(B):
        def inside(f, c):
            gi = B.saved['gi']
            p = site2(f, c)
            return all(2 * gi[2 * d] <= p[d] <= 2 * gi[2 * d + 1] for d in range(3))
        run(B, ['TW 0 %d 1 1 0 0 PEC' % dm[0]], [([0, dm[0], 1, 1, 0, 0], PECM, '111111')], ext, dm=dm, ms=B.real('h', 1e-4, 10.0), inside=inside)
    return h


def cases(tier):
    out = [Case('block %d-%d' % x, one('volume', x=x)) for x in ((0, 1), (1, 2), (0, 2))]
    for ax in range(3):
        out.append(Case('surface %s' % 'xyz'[ax], one('surface', ax, 'PEC', '--dump-grid')))
        out.append(Case('wire %s' % 'xyz'[ax], one('line', ax)))
    for n, md in (('dielectric', lambda B: simple(B.real('e', 1.01, 100.0), 0.0, 1.0)), ('magnetic', lambda B: simple(1.0, 0.0, B.real('m', 1.01, 100.0))),
                  ('conductor', lambda B: simple(1.0, B.real('s', 0.01, 100.0), 1.0)), ('vacuum', lambda B: simple(1.0, 0.0, 1.0))):
        for lo in (1e-6, 1e-4, 1e-2, 1.0, 1e3)[:4 if n == 'conductor' else 5]:
            out.append(Case('%s in cells above %g' % (n, lo), size(lo, 100 * lo, md)))
    for lo in range(0, 64, 16):
        out.append(Case('masks %d' % lo, masks(lo, lo + 15)))
    for e in ('PEC', 'PERIODIC', 'MUR', ('PML 1', 'PEC', 'PMC', 'PML 2', 'PERIODIC', 'PERIODIC'), 'PML 2'):
        out.append(Case('walls %s' % (e if isinstance(e, str) else '/'.join(e)), empty(e)))
    return out
