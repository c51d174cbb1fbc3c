"""P27: the mesh line files and the physical locations of nodes, edges and faces agree with the mesh cards."""
from checks.common import *

BOUNDS = ('XL/YL/ZL meshes of 1 to 4 cells with symbolic coordinates on all axes, any sign of the origin; MS meshes with one or three symbolic lengths; all face types (padding of the grid by layers); '
          'the line files row by row; headers of ASCII observers at every node (symbolic position); locations of all six components at every site of the mesh and one cell around it; '
          'fractional node positions symbolic over the mesh and two cells beyond')
OUTSIDE = 'more than 4 cells per axis; the number of digits printed'
PT = 'OP %s p TDOM_ASCII'


def lines_in(B, dm, kind, base=0.0):
    """Symbolic mesh lines: (lines, keyword arguments of mesh_text)."""
    if kind == 'lines':
        ls = []
        for a in range(3):
            l = [B.real('o' + 'xyz'[a], -0.5, 0.5)] if base else [0.0]
            for i in range(dm[a]):
                l.append(l[-1] + B.real('d%s%d' % ('xyz'[a], i), 0.01 * (1 + a + 3 * i), 0.0105 * (1 + a + 3 * i)))
            ls.append(l)
        return ls, dict(lines=ls)
    n = 3 if kind == 'ms3' else 1
    d = [B.real('d%d' % i, 0.01, 0.1) for i in range(n)]
    dd = d if n == 3 else d * 3
    return [[i * x for i in range(m + 1)] for m, x in zip(dm, dd)], dict(ms=d if n == 3 else d[0])


def present(B, fn):
    return not B.sym or fn in B.rt.prog.fdef


def files(dm, kind, ext, base=0.0, args=()):
    def h(B):
        ls, kw = lines_in(B, dm, kind, base)
        pos = [B.fork(B.int('p%d' % d, 0, dm[d])) if max(dm) <= 2 else B.fork(B.int('p', 0, min(dm))) for d in range(3)]
        run_mesh(B, mesh_text(B, dm, ext=ext, nt=1, s2=[PT % box_str(B, [pos[0]] * 2 + [pos[1]] * 2 + [pos[2]] * 2)], **kw), None, args)
        for a in range(3):
            t = table(B, 'xyz'[a] + 'lines.dat')
            B.check('%s lines' % 'xyz'[a], len(t) == dm[a] + 1 and all(len(r) == 2 for r in t))
            for i, r in enumerate(t[:dm[a] + 1]):
                B.check('row number', B.num(r[0]) == i)
                B.near('%s line %d' % ('xyz'[a], i), B.num(r[1]), ls[a][i], scale=0.5)
        hd = [r for r in B.lines('eh_p_td.asc') if r and r[0] == '#'][0]
        v = parts(hd[1:])
        B.check('header has six numbers', len(v) == 6)
        for d in range(3):
            B.check('header node', v[d] == pos[d])
            B.near('header location %d' % d, v[3 + d], ls[d][pos[d]], scale=0.5)
    return h


def parts(toks):
    """Numbers of '(1,1,1)->(0.1,0.2,0.3)' in order, symbolic ones kept."""
    import re
    out = []
    for t in toks:
        for p in (t if t.__class__ is tuple else (t,)):
            if p.__class__ is str:
                out += [float(x) for x in re.findall(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?', p.replace('->', ' '))]
            else:
                out.append(p)
    return out


def coord(ls, h, i, wrap=False):
    """Coordinate of mesh line i; the outermost edges repeat beyond the mesh (periodic: the far edges follow).  h: half an edge further."""
    n = len(ls) - 1

    def at(j):
        if wrap and (j < 0 or j > n):
            return ls[j % n] + (j // n) * (ls[n] - ls[0])
        if j < 0:
            return ls[0] + j * (ls[1] - ls[0])
        if j > n:
            return ls[n] + (j - n) * (ls[n] - ls[n - 1])
        return ls[j]
    return 0.5 * (at(i) + at(i + 1)) if h else at(i)


def locations(dm, kind, ext, base=0.0):
    """Every component one cell around the mesh."""
    def h(B):
        ls, kw = lines_in(B, dm, kind, base)

        def body():
            g = Grid(B)
            r, q = B.new('f32', 6), B.new('i32', 6)
            off = (g.gi[0], g.gi[2], g.gi[4])
            for n, f in enumerate(E3 + H3):
                a = 'xyz'.index(f[1])
                for c in itertools.product(*[range(-1, m + 1) for m in dm]):
                    gc = [c[d] + off[d] for d in range(3)]
                    half = [(d == a) == (f[0] == 'E') for d in range(3)]
                    if present(B, 'getFieldPhysicalLocation'):
                        B.call('getFieldPhysicalLocation', r, n, *gc)
                        for d in range(3):
                            B.near('%s%s %s' % (f, c, 'xyz'[d]), B.ld(r + 4 * d, 'f32'), coord(ls[d], half[d], c[d], ext == 'PERIODIC'), scale=0.5)
                    if present(B, 'getFieldIndexLocation'):
                        B.call('getFieldIndexLocation', r, n, *gc)
                        for d in range(3):
                            B.near('%s%s index %s' % (f, c, 'xyz'[d]), B.ld(r + 4 * d, 'f32'), gc[d] + (0.5 if half[d] else 0.0), scale=1.0)
            for c in itertools.product(*[range(0, m + 1) for m in dm]):
                if present(B, 'getNodeLocation'):
                    B.call('getNodeLocation', r, *[c[d] + off[d] for d in range(3)])
                    for d in range(3):
                        B.near('node %s' % (c,), B.ld(r + 4 * d, 'f32'), ls[d][c[d]], scale=0.5)
                for d in range(3):
                    B.st(q + 4 * d, 'i32', c[d])
                if present(B, 'getMeshNodeCoords'):
                    B.call('getMeshNodeCoords', r, q)
                    for d in range(3):
                        B.near('mesh node %s' % (c,), B.ld(r + 4 * d, 'f32'), ls[d][c[d]], scale=0.5)
                b = [0, c[0], min(1, c[1]), c[1], 0, c[2]]
                for i in range(6):
                    B.st(q + 4 * i, 'i32', b[i])
                if present(B, 'bboxInPhysicalUnits'):
                    B.call('bboxInPhysicalUnits', r, q)
                    for i in range(6):
                        B.near('box corner %s' % (b,), B.ld(r + 4 * i, 'f32'), ls[i // 2][b[i]], scale=0.5)
            for d in range(3):
                for i in range(dm[d] + 1):
                    for fn, args in (('getMeshLineCoord' + 'XYZ'[d], (i,)), ('indexInPhysicalUnits', (i, d))):
                        if present(B, fn):
                            B.near('%s %d' % (fn, i), B.call(fn, *args, ret='f32'), ls[d][i], scale=0.5)
        run_mesh(B, mesh_text(B, dm, ext=ext, nt=1, **kw), body)
    return h


def fractions(dm, axis, piece):
    """A node at a fractional index is placed linearly between its lines, and beyond the mesh on the continued end edges."""
    def h(B):
        ls = lines_of(dm, (0.01, 0.02, 0.03))
        ls[axis] = [x * x + 0.1 * x for x in ls[axis]]

        def body():
            if not present(B, 'nodeInPhysicalUnits'):
                return
            r, q = B.new('f32', 3), B.new('f32', 3)
            u = B.real('u', piece + 0.01, piece + 0.99)
            x = [0.5 if d != axis else u for d in range(3)]
            for d in range(3):
                B.st(q + 4 * d, 'f32', x[d])
            B.call('nodeInPhysicalUnits', r, q)
            for d in range(3):
                i = piece if d == axis else 0
                j = min(max(i, 0), dm[d] - 1)
                w = ls[d][j] + (x[d] - j) * (ls[d][j + 1] - ls[d][j])
                B.near('axis %d' % d, B.ld(r + 4 * d, 'f32'), w, scale=0.1)
        run_mesh(B, mesh_text(B, dm, ext='PEC', nt=1, lines=ls), body)
    return h


def cases(tier):
    cs = []
    exts = ('PEC', 'PMC', 'PERIODIC', 'MUR', 'PML 2 2 1.0 1e-3 1.0', ('PML 3 2 1.0 1e-3 1.0', 'PEC', 'PMC', 'PML 1 2 1.0 1e-3 1.0', 'PML 2 2 1.0 1e-3 1.0', 'MUR'))
    for n, ext in enumerate(exts):
        nm = ext if isinstance(ext, str) else 'mixed'
        for dm in ((2, 2, 2), (1, 3, 2), (2, 1, 4)):
            if n in (0, 4) or dm == (2, 1, 4):
                cs.append(Case('files lines %s %s' % (dm, nm), files(dm, 'lines', ext, 1.0)))
        cs.append(Case('files ms1 ' + nm, files((2, 3, 1), 'ms1', ext)))
        cs.append(Case('files ms3 ' + nm, files((1, 2, 3), 'ms3', ext)))
        cs.append(Case('locations lines ' + nm, locations((2, 1, 3), 'lines', ext, 1.0)))
    cs.append(Case('locations lines', locations((3, 2, 2), 'lines', 'PEC')))
    cs.append(Case('locations ms1', locations((2, 3, 1), 'ms1', 'PEC')))
    cs.append(Case('locations ms3', locations((1, 2, 3), 'ms3', 'PML 2 2 1.0 1e-3 1.0')))
    for a in range(3):
        dm = [2, 2, 2]
        dm[a] = 3
        for p in range(-2, 5):
            cs.append(Case('fraction %d %d' % (a, p), fractions(tuple(dm), a, p)))
    return cs
