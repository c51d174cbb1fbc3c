"""P33: reciprocity: the voltage at edge b from a current in edge a is the voltage at a from the same current in b."""
from checks.common import *
from checks.P20 import FILES

BOUNDS = ('every pair of interior edges (or of a sample of 12) of meshes of 2 to 3 graded cells per axis, 3 to 5 steps from rest; permittivity, permeability and conductivity of two blocks, source size and the '
          'resistance of a lumped load symbolic; Debye media with real and complex poles (sources outside them), impedance sheets on cubic meshes, wires, lumped loads; walls PEC, PMC, PERIODIC and PML')
OUTSIDE = 'Mur faces (the condition is not reciprocal); impedance sheets on graded meshes (the average over a face is not weighted by the cells); sources on outer faces, on impedance sheets, in Debye media and in magnetic currents; longer runs and larger meshes'


def edges_in(dm):
    """Interior edges: (axis, node)."""
    out = []
    for a in range(3):
        for c in itertools.product(*[range(dm[d]) if d == a else range(1, dm[d]) for d in range(3)]):
            out.append((a, c))
    return out


def run(cards=None, ext='PEC', dm=(3, 2, 2), nt=4, pick=None, files=None, skip=(), cubic=False):
    lines = mlines(dm) if not cubic else lines_of(dm, 0.01)

    def h(B):
        for n, t in (files or {}).items():
            B.put_file(n, t)
        cs = cards(B) if cards else []
        es = [e for e in edges_in(dm) if e not in skip]
        if pick:
            es = es[::max(1, len(es) // pick)]
        B.check('edges', len(es) >= 6)
        s = B.real('s', 0.5, 2.0)
        got = {}
        for a, c in es:
            box = ' '.join('%d %d' % (c[d], c[d] + (d == a)) for d in range(3))

            def body():
                g = Grid(B)
                B.real_propagate()
                B.saved = {(x, y): g.get('E' + 'xyz'[x], *[y[d] + g.gi[2 * d] for d in range(3)]) for x, y in es}
            run_mesh(B, mesh_text(B, dm, ext=ext, s2=cs + ['WF w GAUSSIAN_PULSE 1.0 1.5e-11 1e-11', 'EX %s src I%s w %s' % (box, 'XYZ'[a], B.tok(s))], nt=nt, lines=lines), body)
            got[a, c] = dict(B.saved)
        ln = {e: lines[e[0]][e[1][e[0]] + 1] - lines[e[0]][e[1][e[0]]] for e in es}
        for i, p in enumerate(es):
            for q in es[:i]:
                B.near('voltage at %s%s from %s%s' % ('xyz'[q[0]], q[1], 'xyz'[p[0]], p[1]), got[p][q] * ln[q], got[q][p] * ln[p], scale=1.0)
    return h


def blocks(B):
    a = simple(B.real('ea', 1.0, 8.0), B.real('sa', 0.0, 1.0), B.real('ma', 1.0, 4.0))
    b = simple(B.real('eb', 1.0, 8.0), 0.3, 1.5)
    return [mt_card(B, 'ma', a), mt_card(B, 'mb', b), 'MB 0 2 0 1 0 2 ma', 'MB 1 3 1 2 1 2 mb 101101']


def slab(B):
    """Blocks equal on opposite periodic faces."""
    a = simple(B.real('ea', 1.0, 8.0), B.real('sa', 0.0, 1.0), B.real('ma', 1.0, 4.0))
    return [mt_card(B, 'ma', a), 'MB 1 2 0 2 0 2 ma']


def fixed(*c):
    return lambda B: list(c)


def load(B):
    return ['WF zero GAUSSIAN_PULSE', 'EX 1 2 1 1 1 1 load VRX zero %s 0.0' % B.tok(B.real('r', 5.0, 500.0))]


DEBYE = ['MT fog DEBYE 2.0 0.05 1.0 2e10 -1e10 1e10 -5e10']
FOG = ['MT fog DEBYE "fog.prm"']
SHEET = fixed('BT film SIBC -0.6 0.1 0.1 -0.5', 'TB 1 1 0 2 0 2 film')
TILT = fixed('BT film SIBC -0.6 0.1 0.1 -0.5', 'TB 2 2 0 2 0 2 film -1 30')
WIRES = fixed('TW 0 1 1 1 1 1 PEC', 'TB 2 2 0 1 0 1 PEC', 'MB 1 3 0 2 1 2 PEC 110011')
PML = ('PML 2 3 1.0 1e-3 2.0', 'PML 1 2 1.5 1e-2 1.0', 'PEC', 'PML 3 2 1.0 1e-4 1.5', 'PMC', 'PML 2 2 1.0 -1.0 1.0')
WALLS = {'PEC': 'PEC', 'PMC': 'PMC', 'PERIODIC': 'PERIODIC', 'PML': PML, 'mixed': ('PERIODIC', 'PERIODIC', 'PMC', 'PEC', 'PML 2 2 1.0 1e-2 2.0', 'PEC')}


def sheet_edges(dm, n, at):
    return [e for e in edges_in(dm) if e[0] != n and e[1][n] == at]


def warmup(B):
    run(pick=6, nt=1)(B)


def cases(tier):
    out = []
    for n, w in WALLS.items():
        out.append(Case('empty, walls %s' % n, run(ext=w, nt=5), validate=1))
        out.append(Case('blocks, walls %s' % n, run(blocks if 'PERIODIC' not in w else slab, ext=w, nt=3, pick=12), validate=1))
        out.append(Case('wires, walls %s' % n, run(WIRES, ext=w, nt=5, pick=12), validate=1))
    for n, w in WALLS.items():
        if n in ('PEC', 'PMC', 'PERIODIC'):
            y = '0 2' if n == 'PERIODIC' else '0 1'
            dm = (4, 2, 2)
            inside = [e for e in edges_in(dm) if 1 <= e[1][0] and e[1][0] + (e[0] == 0) <= 2]
            for m, c, f in (('debye', DEBYE, None), ('debye file', FOG, {'fog.prm': FILES['fog.prm']})):
                out.append(Case('%s, walls %s' % (m, n), run(fixed(*c, 'MB 1 2 %s %s fog' % (y, y)), ext=w, dm=dm, nt=4, pick=12, files=f, skip=inside), validate=1))
        out.append(Case('load, walls %s' % n, run(load, ext=w, nt=4, pick=10), validate=1))
    for n in ('PEC', 'PMC', 'PERIODIC'):
        out.append(Case('sheet, walls %s' % n, run(SHEET, ext=n, nt=5, pick=12, skip=sheet_edges((3, 2, 2), 0, 1), cubic=True), validate=1))
        out.append(Case('tilted sheet, walls %s' % n, run(TILT, ext=n, nt=5, pick=12, skip=sheet_edges((3, 2, 2), 0, 2), cubic=True), validate=1))
    out.append(Case('cells 3x3x3', run(ext='PEC', dm=(3, 3, 3), nt=4, pick=18 if tier == 'quick' else None), validate=1))
    return out
