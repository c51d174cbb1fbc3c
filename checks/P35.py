"""P35: a closed perfectly conducting surface separates the fields on its two sides."""
from checks.common import *
from checks.P02 import impose
from checks.P20 import SRC

BOUNDS = ('closed PEC boxes of every size and position along each axis (symbolic corners split by the solver) and PEC planes across the mesh of 4x3x3 graded cells, built of six surface cards in any of three orders; '
          'arbitrary field states on both sides (symbolic samples), sources of 19 kinds on the other side with symbolic size; walls of every type; media, wires and a second box on either side; 2 to 4 steps')
OUTSIDE = 'larger meshes; longer runs; PEC boxes crossed by sources or by absorbing layers'
DM = (4, 3, 3)


def shell(b, order=0):
    out = []
    for d in range(3):
        for s in (0, 1):
            q = list(b)
            q[2 * d] = q[2 * d + 1] = b[2 * d + s]
            out.append(q)
    return [out, out[::-1], out[1::2] + out[::2]][order]


def run(box, ext='PEC', cards=(), objs=(), src=None, nt=2, order=0, watch='in', planes=None):
    """watch: the side judged; the state and the sources of the other side must not matter."""
    def h(B):
        bx = box(B) if callable(box) else box
        sh_ = shell(bx, order) if planes is None else planes
        lines = mlines(DM)

        def go(disturb):
            s2 = list(cards) + ['TB %s PEC' % box_str(B, q) for q in sh_]
            if src and disturb:
                s2 += ['WF w GAUSSIAN_PULSE 1.0 1e-11 2e-11', src % ('src', B.tok(B.real('size', 0.0, 2.0)))]

            def body():
                g = Grid(B)
                types = [x.split()[0] for x in faces_of(ext)]
                off = (g.gi[0], g.gi[2], g.gi[4])
                m = paint(g, list(objs) + [(q, PECM, '111111') for q in sh_], [t if t == 'PEC' else 'PMC' for t in types])

                def side(f, c):
                    """1 inside, 0 on the conductor, -1 outside."""
                    p = [site2(f, c)[d] - 2 * off[d] for d in range(3)]
                    if all(2 * bx[2 * d] < p[d] < 2 * bx[2 * d + 1] for d in range(3)):
                        return 1
                    if all(2 * bx[2 * d] <= p[d] <= 2 * bx[2 * d + 1] for d in range(3)):
                        return 0
                    return -1
                S = {f: {c: 0.0 for c in g.cells()} for f in E3 + H3}
                mine = 1 if watch == 'in' else -1
                for f in E3 + H3:
                    k = 1.0 if f[0] == 'E' else 1.0 / ETA0
                    for c in g.idx(f):
                        t = side(f, c)
                        if t == mine or (t == -mine and disturb):
                            S[f][c] = B.real('%s_%d_%d_%d' % ((f,) + c), -k, k)
                impose(S, g.go, types)
                for f in E3:
                    for c in g.idx(f):
                        if m[f, c] == PECM:
                            S[f][c] = 0.0
                ghost_h(S, g.go, types)
                for f in E3 + H3:
                    for c in g.cells():
                        g.set(f, *c, S[f][c])
                B.real_propagate()
                B.saved = {(f, c): g.get(f, *c) for f in E3 + H3 for c in g.idx(f) if side(f, c) == mine or (f[0] == 'E' and side(f, c) == 0 and m[f, c] == PECM)}
            run_mesh(B, mesh_text(B, DM, ext=ext, s2=s2, nt=nt, lines=lines), body)
            return dict(B.saved)
        a, b = go(True), go(False)
        B.check('same places', set(a) == set(b) and len(a) > 8)
        for k in a:
            B.near('%s%s' % k, a[k], b[k], scale=1.0 if k[0][0] == 'E' else 1.0 / ETA0)
    return h


def along(axis):
    def box(B):
        b = [1, 3, 1, 2, 1, 2]
        lo, hi = B.int('lo', 0, DM[axis] - 1), B.int('hi', 1, DM[axis])
        B.assume(hi > lo)
        b[2 * axis], b[2 * axis + 1] = B.fork(lo), B.fork(hi)
        return b
    return box


BOX = [1, 3, 1, 3, 0, 2]
PML = 'PML 2 2 1.0 1e-3 2.0'
WALLS = {'PEC': 'PEC', 'PMC': 'PMC', 'PERIODIC': 'PERIODIC', 'MUR': 'MUR', 'PML': PML, 'mixed': ('PERIODIC', 'PERIODIC', 'MUR', 'PMC', 'PEC', PML)}
MUD = simple(6.0, 0.5, 1.5)
# on the low x side of the box
OUT = {'E': 'EX 0 1 1 1 1 1 %s EX w %s', '=E': 'EX 0 0 1 2 2 2 %s =EY w %s', 'H': 'EX 0 0 1 2 1 1 %s HX w %s', 'J': 'EX 0 1 1 1 1 2 %s JX w %s', 'I': 'EX 0 0 1 1 1 2 %s IZ w %s', 'IM': 'EX 0 0 1 2 1 2 %s IMX w %s',
       'ID': 'EX 0 0 1 1 1 2 %s IDZ w %s', 'V': 'EX 0 1 1 1 2 2 %s VX w %s', '=V': 'EX 0 0 2 2 1 2 %s =VZ w %s', 'VR': 'EX 0 1 1 1 1 1 %s VRX w 50.0 %s', 'IG': 'EX 0 0 1 1 1 2 %s IGZ w 120.0 %s',
       'PW': 'PW 0 4 0 3 0 3 %s w 60 30 45 111111 %s', 'PW0': 'PW 0 1 0 3 0 3 %s w 90 0 90 100000 %s'}
INSIDE = {'E': 'EX 2 3 2 2 1 1 %s EX w %s', 'J': 'EX 1 2 2 2 1 1 %s JX w %s', 'IM': 'EX 2 2 1 2 1 2 %s IMX w %s', 'VR': 'EX 2 2 2 2 0 1 %s VRZ w 75.0 %s', '=H': 'EX 2 2 1 2 0 1 %s =HX w %s'}


def cases(tier):
    out = []
    for n, w in WALLS.items():
        for s in ('in', 'out'):
            if n != 'PML':
                out.append(Case('walls %s, %s' % (n, s), run([1, 3, 1, 2, 1, 2], w, watch=s), validate=1))
    for a in range(3):
        for s in ('in', 'out'):
            out.append(Case('box along %s, %s' % ('xyz'[a], s), run(along(a), 'PMC', watch=s, order=a, nt=2), validate=1))
    cards = ['MT mud SIMPLE 6.0 0.5 1.5', 'MB 0 4 0 2 0 3 mud']
    for s in ('in', 'out'):
        out.append(Case('media, %s' % s, run(BOX, 'PMC', cards, [([0, 4, 0, 2, 0, 3], MUD, '111111')], watch=s, nt=3), validate=1))
        out.append(Case('media in layers, %s' % s, run([1, 3, 1, 2, 1, 2], PML, watch=s, nt=2), validate=1))
    for n, c in OUT.items():
        out.append(Case('source %s outside' % n, run([2, 4, 0, 3, 1, 3] if n != 'PW' else [1, 3, 1, 2, 1, 2], 'PMC' if n != 'PW' else PML, src=c, nt=4), validate=1))
    for n, c in INSIDE.items():
        out.append(Case('source %s inside' % n, run(BOX, 'PMC', src=c, nt=4, watch='out'), validate=1))
    for x in (1, 2, 3):
        for s in ('in', 'out'):
            out.append(Case('plane x=%d, %s' % (x, s), run([0, x, 0, 3, 0, 3], 'PMC', planes=[[x, x, 0, 3, 0, 3]], watch=s), validate=1))
            out.append(Case('plane z=%d in two parts, %s' % (min(x, 2), s), run([0, 4, 0, 3, 0, min(x, 2)], 'PEC', planes=[[0, x, 0, 3] + [min(x, 2)] * 2, [x, 4, 0, 3] + [min(x, 2)] * 2], watch=s), validate=1))
    return out
