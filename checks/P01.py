"""P01: one time step is the leapfrog Yee update on every component, for every field state, coefficient and grading."""
from checks.common import *

BOUNDS = ('one arbitrary time step from an arbitrary field state (every E and H sample, every update coefficient and every '
          'mesh increment symbolic) on grids up to 7x3x4, 2x2x21 cells, open at all sides (PEC walls with arbitrary coefficients)')
OUTSIDE = 'larger grids; sources, PML, Mur, dispersive and SIBC regions (own properties)'


def step(dm, sym_lines=True):
    def h(B):
        lines = graded(B, dm, sym=sym_lines)

        def body():
            g = Grid(B)
            go = g.go
            st = g.fill()
            co = {}
            for a in 'xyz':
                for n in ('alphaE', 'betaE', 'gammaH'):
                    co[n + a] = g.fill(-1, 1, names=(n + a,))[n + a]
            B.real_propagate()
            s = Steps(lines)
            E, H = {f: dict(st[f]) for f in E3}, {f: st[f] for f in H3}
            for d, f in enumerate(E3):
                for c in g.idx(f):
                    E[f][c] = co['alphaE' + f[1]][c] * st[f][c] + co['betaE' + f[1]][c] * curl_h(H, c, d, s.dh)
            H2 = {f: dict(st[f]) for f in H3}
            for d, f in enumerate(H3):
                for c in g.idx(f):
                    H2[f][c] = st[f][c] - co['gammaH' + f[1]][c] * curl_e(E, c, d, s.de)
            for f in E3 + H3:
                ref = E if f[0] == 'E' else H2
                for c in g.idx(f):
                    B.near('%s%s' % (f, c), g.get(f, *c), ref[f][c], scale=1.0 + abs_sum(s, f))
        B.mesh('m.mesh', mesh_text(B, dm, ext='PEC', nt=1, lines=lines))
        rc = B.main(['m.mesh'], body)
        B.check('run completes', rc == 0)
    return h


def abs_sum(s, f):
    return 1.0


def cases(tier):
    dms = [(3, 2, 4), (1, 1, 1), (7, 1, 2), (2, 7, 1), (1, 2, 7)]
    if tier == 'thorough':
        dms += [(2, 2, 21), (21, 2, 2), (2, 21, 2), (7, 3, 4), (4, 5, 6)]
    return [Case('step %dx%dx%d' % d, step(d)) for d in dms]
