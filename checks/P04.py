"""P04: first order Mur absorbing faces."""
from checks.common import *

BOUNDS = ('1 to 3 steps from an arbitrary symbolic field state; every subset of the six faces (63), the others PEC, PMC or periodic; graded and uniform meshes of 2 to 4 cells per axis, '
          'symbolic cell lengths on single faces; media next to the face')
OUTSIDE = 'larger grids; sources, dispersive media or surface impedance sheets within one cell of the face; Mur faces beside PML layers; one cell between opposite Mur faces'


class MurRef(Ref):
    """Edges on exactly one Mur face follow the Mur formula; edges shared by two Mur faces keep their value."""

    def mur_faces(self, f, c):
        p, a = site2(f, c), 'xyz'.index(f[1])
        return [s for s in range(6) if self.types[s] == 'MUR' and s // 2 != a and p[s // 2] == 2 * self.go[s]]

    def step_e(self):
        S, new = self.S, {f: dict(self.S[f]) for f in E3}
        on = {}
        for d, f in enumerate(E3):
            for c in self.ins[f]:
                m = self.mur_faces(f, c)
                if m:
                    on[f, c] = m
                    continue
                a, b = self.ab(f, c)
                v = a * S[f][c]
                if b.__class__ is not float or b != 0.0:
                    v = v + b * curl_h(S, c, d, self.s.dh)
                new[f][c] = v
        for (f, c), m in on.items():
            if len(m) > 1:
                continue
            s = m[0]
            if self.wall(f, c):
                new[f][c] = 0.0
                continue
            d = s // 2
            q = sh(c, d, -1 if s % 2 else 1)
            cell = self.s.de[d][self.go[s] - s % 2]
            n, dd = C0 * self.dt - cell, C0 * self.dt + cell
            # E(face, new) = E(inside, old) + (c dt - d)/(c dt + d) (E(inside, new) - E(face, old))
            new[f][c] = S[f][q] + (n / dd) * (new[f][q] - S[f][c])
        S.update(new)


def relation(face):
    """The face cell has a symbolic length: the new face value follows from the code's own values one cell inside."""
    def h(B):
        d = face // 2
        x = B.real('face cell', 0.02, 0.03)
        lines = [[0.0, 0.01, 0.02, 0.03] for _ in range(3)]
        lines[d] = [0.0, x, x + 0.01, x + 0.02] if face % 2 == 0 else [0.0, 0.01, 0.02, x + 0.02]
        types = ['PEC'] * 6
        types[face] = 'MUR'

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            st = {}
            for f in E3 + H3:
                for c in g.idx(f):
                    st[f, c] = ((sum(c) * 7 + c[0] + ord(f[1])) % 5 - 2) * 0.5 * (1.0 if f[0] == 'E' else 1.0 / 256)
                    if f[0] == 'E' and any('xyz'.index(f[1]) != e and types[2 * e + q] == 'PEC' and c[e] == g.go[2 * e + q] for e in range(3) for q in (0, 1)):
                        st[f, c] = 0.0
                    g.set(f, *c, st[f, c])
            B.real_propagate()
            for f in E3:
                for c in g.idx(f):
                    if 'xyz'.index(f[1]) != d and c[d] == g.go[face]:
                        q = sh(c, d, -1 if face % 2 else 1)
                        n, dd = C0 * dt - x, C0 * dt + x
                        B.near('%s%s' % (f, c), g.get(f, *c) * dd, st[f, q] * dd + n * (g.get(f, *q) - st[f, c]), scale=0.2)
        run_mesh(B, mesh_text(B, (3, 3, 3), ext=types, nt=1, lines=lines), body)
    return h


def run(dm, types, nt=2, kind='graded', objs=()):
    def h(B):
        lines = mlines(dm, kind)
        objs2 = [(b, m, '111111') for b, m in objs]

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            r = MurRef(g, lines, types, dt, paint(g, objs2, types))
            ins = {f: set(g.idx(f)) for f in E3 + H3}
            for f in E3 + H3:
                sc = 1.0 if f[0] == 'E' else 1.0 / ETA0
                for c in g.cells():
                    wall = f[0] == 'E' and r.wall(f, c) or f[0] == 'H' and any(types[2 * d + q] == 'PEC' and site2(f, c)[d] == 2 * g.go[2 * d + q] for d in range(3) for q in (0, 1))
                    v = B.real('%s_%d_%d_%d' % ((f,) + c), -sc, sc) if c in ins[f] and not wall else 0.0
                    r.S[f][c] = v
            for d in range(3):
                if types[2 * d] == 'PERIODIC':
                    for f in E3 + H3:
                        for c in ins[f]:
                            if site2(f, c)[d] == 2 * g.go[2 * d + 1]:
                                r.S[f][c] = r.S[f][sh(c, d, g.go[2 * d] - g.go[2 * d + 1])]
            ghost_h(r.S, g.go, types)
            for f in E3 + H3:
                for c in g.cells():
                    g.set(f, *c, r.S[f][c])
            B.real_propagate()
            r.run(nt)
            r.compare(B, scale_e=4.0)
        media, cards = [], []
        for b, m in objs:
            if m == PECM:
                cards.append('MB %s PEC' % box_str(B, b))
            else:
                if m not in media:
                    media.append(m)
                cards.append('MB %s med%d' % (box_str(B, b), media.index(m)))
        cards = [mt_card(B, 'med%d' % n, m) for n, m in enumerate(media)] + cards
        run_mesh(B, mesh_text(B, dm, ext=types, s2=cards, nt=nt, lines=lines), body)
    return h


def cases(tier):
    out = []
    for mask in range(1, 64):
        wall = ('PEC', 'PMC')[mask % 2]
        t = ['MUR' if mask >> s & 1 else wall for s in range(6)]
        dm = [(2, 3, 2), (3, 2, 2), (2, 2, 3)][mask % 3]
        out.append(Case('mask %d' % mask, run(dm, t, 2), validate=1 if mask % 5 == 1 or tier == 'thorough' else 0))
        if tier == 'thorough':
            out.append(Case('mask %d three steps' % mask, run((2, 2, 2), ['MUR' if mask >> s & 1 else ('PMC', 'PEC')[mask % 2] for s in range(6)], 3, 'uniform')))
    for s in range(6):
        t = ['PEC'] * 6
        t[s] = 'MUR'
        out.append(Case('symbolic cells face %d' % s, relation(s)))
        out.append(Case('three steps face %d' % s, run((2, 2, 2), [x if x == 'MUR' else 'PMC' for x in t], 3, 'uniform')))
        b = [0, 2, 0, 2, 0, 2]
        b[2 * (s // 2)], b[2 * (s // 2) + 1] = (0, 1) if s % 2 == 0 else (1, 2)
        out.append(Case('media at face %d' % s, run((2, 2, 2), t, 2, objs=[(b, simple(3.0, 0.01, 2.0))])))
    for d in range(3):
        t = ['PERIODIC'] * 6
        t[2 * d] = t[2 * d + 1] = 'MUR'
        out.append(Case('periodic sides %d' % d, run((2, 2, 2), t, 2)))
        t = ['MUR'] * 6
        t[2 * d] = t[2 * d + 1] = 'PERIODIC'
        out.append(Case('periodic ends %d' % d, run((2, 2, 2), t, 2)))
    return out
