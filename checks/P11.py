"""P11: surface impedance sheets relate the tangential fields of both sides by their (recursive convolution) impedance matrix."""
import cmath
from checks.common import *
from checks.P02 import impose

BOUNDS = ('single sheets of 1 to 6 faces of each normal and orientation, angles from -180 to 180 degrees, across the mesh, with free rims, at PMC and periodic walls; two to six sheets meeting '
          'at edges of a box; graded meshes up to 3x3x3; 0 to 3 poles per element, 2x2 and 4x4 files and 4 or 8 scattering parameters; symbolic field state, 2 to 3 steps; '
          'scattering parameters symbolic two at a time in the impedances and the passivity test')
OUTSIDE = 'sheets over Debye or magnetic media; overlapping sheets; sheets in outer faces; sheets that touch only one of two periodic faces; the field normal to PEC walls where a sheet ends on them; more poles; longer runs; PML and Mur walls'

NORMAL = {0: 'x', 1: 'y', 2: 'z'}


def faces(box):
    """(normal, list of face cells)."""
    n = next(d for d in range(3) if box[2 * d] == box[2 * d + 1])
    rg = [range(box[2 * d], box[2 * d + 1] + (1 if d == n else 0)) for d in range(3)]
    return n, list(itertools.product(*rg))


class Filter:
    """Response of asymptote + sum r/(s-p) to a piecewise linear signal sampled every dt."""

    def __init__(self, asym, poles, dt):
        self.a = asym
        self.q = []
        for r, p in poles:
            b = p * dt
            e = cmath.exp(b)
            i1 = (e - (e - 1) / b) / p          # integral of exp(p t) t/dt over the step
            i0 = (e - 1) / p
            self.q.append((e, r * i1, r * (i0 - i1)))
        self.z = [(0.0, 0.0)] * len(poles)
        self.old = 0.0

    def step(self, x):
        y = self.a * x if self.a != 0 else 0.0
        for k, (q0, q1, q2) in enumerate(self.q):
            zr, zi = self.z[k]
            nr = q0.real * zr - q0.imag * zi + q1.real * self.old + q2.real * x
            ni = q0.real * zi + q0.imag * zr + q1.imag * self.old + q2.imag * x
            self.z[k] = (nr, ni)
            y = y + nr
        self.old = x
        return y


class Sheets(Ref):
    """Reference.  Sheet edges carry no mesh field; each side of each face has its own tangential field."""

    def __init__(self, g, lines, types, dt, sheets, S=None):
        """sheets: (box, orientation, angle in degrees, 4x4 matrix of (asymptote, [(residue, pole)]))."""
        super().__init__(g, lines, types, dt, paint(g, [(b, PECM, '111111') for b, o, a, z in sheets], faces_of(types)), S)
        off = (g.gi[0], g.gi[2], g.gi[4])
        self.faces = []
        self.normals = set()
        for box, orient, ang, z in sheets:
            n, fs = faces(box)
            for c in fs:
                c = tuple(c[d] + off[d] for d in range(3))
                self.normals.add((n, c))
                self.faces.append((n, c, orient, math.radians(ang), [[Filter(a, p, dt) for a, p in row] for row in z]))

    def zero_state(self):
        """Normal magnetic field of the sheets and electric field in them is zero from the start."""
        for n, c in self.normals:
            self.S[H3[n]][c] = 0.0

    def closed(self, n, w, c, side, rim):
        """The rim (0 low, 1 high, along axis w) of face c is closed on this side (0 low, 1 high) by a perpendicular sheet."""
        q = list(c)
        q[n] += side - 1
        q[w] += rim
        return (w, tuple(q)) in self.normals

    def sheet_e(self):
        self.et = []
        for n, c, orient, ang, z in self.faces:
            ax = ((n + 1) % 3, (n + 2) % 3)
            h = [[None, None], [None, None]]                # [side][axis]: field at the face centre
            for side in (0, 1):
                for i, w in enumerate(ax):
                    F = self.S[H3[w]]
                    t, k = 0.0, 0
                    for rim in (0, 1):
                        if not self.closed(n, w, c, side, rim):
                            t = t + F[sh(sh(c, n, side - 1), w, rim)]
                            k += 1
                    h[side][i] = t * (1.0 / k) if k else 0.0
            # side a is the low side for orientation +1; principal axes turned by ang about the normal
            cs, sn = math.cos(ang), math.sin(ang)
            sides = (0, 1) if orient == 1 else (1, 0)
            x = [None] * 4
            for m, s in enumerate(sides):
                sg = 1.0 if s == 0 else -1.0
                hp, hq = cs * h[s][0] + sn * h[s][1], cs * h[s][1] - sn * h[s][0]
                x[m], x[2 + m] = sg * hq, -sg * hp           # TM and TE magnetic fields
            y = [sum_([z[p][q].step(x[q]) for q in range(4)]) for p in range(4)]
            e = [None, None]
            for m, s in enumerate(sides):
                e[s] = (cs * y[m] - sn * y[2 + m], sn * y[m] + cs * y[2 + m])
            self.et.append(e)

    def sheet_h(self):
        gi = self.g.gi
        for (n, c, *_), e in zip(self.faces, self.et):
            ax = ((n + 1) % 3, (n + 2) % 3)
            for i in (0, 1):
                p, w = ax[i], ax[1 - i]                      # field along p on the rims across w
                for rim in (0, 1):
                    q = c[w] + rim
                    wt = 0.5                                 # the other half is the adjoining face's or the image's
                    copies = [q]
                    for s in (0, 1):
                        if q == gi[2 * w + s]:
                            if self.types[2 * w + s] == 'PMC':
                                wt = 1.0
                            elif self.types[2 * w + s] == 'PERIODIC':
                                copies = [gi[2 * w], gi[2 * w + 1]]
                    for side in (0, 1):
                        v = wt * e[side][i]
                        for qq in copies:
                            cc = list(sh(c, n, side - 1))
                            cc[w] = qq
                            cc = tuple(cc)
                            # curl: the sheet edge is the high (low) neighbour of the cell on its low (high) side
                            d = v / self.s.de[n][cc[n]] * (1.0 if side == 0 else -1.0)
                            sg = self.eps(w, n, p)
                            self.S[H3[w]][cc] = self.S[H3[w]][cc] - self.ab(H3[w], cc) * sg * d
                        # cell in the plane of the sheet beyond the rim
                        if not self.closed(n, w, c, side, rim):
                            b = sh(c, w, 1 if rim else -1)
                            d = 0.5 * v / self.s.de[w][b[w]] * (1.0 if rim == 0 else -1.0)
                            sg = self.eps(n, w, p)
                            if gi[2 * w] <= b[w] < gi[2 * w + 1]:
                                self.S[H3[n]][b] = self.S[H3[n]][b] - self.ab(H3[n], b) * sg * d
        for n, c in self.normals:
            self.S[H3[n]][c] = 0.0

    @staticmethod
    def eps(i, j, k):
        return 1.0 if (j - i) % 3 == 1 else -1.0

    def step_e(self):
        super().step_e()
        self.sheet_e()

    def step_h(self):
        super().step_h()
        self.sheet_h()


def sum_(l):
    t = 0.0
    for v in l:
        t = t + v
    return t


def z_of_s(s):
    """Impedance matrix (I+S)(I-S)^-1 eta0 of a 2x2 scattering matrix, as the manual relates them."""
    d = (1 - s[0]) * (1 - s[3]) - s[1] * s[2]
    a, b, c, e = (1 - s[3]) / d, s[1] / d, s[2] / d, (1 - s[0]) / d     # (I-S)^-1
    return [[((1 + s[0]) * a + s[1] * c) * ETA0, ((1 + s[0]) * b + s[1] * e) * ETA0], [(s[2] * a + (1 + s[3]) * c) * ETA0, (s[2] * b + (1 + s[3]) * e) * ETA0]]


def blocks(tm, te):
    o = (0.0, [])
    return [[(tm[0][0], []), (tm[0][1], []), o, o], [(tm[1][0], []), (tm[1][1], []), o, o], [o, o, (te[0][0], []), (te[0][1], [])], [o, o, (te[1][0], []), (te[1][1], [])]]


def spar(tm, te=None):
    card = ' '.join('%.9g' % x for x in tm + (te or []))
    return ('S', card, blocks(z_of_s(tm), z_of_s(te or tm)))


def pfe(mat):
    """mat: 2x2 or 4x4 of (asymptote, [(residue, pole)])."""
    n = len(mat)
    t = '%d %d\n' % (n, n)
    for row in mat:
        for a, poles in row:
            t += '%d %.9g\n' % (len(poles), a)
            for r, p in poles:
                t += '%.9g %.9g %.9g %.9g\n' % (p.real, p.imag, r.real, r.imag)
    z = mat
    if n == 2:
        o = (0.0, [])
        z = [[mat[0][0], mat[0][1], o, o], [mat[1][0], mat[1][1], o, o], [o, o, mat[0][0], mat[0][1]], [o, o, mat[1][0], mat[1][1]]]
    return ('F', t, z)


def sheet_mesh(B, dm, kinds, sheets, ext, nt, lines, extra=()):
    cards = []
    for k, (kind, data, z) in enumerate(kinds):
        if kind == 'S':
            cards.append('BT s%d SIBC %s' % (k, data))
        else:
            B.put_file('s%d.pfe' % k, data)
            cards.append('BT s%d SIBC "s%d.pfe"' % (k, k))
    for box, o, a, k in sheets:
        cards.append('TB %s s%d' % (box_str(B, box), k) + ('' if o is None else ' %d' % o + ('' if a is None else ' %.9g' % a)))
    return mesh_text(B, dm, ext=ext, s2=cards + list(extra), nt=nt, lines=lines)


def run(dm, kinds, sheets, ext='PEC', nt=2, extra=(), only=None, where=None):
    """sheets: (box, orient, angle, kind index)."""
    lines = mlines(dm)

    def h(B):
        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            sh_ = [(b, 1 if o is None else o, 0.0 if a is None else a, kinds[k][2]) for b, o, a, k in sheets]
            S = {f: {c: 0.0 for c in g.cells()} for f in E3 + H3}
            r = Sheets(g, lines, ext, dt, sh_, S)
            for f in E3 + H3:
                for c in g.idx(f):
                    if not (f[0] == 'E' and (r.wall(f, c) or r.med[f, c] == PECM)) and (only is None or only(f, c)):
                        S[f][c] = B.real('%s_%d_%d_%d' % ((f,) + c), -1.0 if f[0] == 'E' else -1.0 / ETA0, 1.0 if f[0] == 'E' else 1.0 / ETA0)
            r.zero_state()
            impose(S, g.go, faces_of(ext))
            ghost_h(S, g.go, faces_of(ext))
            for f in E3 + H3:
                for c in g.cells():
                    g.set(f, *c, S[f][c])
            B.real_propagate()
            r.run(nt)
            r.compare(B, scale_e=4.0, where=where and (lambda f, c: where(g, f, c)))
        run_mesh(B, sheet_mesh(B, dm, kinds, sheets, ext, nt, lines), body)
    return h


def impedances(pick, te):
    """The impedance matrix of two symbolic scattering parameters, seen in the magnetic field of one step."""
    def h(B):
        base = [-0.4, 0.2, 0.3, -0.6]
        s = [B.real('s%d' % i, -0.45, 0.45) if i in pick else x for i, x in enumerate(base)]
        other = [-0.5, 0.25, 0.25, -0.5]
        B.assume((1 - s[0] * s[0] - s[2] * s[2]) > 0.05)
        B.assume((1 - s[1] * s[1] - s[3] * s[3]) > 0.05)
        B.assume((1 - s[0] * s[0] - s[2] * s[2]) * (1 - s[1] * s[1] - s[3] * s[3]) - (s[0] * s[1] + s[2] * s[3]) * (s[0] * s[1] + s[2] * s[3]) > 0.05)
        lines = mlines((2, 1, 1))
        c4 = lambda l: ' '.join(B.tok(x) for x in l)
        cards = ['BT s SIBC ' + (c4(s) if te is None else c4(s) + ' ' + c4(other) if te == 'TM' else c4(other) + ' ' + c4(s)), 'TB 1 1 0 1 0 1 s']

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            i, j, k = g.gi[0] + 1, g.gi[2], g.gi[4]
            hy, hz = (1.0, 0.5), (-0.25, 2.0)                    # field on side a, b
            for a in (0, 1):
                for c in itertools.product((i - 1 + a,), range(g.n[1]), range(g.n[2])):
                    g.set('Hy', *c, hy[a] / ETA0)
                    g.set('Hz', *c, hz[a] / ETA0)
            B.real_propagate()
            d = (1 - s[0]) * (1 - s[3]) - s[1] * s[2]
            z = [[(1 + s[0]) * (1 - s[3]) + s[1] * s[2], 2 * s[1]], [2 * s[2], (1 - s[0]) * (1 + s[3]) + s[1] * s[2]]]       # times eta0/d
            D = (1 - other[0]) * (1 - other[3]) - other[1] * other[2]
            Z = [[z_of_s(other)[a][b] / ETA0 * D for b in (0, 1)] for a in (0, 1)]
            st = Steps(lines)
            for what in ('TM', 'TE'):
                m, den = (z, d) if te in (None, what) else (Z, D)
                x = (hz[0], -hz[1]) if what == 'TM' else (-hy[0], hy[1])
                f, comp, oth = ('Hz', 'TM', hz) if what == 'TM' else ('Hy', 'TE', hy)
                for a in (0, 1):
                    e = m[a][0] * x[0] + m[a][1] * x[1]                                   # times 1/den
                    c = (i - 1 + a, j, k)
                    ga = (dt * C0) / st.de[0][c[0]] * (1 if a == 0 else -1) * (-1 if what == 'TM' else 1)
                    B.near('%s side %s' % (what, 'ab'[a]), (g.get(f, *c) * ETA0 - oth[a]) * den, ga * e, scale=1.0)
        run_mesh(B, mesh_text(B, (2, 1, 1), ext=('PEC',) * 2 + ('PERIODIC',) * 4, s2=cards, nt=1, lines=lines), body)
    return h


def passive(pick, which):
    """The program stops on sheets that could generate power and on no others."""
    def h(B):
        base = {0: [-0.5, 0.25, 0.25, -0.5], 1: [0.6, 0.1, -0.3, 0.2], 2: [0.1, 0.7, 0.7, -0.2]}[which % 3]
        s = [B.real('s%d' % i, -1.2, 1.2) if i in pick else x for i, x in enumerate(base)]
        other = [-0.5, 0.25, 0.25, -0.5]
        a = 1 - s[0] * s[0] - s[2] * s[2]
        b = 1 - s[1] * s[1] - s[3] * s[3]
        o = s[0] * s[1] + s[2] * s[3]
        det = a * b - o * o
        for v in (a, b, det):
            B.assume(lor(v > 0.002, v < -0.002))
        d = (1 - s[0]) * (1 - s[3]) - s[1] * s[2]
        B.assume(lor(d > 0.01, d < -0.01))
        te = which // 3
        l = s if te == 0 else s + other if te == 1 else other + s
        t = mesh_text(B, (1, 1, 2), ext='PMC', s2=['BT s SIBC ' + ' '.join(B.tok(x) for x in l), 'TB 0 1 0 1 1 1 s'], nt=0, ms=0.01)
        B.mesh('m.mesh', t)
        rc = B.main(['-p', 'm.mesh'])
        ok = land(a > 0, b > 0, det > 0)
        if rc == 0:
            B.check('accepted only if passive', ok)
        else:
            B.check('exit status', rc == 6)
            B.check('rejected only if active', lnot(ok))
    return h


ISO = spar([-0.5, 0.25, 0.25, -0.5])
SKEW = spar([-0.4, 0.2, 0.3, -0.6], [0.1, -0.5, 0.4, 0.25])
P1 = (1e10, complex(-3e10))
CP = [(2e10 + 1e10j, -2e10 + 6e10j), (2e10 - 1e10j, -2e10 - 6e10j)]
F2 = pfe([[(20.0, [(3e11, complex(-4e10))]), (5.0, [])], [(8.0, [(1e11, complex(-9e10)), (-2e10, complex(-2e10))]), (30.0, [(1e11, complex(-6e9))])]])
F4 = pfe([[(10.0, [(complex(5e10), complex(-3e10))]), (3.0, CP), (2.0, []), (-1.0, [])], [(4.0, []), (12.0, [(complex(3e10), complex(-1e11))] + CP), (0.0, [(complex(1e10), complex(-5e9))]), (1.5, [])],
          [(-2.0, []), (0.5, [(complex(2e10), complex(-2e11))]), (15.0, []), (6.0, [(complex(-1e10), complex(-3e10))])], [(1.0, CP), (-0.5, []), (5.0, []), (18.0, [(complex(4e10), complex(-8e10))])]])


def cyc(v, n):
    """Values given for an x-normal geometry, moved to normal n."""
    r = [None] * 3
    for a in range(3):
        r[(a + n) % 3] = v[a]
    return r


def cbox(b, n):
    p = cyc([(b[0], b[1]), (b[2], b[3]), (b[4], b[5])], n)
    return [x for q in p for x in q]


def cext(t, n):
    p = cyc([(t[0], t[1]), (t[2], t[3]), (t[4], t[5])], n)
    return tuple(x for q in p for x in q)


def cases(tier):
    cs = []
    deep = tier == 'thorough'
    for n in range(3):
        dm = tuple(cyc([2, 2, 2], n))
        full = cbox([1, 1, 0, 2, 0, 2], n)
        for o in (1, -1):
            for k, a in enumerate((0.0, 30.0, -120.0, 90.0, 180.0, -180.0, 135.0)):
                kind = (SKEW, F4, ISO, F4, F2, SKEW, F4)[k]
                cs.append(Case('sheet %s %d %g' % ('xyz'[n], o, a), run(dm, [kind], [(full, o, a, 0)], ext='PMC', nt=3 if kind is F4 else 2)))
        cs.append(Case('defaults %s' % 'xyz'[n], run(dm, [SKEW], [(full, None, None, 0)], ext='PMC')))
        cs.append(Case('default angle %s' % 'xyz'[n], run(dm, [F4], [(full, -1, None, 0)], ext='PMC')))
        for kind, nm in ((F2, 'file 2'), (F4, 'file 4'), (SKEW, 'scattering 8'), (ISO, 'scattering 4')):
            cs.append(Case('%s %s' % (nm, 'xyz'[n]), run(tuple(cyc([2, 1, 1], n)), [kind], [(cbox([1, 1, 0, 1, 0, 1], n), 1, 20.0, 0)], ext=cext(('PEC', 'PEC') + ('PERIODIC',) * 4, n), nt=3)))
        d3 = tuple(cyc([2, 3, 3], n))
        cs.append(Case('patch %s' % 'xyz'[n], run(d3, [SKEW], [(cbox([1, 1, 1, 2, 1, 2], n), -1, 25.0, 0)], ext='PEC', nt=2)))
        cs.append(Case('strip %s' % 'xyz'[n], run(d3, [F4], [(cbox([1, 1, 0, 3, 1, 2], n), 1, -40.0, 0)], ext='PMC', nt=2)))
        cs.append(Case('half %s' % 'xyz'[n], run(d3, [ISO], [(cbox([1, 1, 0, 2, 0, 1], n), 1, 0.0, 0)], ext='PMC', nt=2)))
        cs.append(Case('corner at walls %s' % 'xyz'[n], run(d3, [SKEW], [(cbox([1, 1, 1, 3, 1, 3], n), 1, 70.0, 0)], ext=cext(('PEC', 'PEC', 'PEC', 'PMC', 'PMC', 'PMC'), n), nt=2)))
        d4 = tuple(cyc([3, 2, 2], n))
        cs.append(Case('two sheets %s' % 'xyz'[n], run(d4, [SKEW, F2], [(cbox([1, 1, 0, 2, 0, 2], n), 1, 15.0, 0), (cbox([2, 2, 0, 1, 0, 2], n), -1, 60.0, 1)], ext='PMC', nt=2)))
        per = cext(('PEC', 'PMC') + ('PERIODIC',) * 4, n)
        for o in (1, -1):
            cs.append(Case('periodic %s %d' % ('xyz'[n], o), run(dm, [F4], [(full, o, 35.0, 0)], ext=per, nt=2)))
        cs.append(Case('periodic one way %s' % 'xyz'[n], run(d3, [SKEW], [(cbox([1, 1, 0, 3, 1, 2], n), 1, 35.0, 0)], ext=cext(('PMC', 'PMC', 'PERIODIC', 'PERIODIC', 'PEC', 'PEC'), n), nt=2)))
        # sheets ending on PEC walls: one step, without the field normal to the walls
        cs.append(Case('PEC side walls %s' % 'xyz'[n], run(dm, [F4], [(full, 1, 35.0, 0)], ext='PEC', nt=1,
                                                            where=lambda g, f, c: not (f[0] == 'H' and c['xyz'.index(f[1])] in (g.go[2 * 'xyz'.index(f[1])], g.go[2 * 'xyz'.index(f[1]) + 1])))))
        # perpendicular sheets meeting at an edge, in each of the four quadrants
        for q in range(4):
            b1 = cbox([1, 1, q % 2, 1 + q % 2, 0, 2], n)
            b2 = cbox([q // 2, 1 + q // 2, 1, 1, 0, 2], n)
            cs.append(Case('edge %s %d' % ('xyz'[n], q), run(dm, [SKEW, F4], [(b1, 1, 10.0, 0), (b2, -1, 50.0, 1)], ext='PMC', nt=2)))
        cs.append(Case('channel %s' % 'xyz'[n], run(d4, [ISO, F2], [(cbox([1, 1, 0, 2, 0, 1], n), 1, 0.0, 0), (cbox([2, 2, 0, 2, 0, 1], n), 1, 0.0, 1), (cbox([1, 2, 1, 1, 0, 1], n), 1, 30.0, 0)],
                                                    ext='PMC', nt=2)))
    box = [[1, 1, 1, 2, 1, 2], [2, 2, 1, 2, 1, 2], [1, 2, 1, 1, 1, 2], [1, 2, 2, 2, 1, 2], [1, 2, 1, 2, 1, 1], [1, 2, 1, 2, 2, 2]]
    cs.append(Case('closed box', run((3, 3, 3), [SKEW, F2], [(b, 1 if k % 2 else -1, 15.0 * k, k % 2) for k, b in enumerate(box)], ext='PEC', nt=2)))
    for pick in ((0, 1), (2, 3), (0, 3), (1, 2)):
        for te in (None, 'TM', 'TE'):
            cs.append(Case('impedance %s %s' % (pick, te), impedances(pick, te)))
    for pick in ((0,), (1,), (2,), (3,)) + (((0, 1), (2, 3)) if deep else ()):
        for w in range(9 if deep else 7 if pick == (1,) else 3):
            cs.append(Case('passivity %s %d' % (pick, w), passive(pick, w)))
    return cs
