"""P09: plane waves correct exactly the components at their box faces with the incident wave."""
from checks.common import *

BOUNDS = ('cubic, uniform and non-uniform meshes up to 5 cells per axis; boxes: symbolic corners along one axis at a time, all faces, single faces and excluded faces; '
          'incidence: 26 axis, diagonal and quadrant directions and oblique ones; waveform: table of symbolic samples (every waveform value during the run symbolic), symbolic size and delay position; symbolic field '
          'state; all wall types; two waves at once; 2 to 9 steps; a pulse passing boxes of up to 9 cells completely, 150 steps')
OUTSIDE = 'angles other than the listed ones (the direction is concrete); media other than free space at the box faces'
WALLS = ('PEC',) * 6
FREEDT = 23.0


def direction(th, ph, ps):
    s, c = math.sin, math.cos
    t, p, q = (math.radians(x) for x in (th, ph, ps))
    k = (s(t) * c(p), s(t) * s(p), c(t))
    e = (c(q) * s(p) - s(q) * c(t) * c(p), -c(q) * c(p) - s(q) * c(t) * s(p), s(q) * s(t))
    h = (s(q) * s(p) + c(q) * c(t) * c(p), -s(q) * c(p) + c(q) * c(t) * s(p), -c(q) * s(t))
    return k, e, h


def phase_velocity(dt, d, k):
    """Speed of the grid's plane wave at 23 steps per period, from its dispersion relation (bisection)."""
    w = 2 * math.pi / (FREEDT * dt)
    r = (math.sin(0.5 * w * dt) / (C0 * dt)) ** 2

    def f(q):
        return sum((math.sin(0.5 * d[a] * k[a] * q) / d[a]) ** 2 for a in range(3)) - r
    lo, hi = 0.5 * w / C0, 2.0 * w / C0
    for _ in range(200):
        m = 0.5 * (lo + hi)
        lo, hi = (m, hi) if f(m) < 0 else (lo, m)
    return w / lo


class Wave:
    """Incident wave of a plane wave card."""

    def __init__(self, g, lines, dt, box, angles, wf, size=1.0, mask='111111', ext=WALLS):
        th, ph, ps = angles
        self.k, self.e, self.h = direction(*angles)
        self.box, self.mask, self.size, self.wf, self.dt, self.g, self.lines = box, mask, size, wf, dt, g, lines
        self.off = (g.gi[0], g.gi[2], g.gi[4])
        self.gb = [box[i] + self.off[i // 2] for i in range(6)]
        quad = (ph > 0 and ph > 90, ph > 180)           # far sides of the box for waves coming from there
        fx = 90 < ph <= 270
        fy = ph > 180
        fz = th > 90
        self.org = (box[1] if fx else box[0], box[3] if fy else box[2], box[5] if fz else box[4])
        e = [edges(l) for l in lines]
        uni = [max(x) - min(x) < 1e-6 * max(x) for x in e]
        self.kind = 'nonuniform' if not all(uni) else ('cubic' if max(x[0] for x in e) - min(x[0] for x in e) < 1e-6 * e[0][0] else 'uniform')
        d = [x[0] for x in e]
        if self.kind == 'nonuniform':
            self.v = C0
        else:
            self.v = phase_velocity(dt, d, self.k)
        if self.kind == 'cubic':
            self.rel = phase_velocity(dt, d, (0.0, 0.0, 1.0)) / self.v
            self.ce, self.ch = dt / (EPS0 * d[0]) / self.rel, dt / (MU0 * d[0]) / self.rel
            n = 40
            self.E, self.H = [0.0] * n, [0.0] * n
        # faces: the rim shared with an excluded face is left out unless that face lies on a magnetic or periodic wall
        self.rim = [mask[s] == '1' or (self.gb[s] == g.gi[s] and ext[s] in ('PMC', 'PERIODIC')) for s in range(6)]

    def tick_e(self, t):
        if self.kind == 'cubic':
            for i in range(len(self.E) - 1, 0, -1):
                self.E[i] = self.E[i] + self.ce * (self.H[i - 1] - self.H[i])
            self.E[0] = self.wf(t)

    def tick_h(self):
        if self.kind == 'cubic':
            for i in range(len(self.H) - 1):
                self.H[i] = self.H[i] - self.ch * (self.E[i + 1] - self.E[i])

    def inc(self, f, c, t):
        """Incident value of component f at index c."""
        a = 'xyz'.index(f[1])
        m = [c[d] - self.off[d] for d in range(3)]
        half = [(d == a) == (f[0] == 'E') for d in range(3)]
        u = (self.e[a] if f[0] == 'E' else self.h[a] / ETA0)
        if self.kind == 'cubic':
            d = sum(self.k[i] * (m[i] + (0.5 if half[i] else 0.0) - self.org[i]) for i in range(3))
            if abs(u) < 1e-9 * (1 if f[0] == 'E' else 1 / ETA0):
                return 0.0
            if f[0] == 'E':
                i = math.floor(d + 1e-5)
                x = max(d - i, 0.0)
                w = (1 - x) * self.E[2 + i] + (x * self.E[3 + i] if x > 0 else 0.0)
            else:
                i = math.floor(d + 0.5 + 1e-5)
                x = max(d + 0.5 - i, 0.0)
                w = ((1 - x) * self.H[1 + i] + (x * self.H[2 + i] if x > 0 else 0.0)) * ETA0
            return self.size * (u * w)
        r = 0.0
        for i in range(3):
            r += self.k[i] * (coord(self.lines[i], half[i], m[i], self.g.wrap[i]) - self.lines[i][self.org[i]])
        if abs(u) < 1e-9 * (1 if f[0] == 'E' else 1 / ETA0):
            return 0.0
        return self.size * (u * self.wf(t - r / self.v))

    def inside(self, f, c, n):
        """Component at the box's face-parallel range across axis n."""
        p = site2(f, c)
        for d in range(3):
            if d != n:
                lo, hi = 2 * self.gb[2 * d], 2 * self.gb[2 * d + 1]
                if p[d] < lo or p[d] > hi or (p[d] == lo and not self.rim[2 * d]) or (p[d] == hi and not self.rim[2 * d + 1]):
                    return False
        return True

    def sites(self, fam):
        """(face, component, site) of every correction of one field family."""
        for s in range(6):
            if self.mask[s] != '1':
                continue
            n, hi = s // 2, s % 2
            for f in fam:
                if 'xyz'.index(f[1]) == n:
                    continue
                for c in self.all[f]:
                    at = self.gb[s] if fam is E3 else (self.gb[s] if hi else self.gb[s] - 1)
                    if c[n] == at and self.inside(f, c, n):
                        yield s, f, c

    def correct_e(self, r, t):
        self.tick_e(t)
        for s, f, c in self.sites(E3):
            n, hi, d = s // 2, s % 2, 'xyz'.index(f[1])
            o = 3 - n - d                                # the incident magnetic component across both
            oc = c if hi else sh(c, n, -1)
            sg = 1.0 if (d + 1) % 3 == n else -1.0       # curl H . d = dH_o/dn * sg
            sg = sg if hi else -sg
            r.S[f][c] = r.S[f][c] + r.ab(f, c)[1] * sg * self.inc('H' + 'xyz'[o], oc, t) / r.s.dh[n][c[n]]

    def correct_h(self, r, t):
        self.tick_h()
        for s, f, c in self.sites(H3):
            n, hi, d = s // 2, s % 2, 'xyz'.index(f[1])
            o = 3 - n - d
            oc = c if hi else sh(c, n, 1)
            sg = 1.0 if (d + 1) % 3 == n else -1.0
            sg = sg if hi else -sg
            r.S[f][c] = r.S[f][c] - r.ab(f, c) * sg * self.inc('E' + 'xyz'[o], oc, t) / r.s.de[n][c[n]]


def coord(ls, h, i, wrap=False):
    n = len(ls) - 1

    def at(j):
        if 0 <= j <= n:
            return ls[j]
        if wrap:
            return ls[j % n] + (j // n) * (ls[n] - ls[0])
        return ls[0] + j * (ls[1] - ls[0]) if j < 0 else ls[n] + (j - n) * (ls[n] - ls[n - 1])
    return 0.5 * (at(i) + at(i + 1)) if h else at(i)


def spline(B, n, dt0, lo, tag='s'):
    """Waveform file with symbolic samples at multiples of dt0; returns (card, evaluator)."""
    ys = [B.real('%s%d' % (tag, i), -1.0, 1.0) for i in range(n)]
    xs = [lo + i * dt0 for i in range(n)]
    B.put_file(tag + '.dat', ''.join('%s %s\n' % (B.tok(x), B.tok(y)) for x, y in zip(xs, ys)))
    # clamped cubic spline: solve the tridiagonal system for second derivatives (concrete matrix, symbolic right side)
    h = dt0
    a = [[0.0] * n for _ in range(n)]
    b = [None] * n
    a[0][0], a[0][1], b[0] = 2 * h, h, (ys[1] - ys[0]) * (6 / h)
    a[n - 1][n - 1], a[n - 1][n - 2], b[n - 1] = 2 * h, h, -(ys[n - 1] - ys[n - 2]) * (6 / h)
    for i in range(1, n - 1):
        a[i][i - 1], a[i][i], a[i][i + 1] = h, 4 * h, h
        b[i] = (ys[i + 1] - 2.0 * ys[i] + ys[i - 1]) * (6 / h)
    for i in range(1, n):
        q = a[i][i - 1] / a[i - 1][i - 1]
        for j in range(n):
            a[i][j] -= q * a[i - 1][j]
        b[i] = b[i] - q * b[i - 1]
    m = [None] * n
    for i in range(n - 1, -1, -1):
        m[i] = (b[i] if i == n - 1 else b[i] - a[i][i + 1] * m[i + 1]) / a[i][i]

    def ev(t):
        if t < xs[0] or t > xs[-1]:
            return 0.0
        i = min(int((t - xs[0]) / h), n - 2)
        l, r = xs[i], xs[i + 1]
        p, q = (r - t) / h, (t - l) / h
        return p * ys[i] + q * ys[i + 1] + ((p ** 3 - p) * m[i] + (q ** 3 - q) * m[i + 1]) * (h * h / 6)
    return 'WF %s EXTERNAL "%s.dat"' % (tag, tag), ev


def dt_of(lines, cn):
    return cn / C0 / math.sqrt(sum(1.0 / min(edges(l)) ** 2 for l in lines))


def wave_case(dm, lines, angles, box=None, mask=None, ext='PEC', nt=3, vary=None, state=False, samples=7, cn=0.45, delay=0.3, second=None, zero_outside=False):
    """vary: axis along which the box corners are symbolic."""
    ext6 = faces_of(ext)

    def h(B):
        dt0 = dt_of(lines, cn)
        b = list(box) if box else [x for m in dm for x in (1, m - 1)]
        if vary is not None:
            lo, hi = B.int('lo', 0, dm[vary] - 1), B.int('hi', 1, dm[vary])
            B.assume(hi > lo)
            b[2 * vary], b[2 * vary + 1] = B.fork(lo), B.fork(hi)
        size = 1.0 if zero_outside else B.real('size', 0.0, 1.0)
        sym_wf = zero_outside
        if sym_wf:
            card, ev = spline(B, samples, 1.37 * dt0, -0.61 * dt0)
        else:
            card, ev = 'WF s GAUSSIAN_PULSE 0.9 %s %s' % (B.tok(2.2 * dt0), B.tok(2.6 * dt0)), gauss(0.9, 2.2 * dt0, 2.6 * dt0)
        pw = 'PW %s p s %s %s %s' % (box_str(B, b), *['%.9g' % x for x in angles])
        if mask or delay or not zero_outside:
            pw += ' %s %s %s' % (mask or '111111', B.tok(size), B.tok(delay * dt0))
        cards = [card, pw]
        if second:
            cards.append('PW %s p2 s %s %s %s' % (box_str(B, second[0]), *second[1]))

        def body():
            g = Grid(B)
            g.wrap = [ext6[2 * d] == 'PERIODIC' for d in range(3)]
            dt = B.ld(B.g('dt'), 'f32')
            off = (g.gi[0], g.gi[2], g.gi[4])
            S = None
            if state:
                S = {f: {c: 0.0 for c in g.cells()} for f in E3 + H3}
                for f in E3 + H3:
                    for c in g.idx(f):
                        if not (f[0] == 'E' and Ref(g, lines, ext, dt).wall(f, c)):
                            S[f][c] = B.real('%s_%d_%d_%d' % ((f,) + c), -1.0 if f[0] == 'E' else -1.0 / ETA0, 1.0 if f[0] == 'E' else 1.0 / ETA0)
                ghost_h(S, g.go, ext6)
                for f in E3 + H3:
                    for c in g.cells():
                        g.set(f, *c, S[f][c])
            r = Ref(g, lines, ext, dt, None, S)
            wf = lambda t: ev(t - delay * dt0)
            ws = [Wave(g, lines, dt, b, angles, wf, size, mask or '111111', ext6)]
            if second:
                ws.append(Wave(g, lines, dt, second[0], second[1], ev, 1.0, '111111', ext6))
            for w in ws:
                w.all = {f: list(g.idx(f)) for f in E3 + H3}
            B.real_propagate()
            r.run(nt, lambda r, n, t: [w.correct_e(r, t) for w in ws], lambda r, n, t: [w.correct_h(r, t) for w in ws])
            r.compare(B, scale_e=1.0 + (1.0 if state else 0.0), scale_h=(1.0 + (1.0 if state else 0.0)) / ETA0)
            if zero_outside:
                # the exact one-dimensional solution inside, nothing outside
                w = ws[0]
                tin = (nt - 0.5) * dt
                for f in E3 + H3:
                    for c in g.idx(f):
                        p = site2(f, c)
                        ins = all(2 * w.gb[2 * d] <= p[d] <= 2 * w.gb[2 * d + 1] for d in range(3))
                        s = 1.0 if f[0] == 'E' else 1.0 / ETA0
                        B.near('%s%s %s' % (f, c, 'inside' if ins else 'outside'), g.get(f, *c), w.inc(f, c, None) if ins else 0.0, scale=s, tol=1e-4)
        run_mesh(B, mesh_text(B, dm, ext=ext, s2=cards, nt=nt, lines=lines, cn=cn), body)
    return h


AXES = [(0, 0, 0), (0, 0, 90), (180, 0, 0), (180, 0, 90), (90, 0, 0), (90, 0, 90), (90, 180, 0), (90, 180, 90), (90, 90, 0), (90, 90, 90), (90, 270, 0), (90, 270, 90)]
OBL = [(35, 20, 50), (60, 110, 200), (75, 215, 310), (20, 300, 15), (120, 40, 100), (150, 160, 250), (100, 230, 340), (170, 310, 70), (45, 45, 45), (90, 45, 90), (90, 135, 0), (135, 225, 30), (90, 315, 200)]


def cases(tier):
    cs = []
    dm = (3, 3, 3)
    cub = lines_of(dm, 0.01)
    bri = lines_of(dm, (0.01, 0.02, 0.015))
    up = [[0.0, 0.010, 0.022, 0.036], [0.0, 0.012, 0.026, 0.050], [0.0, 0.011, 0.024, 0.040]]
    dn = [[-0.02 + max(l) - x for x in reversed(l)] for l in up]
    for n, (nm, ls) in enumerate((('cubic', cub), ('brick', bri), ('up', up), ('down', dn))):
        angs = OBL + (AXES[1::2] if nm != 'cubic' else AXES[::3])
        if tier != 'thorough':
            angs = angs[n % 2::2] if nm in ('brick', 'down') else angs
        for a in angs:
            cs.append(Case('%s %s' % (nm, a), wave_case(dm, ls, a, nt=4)))
        for v in range(3):
            cs.append(Case('box %s %d' % (nm, v), wave_case(dm, ls, OBL[(n + 3 * v) % len(OBL)], vary=v, nt=3, ext=('PEC', 'PMC', 'PERIODIC', 'PEC')[n])))
    one = wave_case
    for s in range(6):
        m = ''.join('0' if i == s else '1' for i in range(6))
        o = ''.join('1' if i == s else '0' for i in range(6))
        for n, ext in enumerate(('PEC', 'PMC', 'PERIODIC', 'MUR')):
            if ext == 'MUR':
                continue
            a = OBL[(s + 4 * n) % len(OBL)]
            cs.append(Case('mask %s %s' % (m, ext), one(dm, bri, a, mask=m, ext=ext, box=(0, 3, 0, 3, 0, 3) if ext != 'PEC' else None)))
            cs.append(Case('mask %s %s' % (o, ext), one(dm, cub if n else up, a, mask=o, ext=ext, box=(0, 3, 0, 3, 0, 2) if s == 5 else (1, 3, 0, 3, 0, 3))))
    d4 = (4, 4, 4)
    c4 = lines_of(d4, 0.01)
    for a in AXES:
        cs.append(Case('pure wave %s' % (a,), wave_case(d4, c4, a, nt=7, zero_outside=True, samples=7, delay=0.0)))
    # a wave between periodic or mirror walls, entering through one face of a box as wide as the grid
    for th, ph, ps, m, bx in ((0, 0, 90, '000010', (0, 2, 0, 2, 1, 4)), (180, 0, 0, '000001', (0, 2, 0, 2, 0, 3)), (90, 0, 0, '100000', (1, 4, 0, 2, 0, 2)), (90, 90, 0, '001000', (0, 2, 1, 4, 0, 2))):
        ax = [i for i in range(6) if m[i] == '1'][0] // 2
        d = [2, 2, 2]
        d[ax] = 4
        ext = ['PERIODIC'] * 6
        ext[2 * ax] = ext[2 * ax + 1] = 'PMC'
        cs.append(Case('channel %s' % m, wave_case(d, lines_of(d, 0.01), (th, ph, ps), box=bx, mask=m, ext=tuple(ext), nt=5, delay=0.0)))
    small = (2, 2, 2)
    for n, ls in enumerate((lines_of(small, 0.01), lines_of(small, (0.01, 0.02, 0.03)), mlines(small))):
        for e in ('PEC', 'PMC', 'PERIODIC'):
            cs.append(Case('state %d %s' % (n, e), wave_case(small, ls, OBL[(2 * n) % 9], box=(0, 2, 0, 2, 0, 1) if n else (0, 1, 0, 2, 0, 2), ext=e, nt=2, state=True)))
    cs.append(Case('two waves cubic', wave_case(dm, cub, OBL[0], nt=4, second=((0, 2, 1, 3, 0, 3), (40, 100, 20)))))
    for a in (AXES[0], AXES[7], AXES[11]) if tier != 'thorough' else AXES:
        cs.append(Case('passes %s' % (a,), tail((3, 3, 3), a, 130, 2e-3)))
    for a, d in ((AXES[2], (3, 3, 11)), (AXES[4], (11, 3, 3)), (AXES[9], (3, 11, 3))):
        cs.append(Case('long box %s' % (d,), tail(d, a, 150, 2e-3)))
    cs.append(Case('two waves graded', wave_case(dm, up, OBL[3], nt=4, second=((0, 2, 1, 3, 0, 3), (140, 10, 20)))))
    return cs


def tail(dm, angles, nt, lim):
    """The wave passes through the box once: nothing outside at any time, and nothing left inside after it."""
    def h(B):
        lines = lines_of(dm, 0.01)
        dt0 = dt_of(lines, 0.5)
        size = B.real('size', 0.0, 1.0)
        b = [x for m in dm for x in (1, m - 1)]
        cards = ['WF s GAUSSIAN_PULSE 1.0 %s %s' % (B.tok(24 * dt0), B.tok(6 * dt0)), 'PW %s p s %s %s %s 111111 %s' % (box_str(B, b), *angles, B.tok(size))]

        def body():
            g = Grid(B)
            B.real_propagate()
            gb = [b[i] + g.gi[i - i % 2] for i in range(6)]
            for f in E3 + H3:
                for c in g.idx(f):
                    p = site2(f, c)
                    ins = all(2 * gb[2 * d] <= p[d] <= 2 * gb[2 * d + 1] for d in range(3))
                    B.near('%s%s %s' % (f, c, 'left over' if ins else 'outside'), g.get(f, *c), 0.0, scale=1.0 if f[0] == 'E' else 1.0 / ETA0, tol=lim if ins else 2e-4)
        run_mesh(B, mesh_text(B, dm, ext='PEC', s2=cards, nt=nt, lines=lines, cn=0.5), body)
    return h
