"""P10: Debye media follow the trapezoidal update of their pole equations, component by component."""
from checks.common import *

BOUNDS = ('0 to 3 real poles on the card and 0 to 5 complex poles in a file; blocks: symbolic corners along one axis at a time of a graded 2x2x2 or 3x2x2 mesh, every single excluded face and all faces excluded; '
          'one to three separate Debye blocks of one or two media next to simple media; symbolic field state, 1 to 4 steps; sources inside the block; all wall types; '
          'update coefficients with symbolic permittivity, conductivity, residue and pole')
OUTSIDE = 'overlapping Debye blocks (the manual calls them ill-defined); more poles; longer runs; Debye media in PML layers'
PS = 1e-12


class Debye(Ref):
    """Reference: trapezoidal rule on eps E' + sigma E + sum 2 Re J_k = curl H, J_k' - p_k J_k = eps0 r_k E' for each component."""

    def __init__(self, g, lines, types, dt, blocks, others=(), S=None):
        objs = list(others) + [(b, ('raw',) + self.coef(m, dt) + (m[3],), mask) for b, m, mask in blocks]
        med = paint(g, objs, faces_of(types))
        for k, v in med.items():
            if v[0] == 'raw' and k[0][0] == 'H':
                med[k] = simple(1.0, 0.0, v[3])
        super().__init__(g, lines, types, dt, med, S)
        off = (g.gi[0], g.gi[2], g.gi[4])
        self.J, self.last, self.pol = {}, {}, {}
        for b, m, mask in blocks:
            for f in E3:
                for c in self.ins[f]:
                    if in_box(f, c, b, mask, off):
                        self.pol[f, c] = m
                        self.J[f, c] = [(0.0, 0.0)] * len(m[4])
                        self.last[f, c] = 0.0

    @staticmethod
    def factors(m, dt):
        """Per pole: (1+p dt/2)/(1-p dt/2), eps0 r/(1-p dt/2)."""
        out = []
        for r, p in m[4]:
            q = 1.0 / (1 - 0.5 * dt * p)
            out.append(((1 + 0.5 * dt * p) * q, EPS0 * r * q))
        return out

    @classmethod
    def coef(cls, m, dt):
        s = sum(b.real for a, b in cls.factors(m, dt))
        d = m[1] * EPS0 / dt + 0.5 * m[2] + s
        return ((m[1] * EPS0 / dt - 0.5 * m[2] + s) / d, 1.0 / d)

    def step_e(self):
        super().step_e()
        for (f, c), m in self.pol.items():
            fa = self.factors(m, self.dt)
            a, b = self.ab(f, c)
            s = 0.0
            for (al, be), (jr, ji) in zip(fa, self.J[f, c]):
                s = s + (1 + al.real) * jr - al.imag * ji
            e = self.S[f][c]
            if b != 0.0:
                e = e - b * s
            self.S[f][c] = e
            de = e - self.last[f, c]
            self.J[f, c] = [(al.real * jr - al.imag * ji + be.real * de, al.real * ji + al.imag * jr + be.imag * de) for (al, be), (jr, ji) in zip(fa, self.J[f, c])]
            self.last[f, c] = e


def medium(eps, sigma, mu, poles):
    return ('DEBYE', eps, sigma, mu, [(complex(r), complex(p)) for r, p in poles])


def card(B, name, m, file=None):
    if file:
        B.put_file(file, '%d %.9g %.9g %.9g\n' % (len(m[4]), m[1], m[2], m[3]) + ''.join('%.9g %.9g %.9g %.9g\n' % (r.real, r.imag, p.real, p.imag) for r, p in m[4]))
        return 'MT %s DEBYE "%s"' % (name, file)
    return 'MT %s DEBYE %.9g %.9g %.9g ' % (name, m[1], m[2], m[3]) + ' '.join('%.9g %.9g' % (r.real, p.real) for r, p in m[4])


REAL = [medium(2.0, 0.0, 1.0, [(3e10, -4e10)]), medium(3.0, 0.05, 1.5, [(2e10, -1e10), (5e10, -9e10)]), medium(1.0, 0.3, 1.0, [(1e10, -2e9), (4e10, -3e10), (8e10, -2e11)])]
CPLX = [medium(2.5, 0.1, 1.0, []), medium(1.5, 0.0, 1.2, [(1e10 + 4e10j, -2e10 - 5e10j)]), medium(2.0, 0.02, 1.0, [(2e10, -1e10), (-1e10 + 3e10j, -5e9 + 6e10j)]),
        medium(1.2, 0.2, 2.0, [(1e10 - 2e10j, -3e10 - 1e10j), (5e9, -1e10), (2e10 + 1e10j, -1e10 + 9e10j), (1e9 + 1e9j, -1e11)]),
        medium(4.0, 0.0, 1.0, [(1e10, 0.0), (2e10 + 2e10j, 0.0 - 3e10j), (1e10, -1e10), (2e10, -2e10), (3e10j, -4e10 + 1e10j)])]


def run(dm, blocks, ext='PEC', nt=3, vary=None, file=False, others=(), src=None, state=True, lines=None):
    """blocks: (box, medium index, mask)."""
    lines = lines or mlines(dm)
    names = {}

    def h(B):
        bl = [[list(b), m, k] for b, m, k in blocks]
        if vary is not None:
            lo, hi = B.int('lo', 0, dm[vary] - 1), B.int('hi', 1, dm[vary])
            B.assume(hi > lo)
            bl[0][0][2 * vary], bl[0][0][2 * vary + 1] = B.fork(lo), B.fork(hi)
        cards, seen = [], {}
        for n, (b, md, mask) in enumerate(bl):
            if id(md) not in seen:
                seen[id(md)] = 'd%d' % n
                cards.append(card(B, 'd%d' % n, md, 'd%d.prm' % n if file else None))
        for n, (b, md, mask) in enumerate(others):
            cards.append(mt_card(B, 'o%d' % n, md))
            cards.append('MB %s o%d %s' % (box_str(B, b), n, mask))
        for b, md, mask in bl:
            cards.append('MB %s %s %s' % (box_str(B, b), seen[id(md)], mask))
        size = B.real('size', -1.0, 1.0) if src else None
        if src:
            cards += ['WF w GAUSSIAN_PULSE 1.0 2e-11 1.5e-11', src_card(B, src[0], 's', src[1], 'w', size)]

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            S = None
            if state:
                S = {f: {c: 0.0 for c in g.cells()} for f in E3 + H3}
                w = Ref(g, lines, ext, dt)
                for f in E3 + H3:
                    for c in g.idx(f):
                        if not (f[0] == 'E' and w.wall(f, c)):
                            S[f][c] = B.real('%s_%d_%d_%d' % ((f,) + c), -1.0 if f[0] == 'E' else -1.0 / ETA0, 1.0 if f[0] == 'E' else 1.0 / ETA0)
                ghost_h(S, g.go, faces_of(ext))
                for f in E3 + H3:
                    for c in g.cells():
                        g.set(f, *c, S[f][c])
            r = Debye(g, lines, ext, dt, [tuple(x) for x in bl], others, S)
            se = None
            if src:
                sr = Source(src[1], src[0], g, r.s, size)
                ps = gauss(1.0, 2e-11, 1.5e-11)
                se = lambda r, n, t: sr.apply(r, ps(t))
            B.real_propagate()
            r.run(nt, se)
            r.compare(B, scale_e=2.0)
        run_mesh(B, mesh_text(B, dm, ext=ext, s2=cards, nt=nt, lines=lines), body)
    return h


def coefficients(npoles, what):
    """alpha, beta of a Debye block with symbolic parameters; denominators multiplied out."""
    def h(B):
        eps = B.real('eps', 1.0, 20.0) if 'e' in what else 2.0
        sg = B.real('sigma', 0.0, 2.0) if 's' in what else 0.1
        mu = B.real('mu', 1.0, 5.0) if 'm' in what else 1.0
        po = []
        for k in range(npoles):
            u = 1e10 * (k + 1)
            r = B.real('res%d' % k, -0.2, 4.0) if 'r' in what else 1.5 + k
            p = B.real('pole%d' % k, -9.0, 0.0) if 'p' in what and k == 0 else -1.0 - k
            po.append((r * u, p * u))
        tok = ' '.join(B.tok(x) for q in po for x in q)

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            q = 1.0                                # product of the (1 - p dt/2)
            for r, p in po:
                q = q * (1 - (0.5 * dt) * p)
            s = 0.0                                # q * sum of r/(1 - p dt/2)
            for i, (r, p) in enumerate(po):
                x = r
                for j, (r2, p2) in enumerate(po):
                    if j != i:
                        x = x * (1 - (0.5 * dt) * p2)
                s = s + x
            nu = 2.0 * eps * q + 2.0 * dt * s - (dt / EPS0) * sg * q
            de = 2.0 * eps * q + 2.0 * dt * s + (dt / EPS0) * sg * q
            for f in E3:
                c = (g.gi[0], g.gi[2], g.gi[4])
                B.near('alpha ' + f, g.get('alphaE' + f[1], *c) * de, nu, scale=de)
                B.near('beta ' + f, g.get('betaE' + f[1], *c) * (EPS0 / dt) * de, 2.0 * q, scale=q)
                B.near('gamma ' + f, g.get('gammaH' + f[1], *c) * (MU0 / dt) * mu, 1.0, scale=1.0)
        run_mesh(B, mesh_text(B, (1, 1, 1), ext='PMC', s2=['MT d DEBYE %s %s %s %s' % (B.tok(eps), B.tok(sg), B.tok(mu), tok), 'MB 0 1 0 1 0 1 d'], nt=1, ms=0.02), body)
    return h


def cases(tier):
    cs = []
    dm = (2, 2, 2)
    full = [0, 2, 0, 2, 0, 2]
    n = 0
    for i, m in enumerate(REAL + CPLX):
        fl = i >= len(REAL)
        for v in range(3):
            box = [[0, 1, 1, 2, 0, 1], [1, 2, 0, 2, 0, 1], [0, 2, 0, 1, 1, 2]][(i + v) % 3]
            d = [2, 2, 2]
            d[v] = 3 if tier == 'thorough' else 2
            cs.append(Case('%d poles%s vary %d' % (len(m[4]), ' file' if fl else '', v), run(tuple(d), [(box, m, '111111')], file=fl, vary=v, nt=4 if v == 0 else 3,
                                                                                           ext=('PEC', 'PMC', 'PERIODIC')[(i + v) % 3])))
    masks = ['000000'] + [''.join('0' if i == s else '1' for i in range(6)) for s in range(6)]
    for k, mask in enumerate(masks):
        for b in (full, [0, 1, 0, 2, 0, 1], [1, 2, 1, 2, 0, 2]):
            n += 1
            m = (REAL + CPLX)[n % 8]
            cs.append(Case('mask %s %s' % (mask, b), run(dm, [(b, m, mask)], ext=('PMC', 'PEC')[n % 2], file=True, nt=3)))
    o = simple(3.0, 0.2, 1.4)
    for a in range(3):
        lo, hi = list(full), list(full)
        lo[2 * a + 1] = hi[2 * a] = 1
        mk = ''.join('0' if i == 2 * a else '1' for i in range(6))
        for x, y in ((REAL[0], REAL[2]), (CPLX[1], CPLX[1]), (CPLX[3], CPLX[1])):
            fl = x in CPLX
            cs.append(Case('two blocks %d %d %d' % (a, len(x[4]), len(y[4])), run(dm, [(lo, x, '111111'), (hi, y, mk)], file=fl, ext='PMC')))
        cs.append(Case('block in simple %d' % a, run(dm, [(hi, REAL[1], '111111')], others=[(full, o, '111111')], ext='PMC')))
        cs.append(Case('source %d' % a, run(dm, [(full, REAL[1], '111111')], src=([1, 1, 1, 1, 1, 1] if a == 0 else [0, 2, 1, 1, 0, 2] if a == 1 else [1, 2, 0, 2, 1, 2],
                                                                                  ('EX', 'JY', 'JZ')[a]), ext='PMC')))
    d3 = (3, 2, 2)
    cs.append(Case('three blocks', run(d3, [([0, 1, 0, 2, 0, 2], CPLX[2], '111111'), ([2, 3, 0, 1, 0, 2], CPLX[3], '111111'), ([2, 3, 1, 2, 0, 1], CPLX[1], '110111')], file=True, ext='PMC')))
    for ext in ('MUR',):
        cs.append(Case('inside box', run((3, 3, 3), [([1, 2, 1, 2, 1, 2], REAL[1], '111111')], ext='PEC', nt=4)))
    cs.append(Case('walls', run(dm, [(full, REAL[2], '111111')], ext=('PEC', 'PMC', 'PERIODIC', 'PERIODIC', 'PMC', 'PEC'), nt=4)))
    for k in (1, 2, 3):
        for w in ('e', 's', 'm', 'r', 'p', 'er', 'esm') + (('erp', 'sp') if k == 1 else ()):
            cs.append(Case('coefficients %d %s' % (k, w), coefficients(k, w)))
    return cs
