"""Shared pieces of the property harnesses: mesh text, field access, and an independent reference model of the
leapfrog scheme (written from the documented discretisation, not from the C code)."""
import itertools, math
from vv.driver import Case
from vv.rt import R, I, land, lor, lnot, implies

C0 = 2.99792458e8
MU0 = 4.0e-7 * math.pi
EPS0 = 1.0 / (MU0 * C0 * C0)
ETA0 = MU0 * C0

E3, H3 = ('Ex', 'Ey', 'Ez'), ('Hx', 'Hy', 'Hz')
FACES = ('XLO', 'XHI', 'YLO', 'YHI', 'ZLO', 'ZHI')


def faces_of(spec):
    """'PEC' | dict | six-tuple -> list of six boundary strings (text after the face name)."""
    if isinstance(spec, str):
        return [spec] * 6
    return list(spec)


def mesh_text(B, dm, ext='PEC', s1=(), s2=(), nt=1, cn=None, ms=None, lines=None, of=None, s3=(), end=True, head='VM 1.0.0'):
    """dm: cells per axis; ms: edge(s); lines: three lists of line coordinates (numbers or symbolic)."""
    t = [head]
    t.append('CE generated')
    t.append('DM %d %d %d' % tuple(dm))
    t += list(s1)
    t.append('GS')
    for f, b in zip(FACES, faces_of(ext)):
        if b:
            t.append('BT %s %s' % (f, b))
    t += list(s2)
    if not any(str(x).lstrip().startswith(('EX', 'PW')) for x in s2):
        t += ['WF quiet GAUSSIAN_PULSE', 'EX 0 1 0 0 0 0 quiet EX quiet 0.0']      # a source card is mandatory
    t.append('GE')
    t.append('NT %s' % (nt if isinstance(nt, str) else B.tok(nt)))
    if cn is not None:
        t.append('CN %s' % B.tok(cn))
    if of is not None:
        t.append('OF ' + of)
    t += list(s3)
    if lines is not None:
        for n, l in zip(('XL', 'YL', 'ZL'), lines):
            t.append(n)
            t += [B.tok(x) for x in l]
    elif ms is not None:
        t.append('MS ' + (' '.join(B.tok(x) for x in ms) if isinstance(ms, (list, tuple)) else B.tok(ms)))
    if end:
        t.append('EN')
    return '\n'.join(t) + '\n'


class Grid:
    """View of the running program's grid."""

    def __init__(self, B):
        self.B = B
        self.n = B.iarr('numCells', 3)
        self.gi, self.go = B.iarr('gibox', 6), B.iarr('gobox', 6)
        self.p = {f: B.ptr(f) for f in E3 + H3}
        self.rows = {}

    def addr(self, f, i, j, k):
        r = self.rows.get((f, i, j))
        if r is None:
            p = self.p.get(f)
            if p is None:
                p = self.p[f] = self.B.ptr(f)
            B = self.B
            r = self.rows[(f, i, j)] = B.ld(B.ld(p + 8 * i, 'ptr') + 8 * j, 'ptr')
        return r + 4 * k

    def get(self, f, i, j, k):
        return self.B.ld(self.addr(f, i, j, k), 'f32')

    def set(self, f, i, j, k, v):
        self.B.st(self.addr(f, i, j, k), 'f32', v)

    def cells(self):
        return itertools.product(range(self.n[0]), range(self.n[1]), range(self.n[2]))

    def read(self, names):
        return {f: {c: self.get(f, *c) for c in self.cells()} for f in names}

    def lims(self, f):
        """Index ranges of component f inside the outer grid: E tangential / H normal planes included on both faces."""
        a = 'xyz'.index(f[1])
        out = []
        for d in range(3):
            lo, hi = self.go[2 * d], self.go[2 * d + 1]
            if f[0] == 'E':
                out.append(range(lo, hi) if d == a else range(lo, hi + 1))
            else:
                out.append(range(lo, hi + 1) if d == a else range(lo, hi))
        return out

    def idx(self, f):
        return itertools.product(*self.lims(f))

    def fill(self, lo=-1.0, hi=1.0, names=E3 + H3, where=None):
        """Arbitrary field state.  Returns the values."""
        B = self.B
        st = {}
        for f in names:
            st[f] = {}
            for c in self.cells():
                if where is None or where(f, c):
                    v = B.real('%s_%d_%d_%d' % ((f,) + c), lo, hi)
                    self.set(f, *c, v)
                else:
                    v = self.get(f, *c)
                st[f][c] = v
        return st


def sh(c, d, s):
    c = list(c)
    c[d] += s
    return tuple(c)


def edges(lines):
    """Mesh lines -> primary edge lengths."""
    return [b - a for a, b in zip(lines, lines[1:])]


class Steps:
    """Edge lengths of the padded grid (PML layers and ghost cells repeat the outermost edge; periodic wraps)."""

    def __init__(self, lines, layers=(0,) * 6, periodic=(False,) * 3):
        self.de, self.dh = [], []
        for d in range(3):
            e = edges(lines[d])
            lo, hi = layers[2 * d], layers[2 * d + 1]
            e = [e[0]] * lo + e + [e[-1]] * hi
            if periodic[d]:
                e = [e[-1]] + e + [e[0]]
            else:
                e = [e[0]] + e + [e[-1]]
            self.de.append(e)
            h = [None] * len(e)
            for i in range(1, len(e)):
                h[i] = 0.5 * (e[i] + e[i - 1])
            self.dh.append(h)


def curl_h(H, c, d, dh):
    """Component d of curl H at the E_d site c."""
    u, v = (d + 1) % 3, (d + 2) % 3
    Hu, Hv = H['H' + 'xyz'[u]], H['H' + 'xyz'[v]]
    return (Hv[c] - Hv[sh(c, u, -1)]) / dh[u][c[u]] - (Hu[c] - Hu[sh(c, v, -1)]) / dh[v][c[v]]


def curl_e(E, c, d, de):
    """Component d of curl E at the H_d site c."""
    u, v = (d + 1) % 3, (d + 2) % 3
    Eu, Ev = E['E' + 'xyz'[u]], E['E' + 'xyz'[v]]
    return (Ev[sh(c, u, 1)] - Ev[c]) / de[u][c[u]] - (Eu[sh(c, v, 1)] - Eu[c]) / de[v][c[v]]


def ghost_h(S, go, types):
    """Images of tangential H one half cell outside each face."""
    for d in range(3):
        lo, hi = go[2 * d], go[2 * d + 1]
        for t in ((d + 1) % 3, (d + 2) % 3):
            F = S['H' + 'xyz'[t]]
            for c in [x for x in F if x[d] == lo - 1]:
                ty = types[2 * d]
                if ty == 'PERIODIC':
                    F[c] = F[sh(c, d, hi - lo)]
                elif ty == 'PMC':
                    F[c] = -F[sh(c, d, 1)]
                elif ty == 'PEC':
                    F[c] = F[sh(c, d, 1)]
            for c in [x for x in F if x[d] == hi]:
                ty = types[2 * d + 1]
                if ty == 'PERIODIC':
                    F[c] = F[sh(c, d, -(hi - lo))]
                elif ty == 'PMC':
                    F[c] = -F[sh(c, d, -1)]
                elif ty == 'PEC':
                    F[c] = F[sh(c, d, -1)]


def lines_of(dm, ms):
    if not isinstance(ms, (list, tuple)):
        ms = (ms,) * 3
    return [[i * m for i in range(n + 1)] for n, m in zip(dm, ms)]


def graded(B, dm, base=1.0, tag='d', sym=True):
    """Graded mesh lines with symbolic increments whose order is fixed (so min/max comparisons do not fork)."""
    out = []
    order = [3, 1, 4, 2, 6, 5, 8, 7, 10, 9, 12, 11, 14, 13, 16, 15, 18, 17, 20, 19, 22, 21, 24, 23]
    for a in range(3):
        l = [0.0]
        for i in range(dm[a]):
            m = base * (order[i % len(order)] + 0.2 * a)
            if sym:
                l.append(l[-1] + B.real('%s%s%d' % (tag, 'xyz'[a], i), m, m * 1.02))
            else:
                l.append(l[-1] + m)
        out.append(l)
    return out


# ---------------------------------------------------------------------------------------------- media
FREE, PECM = ('FREE',), ('PEC',)


def simple(eps=1.0, sigma=0.0, mu=1.0):
    return ('SIMPLE', eps, sigma, mu)


def site2(f, c):
    """Twice the staggered position of component f at index c (integers)."""
    a = 'xyz'.index(f[1])
    if f[0] == 'E':
        return tuple(2 * c[d] + (1 if d == a else 0) for d in range(3))
    return tuple(2 * c[d] + (0 if d == a else 1) for d in range(3))


def in_box(f, c, box, mask='111111', off=(0, 0, 0)):
    """Component inside the closed box (mesh indices, grid offset off); a face masked off is open."""
    p = site2(f, c)
    for d in range(3):
        lo, hi = 2 * (box[2 * d] + off[d]), 2 * (box[2 * d + 1] + off[d])
        if p[d] < lo or p[d] > hi:
            return False
        if (mask[2 * d] == '0' and p[d] == lo) or (mask[2 * d + 1] == '0' and p[d] == hi):
            return False
    return True


def paint(g, objs, ext=None):
    """Reference media map: component -> medium, objects (box, medium, mask) painted in order; ext: face types (PEC walls last)."""
    off = (g.gi[0], g.gi[2], g.gi[4])
    m = {}
    for f in E3 + H3:
        for c in g.idx(f):
            v = FREE
            for box, med, mask in objs:
                if in_box(f, c, box, mask, off):
                    v = med
            if ext:
                p = site2(f, c)
                for s in range(6):
                    if ext[s] == 'PEC' and p[s // 2] == 2 * g.go[s]:
                        v = PECM
            m[f, c] = v
    return m


def check_media(B, g, m, dt, what=E3 + H3):
    """The update coefficients are those of the media map m."""
    for f in what:
        a = f[1]
        for c in g.idx(f):
            md = m[f, c]
            if f[0] == 'E':
                al, be = g.get('alphaE' + a, *c), g.get('betaE' + a, *c)
                if md == FREE:
                    B.near('alpha %s%s' % (f, c), al, 1.0, scale=1.0)
                    B.near('beta %s%s' % (f, c), be * EPS0, dt, scale=dt)
                elif md == PECM:
                    B.near('alpha %s%s' % (f, c), al, -1.0, scale=1.0)
                    B.check('beta %s%s' % (f, c), be == 0.0)
                else:
                    e, s = 2 * EPS0 * md[1], md[2] * dt
                    B.near('alpha %s%s' % (f, c), al * (e + s), e - s, scale=e + s)
                    B.near('beta %s%s' % (f, c), be * (e + s), 2 * dt, scale=2 * dt)
            else:
                ga = g.get('gammaH' + a, *c)
                mu = md[3] if md[0] == 'SIMPLE' else 1.0
                B.near('gamma %s%s' % (f, c), ga * (MU0 * mu), dt, scale=dt)


def mt_card(B, name, md):
    return 'MT %s SIMPLE %s' % (name, ' '.join(B.tok(x) for x in md[1:]))


def box_str(B, b):
    return ' '.join(B.tok(x) for x in b)


def sym_box(B, dm, tag='b', kind='volume', axis=None):
    """Symbolic bounding box inside the mesh, forked to concrete corners by the solver."""
    b = []
    for d in range(3):
        thin = (kind == 'surface' and d == axis) or (kind == 'line' and d != axis)
        lo = B.int('%s_lo%d' % (tag, d), 0, dm[d] if thin else dm[d] - 1)
        if thin:
            b += [lo, lo]
        else:
            hi = B.int('%s_hi%d' % (tag, d), 1, dm[d])
            B.assume(hi > lo)
            b += [lo, hi]
    return [B.fork(x) for x in b]


def run_mesh(B, text, body=None, args=(), rc=0, name='m.mesh'):
    B.mesh(name, text)
    r = B.main(list(args) + [name], body)
    B.check('exit status %s' % rc, r == rc)
    return r


# ---------------------------------------------------------------------------------------------- reference simulation
class Ref:
    """Independent leapfrog simulation on the program's own index space (walls PEC / PMC / PERIODIC, no padding).

    med: component -> medium (from paint) or None for free space; S: initial fields, or None for zero."""

    def __init__(self, g, lines, types, dt, med=None, S=None, layers=(0,) * 6):
        self.g, self.go, self.types, self.dt = g, g.go, faces_of(types), dt
        self.s = Steps(lines, layers, periodic=[self.types[2 * d] == 'PERIODIC' for d in range(3)])
        self.ins = {f: list(g.idx(f)) for f in E3 + H3}
        self.med = med
        self.S = S if S is not None else {f: {c: 0.0 for c in g.cells()} for f in E3 + H3}
        self.co = {}

    def wall(self, f, c):
        d0 = 'xyz'.index(f[1])
        return any(d != d0 and ((c[d] == self.go[2 * d] and self.types[2 * d] == 'PEC') or
                                (c[d] == self.go[2 * d + 1] and self.types[2 * d + 1] == 'PEC')) for d in range(3))

    def ab(self, f, c):
        k = (f, c)
        if k not in self.co:
            md = self.med[k] if self.med else FREE
            if f[0] == 'E':
                if self.wall(f, c) or md == PECM:
                    v = (-1.0, 0.0)
                elif md == FREE:
                    v = (1.0, self.dt / EPS0)
                elif md[0] == 'raw':
                    v = md[1:3]
                else:
                    e, s = 2 * EPS0 * md[1], md[2] * self.dt
                    v = ((e - s) / (e + s), 2 * self.dt / (e + s))
            else:
                v = self.dt / (MU0 * (md[3] if md[0] == 'SIMPLE' else 1.0))
            self.co[k] = v
        return self.co[k]

    def step_e(self):
        S, new = self.S, {}
        for d, f in enumerate(E3):
            new[f] = dict(S[f])
            for c in self.ins[f]:
                a, b = self.ab(f, c)
                v = S[f][c] if a == 1.0 else (a * S[f][c] if a != 0 else 0.0)
                if not (b.__class__ is float and b == 0.0):
                    v = v + b * curl_h(S, c, d, self.s.dh)
                new[f][c] = v
        S.update(new)

    def step_h(self):
        S, new = self.S, {}
        for d, f in enumerate(H3):
            new[f] = dict(S[f])
            for c in self.ins[f]:
                new[f][c] = S[f][c] - self.ab(f, c) * curl_e(S, c, d, self.s.de)
        S.update(new)

    def ghost(self):
        ghost_h(self.S, self.go, self.types)

    def run(self, nt, srce=None, srch=None):
        for n in range(nt):
            self.step_e()
            if srce:
                srce(self, n, n * self.dt)
            self.step_h()
            if srch:
                srch(self, n, (n + 0.5) * self.dt)
            self.ghost()
        return self.S

    def compare(self, B, scale_e=4.0, scale_h=None, where=None, names=E3 + H3, tag=''):
        sh_ = scale_e / ETA0 if scale_h is None else scale_h
        for f in names:
            for c in self.ins[f]:
                if where is None or where(f, c):
                    B.near('%s%s%s' % (tag, f, c), self.g.get(f, *c), self.S[f][c], scale=scale_e if f[0] == 'E' else sh_)


def mlines(dm, kind='graded', base=0.01):
    """Concrete mesh lines."""
    return graded(None, dm, base=base, sym=False) if kind == 'graded' else lines_of(dm, base)


def src_card(B, box, name, tag, wf, *par):
    return 'EX %s %s %s %s %s' % (box_str(B, box), name, tag, wf, ' '.join(B.tok(p) for p in par))


def gauss(A, td, w):
    return lambda t: A * math.exp(-0.5 * ((t - td) / w) ** 2)


TAGS = []
for h in ('', '='):
    for a in 'XYZ':
        TAGS += [h + 'E' + a, h + 'H' + a, h + 'J' + a, h + 'JM' + a, h + 'I' + a, h + 'IM' + a, h + 'ID' + a, h + 'IMD' + a, h + 'V' + a]
        for b in 'XYZ':
            if a != b:
                TAGS += [h + 'JS' + a + b, h + 'JMS' + a + b]
for a in 'XYZ':
    TAGS += ['VR' + a, 'IG' + a]


class Source:
    """What a source card means: field, hard or soft, and the value per unit of waveform, from the manual's normalisations."""

    def __init__(self, tag, box, g, s, size, resist=None):
        self.tag, self.box = tag, box
        self.off = off = (g.gi[0], g.gi[2], g.gi[4])
        self.hard = tag[0] == '='
        t = tag.lstrip('=')
        k = t.rstrip('XYZ')
        self.kind = k
        ax = t[len(k):]
        a = 'XYZ'.index(ax[0])
        mag = k in ('H', 'JM', 'JMS', 'IM', 'IMD')
        self.field = ('H' if mag else 'E') + 'xyz'[a]
        # extents of the source region: along the polarisation it fills edges, across it cells around the edges
        lo = [box[2 * d] + off[d] for d in range(3)]
        hi = [box[2 * d + 1] + off[d] for d in range(3)]

        def open_(d):     # sum of primary edges
            v = 0.0
            for i in range(lo[d], hi[d]):
                v = v + s.de[d][i]
            return v

        def closed(d):    # sum of dual edges
            v = 0.0
            for i in range(lo[d], hi[d] + 1):
                v = v + s.dh[d][i]
            return v
        length = closed(a) if mag else open_(a)
        side = {d: (open_(d) if mag else closed(d)) for d in range(3) if d != a}
        u, w = [d for d in range(3) if d != a]
        self.sigma = None
        self.length = length
        self.current = True
        self.empty = not any(True for c in g.idx(self.field) if in_box(self.field, c, box, off=off))
        self.num, den = size, 1.0
        if k in ('E', 'H'):
            self.current = False
        elif k in ('JS', 'JMS'):
            den = side[[d for d in range(3) if 'XYZ'[d] not in ax][0]]
        elif k in ('I', 'IM'):
            den = side[u] * side[w]
        elif k in ('ID', 'IMD'):
            den = side[u] * side[w] * length
        elif k == 'V':
            self.num, den, self.current = -size, length, False
        elif k in ('VR', 'IG'):
            den = side[u] * side[w] * resist
            if k == 'IG':
                self.num, den = size * resist, den
            self.sigma = length / den
            self.hard = False
        self.den = den
        self.v = 0.0 if self.empty and k not in ('E', 'H', 'J', 'JM') else self.num / den

    def apply(self, r, psi):
        F = r.S[self.field]
        for c in r.ins[self.field]:
            if in_box(self.field, c, self.box, off=self.off):
                if self.current:
                    co = r.ab(self.field, c)
                    co = co[1] if self.field[0] == 'E' else co
                    v = -(co * self.v * psi)
                else:
                    v = self.v * psi
                F[c] = v if self.hard else F[c] + v


def table(B, name):
    """Data rows of a text output (comment lines left out)."""
    return [l for l in B.lines(name) if l and not (l[0].__class__ is str and l[0].startswith('#'))]
