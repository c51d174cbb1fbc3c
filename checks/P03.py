"""P03: PML faces follow the graded uniaxial PML equations, carry the adjoining medium, and are plain space when switched off."""
import random
from checks.common import *

BOUNDS = ('2 steps from an arbitrary symbolic field state (every sample of the padded grid); each face, every pair and every triple of faces, all six; 1 to 3 layers with different '
          'order, effective index, reflection and stretch per face, default parameters; opposite and side faces PEC, PMC or periodic; graded and uniform meshes of 1 to 3 cells; '
          'conducting, dielectric, magnetic and PEC structures reaching the layer; effective index and maximum stretch symbolic for single layers')
OUTSIDE = 'more layers and larger grids; dispersive media reaching a layer; layers beside Mur faces'
DEFAULT = (6, 4, 1.0, -1.0, 1.0)


class PmlRef(Ref):
    """par[face]: (layers, order, effective index, reflection, maximum stretch)."""

    def __init__(self, g, lines, types, dt, par, med=None, S=None):
        self.par = par
        Ref.__init__(self, g, lines, types, dt, med, S, layers=tuple(par[s][0] if s in par else 0 for s in range(6)))
        self.gi = g.gi
        self.pro = {}
        self.P = {f: {} for f in E3 + H3}
        self.PP = {f: {} for f in E3}

    def profile(self, d, p):
        """(kappa, s) at doubled index p along axis d."""
        if (d, p) not in self.pro:
            k, s = 1.0, 0.0
            for side in (0, 1):
                f = 2 * d + side
                if f not in self.par:
                    continue
                n, m, neff, refl, kmax = self.par[f]
                edge, cell = self.gi[f], self.s.de[d][self.go[f] - side]
                x = (2 * edge - p) / 2.0 / n if side == 0 else (p - 2 * edge) / 2.0 / n
                if x > 0:
                    if refl > 0:
                        smax = -(m + 1) * math.log(refl) / (2 * ETA0 * n * cell) / neff
                    else:
                        smax = 4.0 * (m + 1) / (5 * ETA0 * cell) / neff
                    k, s = 1.0 + (kmax - 1.0) * x ** m, smax * x ** m * self.dt / (2 * EPS0)
            self.pro[d, p] = (k, s)
        return self.pro[d, p]

    def inside(self, f, c):
        p = site2(f, c)
        return all(2 * self.gi[2 * d] <= p[d] <= 2 * self.gi[2 * d + 1] for d in range(3))

    def layer(self, f, c, a, drive, new):
        """Relaxation over the three axes: drive already multiplied by the curl coefficient."""
        p = site2(f, c)
        u, v = (a + 1) % 3, (a + 2) % 3
        (kd, sd), (ku, su), (kv, sv) = self.profile(a, p[a]), self.profile(u, p[u]), self.profile(v, p[v])
        old = self.P[f].get(c, 0.0)
        P = ((ku - su) * old + drive) * (1.0 / (ku + su))
        self.P[f][c] = P
        new[f][c] = ((kv - sv) * self.S[f][c] + (kd + sd) * P - (kd - sd) * old) * (1.0 / (kv + sv))

    def step_e(self):
        S, new = self.S, {}
        for d, f in enumerate(E3):
            new[f] = dict(S[f])
            for c in self.ins[f]:
                a, b = self.ab(f, c)
                x = 0.0 if b == 0.0 else b * curl_h(S, c, d, self.s.dh)
                if self.inside(f, c):
                    new[f][c] = a * S[f][c] + x
                else:
                    q = self.PP[f].get(c, 0.0)
                    r = a * q + x
                    self.PP[f][c] = r
                    self.layer(f, c, d, r - q, new)
        S.update(new)

    def step_h(self):
        S, new = self.S, {}
        for d, f in enumerate(H3):
            new[f] = dict(S[f])
            for c in self.ins[f]:
                x = -(self.ab(f, c) * curl_e(S, c, d, self.s.de))
                if self.inside(f, c):
                    new[f][c] = S[f][c] + x
                else:
                    self.layer(f, c, d, x, new)
        S.update(new)


def carry(g, objs, types):
    """Media map with every site outside the inner box taking the medium of its projection onto the adjoining cells; walls on the outermost planes."""
    off = (g.gi[0], g.gi[2], g.gi[4])
    m = {}
    for f in E3 + H3:
        for c in g.idx(f):
            p = list(site2(f, c))
            q = list(c)
            for d in range(3):
                half = p[d] % 2
                if p[d] < 2 * g.gi[2 * d]:
                    q[d] = g.gi[2 * d]
                elif p[d] > 2 * g.gi[2 * d + 1]:
                    q[d] = g.gi[2 * d + 1] - half
            v = FREE
            for box, med, mask in objs:
                if in_box(f, tuple(q), box, mask, off):
                    v = med
            for s in range(6):
                if types[s] in ('PEC', 'PML') and p[s // 2] == 2 * g.go[s] and f[0] == 'E' and 'xyz'.index(f[1]) != s // 2:
                    v = PECM
            m[f, c] = v
    return m


def card(p):
    return 'PML' if p is None else 'PML %s' % ' '.join(str(x) for x in p)


def run(dm, spec, nt=2, objs=(), kind='graded', be=None, free=False):
    """spec: six entries, a wall type or a PML parameter tuple (None: defaults)."""
    def h(B):
        lines = mlines(dm, kind)
        par = {s: (x or DEFAULT) for s, x in enumerate(spec) if not isinstance(x, str)}
        types = [x if isinstance(x, str) else 'PML' for x in spec]
        objs2 = [(b, m, '111111') for b, m in objs]

        def body():
            g = Grid(B)
            for s in range(6):
                B.check('layers on face %d' % s, abs(g.gi[s] - g.go[s]) == (par[s][0] if s in par else 0))
            dt = B.ld(B.g('dt'), 'f32')
            ins = {f: set(g.idx(f)) for f in E3 + H3}
            r = PmlRef(g, lines, types, dt, par, carry(g, objs2, types))
            for f in E3 + H3:
                sc = 1.0 if f[0] == 'E' else 1.0 / ETA0
                for c in g.cells():
                    wall = f[0] == 'E' and r.med.get((f, c)) == PECM or f[0] == 'H' and any(
                        types[2 * d + q] in ('PEC', 'PML') and site2(f, c)[d] == 2 * g.go[2 * d + q] for d in range(3) for q in (0, 1))
                    v = B.real('%s_%d_%d_%d' % ((f,) + c), -sc, sc) if c in ins[f] and not wall else 0.0
                    r.S[f][c] = v
            for d in range(3):
                if types[2 * d] == 'PERIODIC':
                    for f in E3 + H3:
                        for c in ins[f]:
                            if site2(f, c)[d] == 2 * g.go[2 * d + 1]:
                                r.S[f][c] = r.S[f][sh(c, d, g.go[2 * d] - g.go[2 * d + 1])]
            ghost_h(r.S, g.go, types)
            for f in E3 + H3:
                for c in g.cells():
                    g.set(f, *c, r.S[f][c])
            B.real_propagate()
            r.run(nt)
            r.compare(B, scale_e=8.0)
        cards = []
        media = []
        for b, m in objs:
            if m == PECM:
                cards.append('MB %s PEC' % box_str(B, b))
            else:
                if m not in media:
                    media.append(m)
                cards.append('MB %s med%d' % (box_str(B, b), media.index(m)))
        cards = [mt_card(B, 'med%d' % n, m) for n, m in enumerate(media)] + cards
        ext = [x if isinstance(x, str) else card(x) for x in spec]
        s1 = ()
        if be is not None:
            ext, s1 = None, be
        text = mesh_text(B, dm, ext='' if ext is None else ext, s1=s1, s2=cards, nt=nt, lines=lines)
        run_mesh(B, text, body)
    return h


def symbolic(face, which, order, refl, layers=1):
    """Effective index or stretch symbolic on one face; the field state is concrete."""
    def h(B):
        dm = (2, 2, 2)
        lines = mlines(dm, 'uniform')
        rnd = random.Random(face * 7 + order)
        val = B.real(which, 1.0, 4.0)
        p = [layers, order, 1.5, refl, 2.0]
        p[2 if which == 'n_eff' else 4] = val
        types = ['PEC'] * 6
        types[face] = 'PML'
        ext = list(types)
        ext[face] = 'PML ' + ' '.join(B.tok(x) for x in p)

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            r = PmlRef(g, lines, types, dt, {face: tuple(p)}, carry(g, [], types))
            for f in E3 + H3:
                for c in r.ins[f]:
                    if r.med[f, c] != PECM:
                        r.S[f][c] = rnd.choice((-1.0, -0.5, 0.5, 1.0)) * (1.0 if f[0] == 'E' else 1.0 / 256)
                        g.set(f, *c, r.S[f][c])
            B.real_propagate()
            r.run(1)
            r.compare(B, scale_e=8.0)
        run_mesh(B, mesh_text(B, dm, ext=ext, nt=1, lines=lines), body)
    return h


A, C, D = (2, 3, 1.0, 1e-3, 3.0), (1, 2, 1.5, -1.0, 1.0), (3, 4, 1.0, 1e-6, 2.0)
OFF = (2, 3, 1.0, 1.0, 1.0)
GLASS, LOSSY, MAG = simple(4.0, 0.0, 1.0), simple(2.0, 0.05, 1.0), simple(1.0, 0.0, 3.0)


def pick(mask, par, wall='PEC'):
    return [par[s % len(par)] if mask >> s & 1 else wall for s in range(6)]


def cases(tier):
    out = []
    for s in range(6):
        out.append(Case('face %d' % s, run((2, 2, 2), pick(1 << s, [A, C, D][s % 3:] + [A, C, D][:s % 3]))))
        out.append(Case('face %d PMC sides' % s, run((2, 2, 2), pick(1 << s, [C], 'PMC'))))
        out.append(Case('face %d switched off' % s, run((2, 2, 2), pick(1 << s, [OFF]), 2)))
        out.append(Case('face %d three steps' % s, run((1, 2, 1), pick(1 << s, [A]), 3)))
    for a, b in itertools.combinations(range(6), 2):
        out.append(Case('faces %d %d' % (a, b), run((2, 2, 1) if a % 2 else (1, 2, 2), pick(1 << a | 1 << b, [C, A])), validate=0 if tier == 'quick' else 1))
    for a, b, c in itertools.product((0, 1), (2, 3), (4, 5)):
        out.append(Case('corner %d %d %d' % (a, b, c), run((1, 2, 1), pick(1 << a | 1 << b | 1 << c, [C, (2, 2, 1.0, 1e-4, 2.0)])), validate=0 if tier == 'quick' else 1))
    out.append(Case('all faces', run((1, 1, 1), pick(63, [C, (1, 1, 1.0, 1e-2, 2.0), (1, 3, 1.0, 1e-4, 4.0)]))))
    out.append(Case('all faces graded', run((2, 2, 2), pick(63, [(1, 1, 1.0, 1e-2, 2.0), C]), 1)))
    for d in range(3):
        s = [None] * 6
        for e in range(3):
            for q in range(2):
                s[2 * e + q] = (1, 4, 1.0, -1.0, 1.0) if e == d else 'PERIODIC'
        out.append(Case('periodic sides %d' % d, run((2, 2, 2), s)))
    out.append(Case('default parameters', run((1, 1, 1), [None] + ['PEC'] * 5)))
    out.append(Case('default parameters z', run((1, 1, 1), ['PEC'] * 5 + [None])))
    # structures reaching the layer
    for s in range(6):
        d, q = s // 2, s % 2
        for thick in (1, 3):
            b = [0, 2, 0, 2, 0, 2]
            b[2 * d:2 * d + 2] = [0, thick] if q == 0 else [3 - thick, 3]
            e = (d + 1) % 3
            b[2 * e + 1] = 1
            dm = [2, 2, 2]
            dm[d] = 3
            for m, name in ((GLASS, 'glass'), (LOSSY, 'lossy'), (MAG, 'magnetic'), (PECM, 'metal')):
                if thick == 1 or tier == 'thorough' or name == 'lossy':
                    out.append(Case('%s %d cells at face %d' % (name, thick, s), run(tuple(dm), pick(1 << s, [C]), 1 if name != 'lossy' else 2, objs=[(b, m)]), validate=0 if tier == 'quick' else 1))
    b2 = [0, 1, 0, 1, 0, 1]
    for mask in (0b010101, 0b101010, 0b011001, 0b100110):
        out.append(Case('media at corner %s' % bin(mask), run((2, 2, 2), pick(mask, [C]), 1, objs=[(b2, GLASS), ([1, 2, 1, 2, 1, 2], LOSSY), ([0, 1, 1, 2, 1, 2], MAG)])))
    for s in range(6):
        for w in ('n_eff', 'kmax'):
            out.append(Case('symbolic %s face %d' % (w, s), symbolic(s, w, 1 + s % 3, (-1.0, 1e-3)[s % 2], 1 + (s // 2) % 2 if w == 'kmax' else 1)))
    out.append(Case('legacy cards', run((1, 2, 1), [(2, 4, 1.0, -1.0, 1.0), 'PEC', 'PMC', (1, 4, 1.0, -1.0, 1.0), 'PEC', 'PMC'], be=['BR 0 -1 1 0 -1 1', 'BE 2 0 0 1 0 0'])))
    if tier == 'thorough':
        for mask in range(1, 64):
            out.append(Case('mask %d' % mask, run((2, 1, 2), pick(mask, [C, A, (1, 3, 2.0, 1e-2, 2.0)], ('PEC', 'PMC')[mask % 2]), 2)))
    return out
