"""P02: PEC, PMC and periodic outer faces act as electric wall, magnetic wall and wrap-around, in every combination."""
from checks.common import *

BOUNDS = ('all 125 per-axis pairs of {PEC, PMC}x{PEC, PMC} plus periodic, every field sample symbolic (subject to the wall and wrap '
          'invariants of the initial state), 2 consecutive steps, 2x3x2 cells graded (quick); single-cell axes and 4x3x3 in thorough; eight sources of symbolic size in the cells beside the faces, 3x4x3 graded, 4 steps')
OUTSIDE = 'larger grids; PML and Mur faces (P03, P04); faces combined with internal structures'

PAIRS = [('PEC', 'PEC'), ('PEC', 'PMC'), ('PMC', 'PEC'), ('PMC', 'PMC'), ('PERIODIC', 'PERIODIC')]


def impose(S, go, types):
    """Wall and wrap invariants of a state: no tangential E on a PEC wall, equal E on opposite periodic faces."""
    for f in E3:
        a = 'xyz'.index(f[1])
        for d in range(3):
            if d == a:
                continue
            lo, hi = go[2 * d], go[2 * d + 1]
            if types[2 * d] == 'PERIODIC':
                for c in S[f]:
                    if c[d] == hi:
                        S[f][c] = S[f][sh(c, d, lo - hi)]
        for d in range(3):
            if d == a:
                continue
            lo, hi = go[2 * d], go[2 * d + 1]
            for c in S[f]:
                if (c[d] == lo and types[2 * d] == 'PEC') or (c[d] == hi and types[2 * d + 1] == 'PEC'):
                    S[f][c] = 0.0
    ghost_normal_h(S, go, types)


def ghost_normal_h(S, go, types):
    for f in H3:
        d = 'xyz'.index(f[1])
        lo, hi = go[2 * d], go[2 * d + 1]
        if types[2 * d] == 'PERIODIC':
            for c in S[f]:
                if c[d] == hi:
                    S[f][c] = S[f][sh(c, d, lo - hi)]
        for c in S[f]:
            if (c[d] == lo and types[2 * d] == 'PEC') or (c[d] == hi and types[2 * d + 1] == 'PEC'):
                S[f][c] = 0.0


def faces(types, dm, nsteps=2, graded_=True, periodic_const=False):
    def h(B):
        lines = graded(B, dm, base=0.01, sym=False) if graded_ else lines_of(dm, 0.01)

        def body():
            g = Grid(B)
            go = g.go
            names = E3 + H3
            ins = {f: set(g.idx(f)) for f in names}
            S = {f: {} for f in names}
            for f in names:
                sc = 1.0 if f[0] == 'E' else 1.0 / ETA0
                for c in g.cells():
                    S[f][c] = B.real('%s_%d_%d_%d' % ((f,) + c), -sc, sc) if c in ins[f] else 0.0
            impose(S, go, types)
            ghost_h(S, go, types)
            for f in names:
                for c in g.cells():
                    g.set(f, *c, S[f][c])
            B.real_propagate()
            dt = B.ld(B.g('dt'), 'f32')
            s = Steps(lines, periodic=[types[2 * d] == 'PERIODIC' for d in range(3)])
            for _ in range(nsteps):
                new = {f: dict(S[f]) for f in E3}
                for d, f in enumerate(E3):
                    for c in ins[f]:
                        if any(e != d and ((c[e] == go[2 * e] and types[2 * e] == 'PEC') or
                                           (c[e] == go[2 * e + 1] and types[2 * e + 1] == 'PEC')) for e in range(3)):
                            new[f][c] = 0.0
                        else:
                            new[f][c] = S[f][c] + dt / EPS0 * curl_h(S, c, d, s.dh)
                S.update(new)
                new = {f: dict(S[f]) for f in H3}
                for d, f in enumerate(H3):
                    for c in ins[f]:
                        new[f][c] = S[f][c] - dt / MU0 * curl_e(S, c, d, s.de)
                S.update(new)
                ghost_h(S, go, types)
            for f in names:
                for c in sorted(ins[f]):
                    B.near('%s%s' % (f, c), g.get(f, *c), S[f][c], scale=4.0 if f[0] == 'E' else 4.0 / ETA0)
            # opposite periodic faces carry the same field
            for d in range(3):
                if types[2 * d] == 'PERIODIC':
                    for f in names:
                        if (f[0] == 'E') == ('xyz'.index(f[1]) != d):
                            for c in sorted(ins[f]):
                                if c[d] == go[2 * d + 1]:
                                    B.near('%s%s equals its image' % (f, c), g.get(f, *c), g.get(f, *sh(c, d, go[2 * d] - go[2 * d + 1])),
                                           scale=1.0 if f[0] == 'E' else 1.0 / ETA0)
        B.mesh('m.mesh', mesh_text(B, dm, ext=types, nt=nsteps, lines=lines))
        rc = B.main(['m.mesh'], body)
        B.check('run completes', rc == 0)
    return h


def driven(types, nt=4, dm=(3, 4, 3)):
    """Sources in the cells beside the faces: what they add shows on the other side of a face at once, as what curls add does."""
    def h(B):
        lines = mlines(dm)
        x, y, z = dm
        par = [('HY', (0, 1, 1, 1, 1, 2)), ('JMZ', (x - 1, x, 1, 2, 1, 1)), ('HX', (1, 1, 0, 1, 1, 2)), ('IMZ', (1, 2, y - 1, y, 1, 1)),
               ('HX', (1, 1, 1, 2, 0, 1)), ('JMY', (1, 2, 1, 1, z - 1, z)), ('EX', (1, 2, 2, 2, 1, 1)), ('JZ', (1, 1, 2, 2, 1, 2))]
        amp = {'H': 1.0 / ETA0, 'E': 1.0, 'JM': 100.0, 'J': 0.3, 'IM': 0.03}
        amp = [amp[t[:-1]] for t, _ in par]
        size = [B.real('size%d' % n, -a, a) for n, a in enumerate(amp)]
        psi = gauss(1.0, 2e-11, 2e-11)

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            r = Ref(g, lines, types, dt, paint(g, [], types))
            src = [Source(t, b, g, r.s, size[n]) for n, (t, b) in enumerate(par)]

            def drive(k):
                def go(r, n, t):
                    for s in src:
                        if s.field[0] == k:
                            s.apply(r, psi(t))
                return go
            B.real_propagate()
            r.run(nt, drive('E'), drive('H'))
            r.compare(B, scale_e=4.0)
            for d in range(3):
                if types[2 * d] == 'PERIODIC':
                    for f in E3 + H3:
                        if (f[0] == 'E') == ('xyz'.index(f[1]) != d):
                            for c in r.ins[f]:
                                if c[d] == g.go[2 * d + 1]:
                                    B.near('%s%s equals its image' % (f, c), g.get(f, *c), g.get(f, *sh(c, d, g.go[2 * d] - g.go[2 * d + 1])),
                                           scale=1.0 if f[0] == 'E' else 1.0 / ETA0)
        cards = ['WF w GAUSSIAN_PULSE 1.0 2e-11 2e-11'] + [src_card(B, b, 's%d' % n, t, 'w', size[n]) for n, (t, b) in enumerate(par)]
        run_mesh(B, mesh_text(B, dm, ext=types, s2=cards, nt=nt, lines=lines), body)
    return h


def warmup(B):
    faces(['PEC'] * 6, (1, 1, 1), 1)(B)


def cases(tier):
    out = []
    for n, (x, y, z) in enumerate(itertools.product(PAIRS, PAIRS, PAIRS)):
        t = x + y + z
        out.append(Case('-'.join(t), faces(t, (2, 3, 2)), validate=1 if n % 7 == 0 or tier == 'thorough' else 0))
        if tier == 'thorough':
            out.append(Case('1 cell ' + '-'.join(t), faces(t, (1, 1, 1), 3)))
            out.append(Case('4x3x3 ' + '-'.join(t), faces(t, (4, 3, 3), 2, False)))
        if n % 5 == (n // 5) % 5 or tier == 'thorough':
            out.append(Case('sources ' + '-'.join(t), driven(t)))
    if tier == 'quick':
        for x in PAIRS:
            out.append(Case('thin x ' + '-'.join(x), faces(x * 3, (1, 2, 5))))
            out.append(Case('thin y ' + '-'.join(x), faces(x * 3, (5, 1, 2))))
            out.append(Case('thin z ' + '-'.join(x), faces(x * 3, (2, 5, 1))))
    return out
