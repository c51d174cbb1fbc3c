"""P22: the leapfrog energy of a closed system is kept exactly by lossless media and lost exactly to conductivity."""
from checks.common import *
from checks.P02 import impose, PAIRS

BOUNDS = ('two consecutive steps from an arbitrary field state (symbolic samples; energy is a quadratic form in all of them); all 125 combinations of PEC, PMC and periodic walls on graded grids of 1 to 3 cells; '
          'dielectric, magnetic and conducting blocks with concrete parameters, conductivities from 1e-4 to 1e4 S/m; PEC blocks, sheets and wires')
OUTSIDE = 'larger grids, absorbing walls, dispersive media and impedance sheets (no such energy), sources'


def energy(dm, types, objs=(), cards=(), lossy=False):
    types = faces_of(types)
    lines = mlines(dm)

    def h(B):
        ob, cd = list(objs), list(cards)

        def body():
            g = Grid(B)
            go = g.go
            dt = B.ld(B.g('dt'), 'f32')
            m = paint(g, ob, types)
            S = {f: {} for f in E3 + H3}
            ins = {f: set(g.idx(f)) for f in E3 + H3}
            for f in E3 + H3:
                sc = 1.0 if f[0] == 'E' else 1.0 / ETA0
                for c in g.cells():
                    v = 0.0
                    if c in ins[f] and not (f[0] == 'E' and m[f, c] == PECM):
                        v = B.real('%s_%d_%d_%d' % ((f,) + c), -sc, sc)
                    S[f][c] = v
            impose(S, go, types)
            ghost_h(S, go, types)
            for f in E3 + H3:
                for c in g.cells():
                    g.set(f, *c, S[f][c])

            def read():
                return {f: {c: g.get(f, *c) for c in ins[f]} for f in E3 + H3}
            st = [{f: {c: S[f][c] for c in ins[f]} for f in E3 + H3}]
            for _ in range(2):
                B.real_propagate()
                st.append(read())
            s = Steps(lines, periodic=[types[2 * d] == 'PERIODIC' for d in range(3)])

            def weight(f, c):
                """Volume of the cell around a sample; half on magnetic walls, one image only on periodic faces."""
                p, v = site2(f, c), 1.0
                for d in range(3):
                    on = p[d] % 2 == 0
                    v *= s.dh[d][c[d]] if on else s.de[d][c[d]]
                    if on and p[d] == 2 * go[2 * d + 1] and types[2 * d] == 'PERIODIC':
                        return 0.0
                    if on and (p[d] == 2 * go[2 * d] and types[2 * d] != 'PERIODIC' or p[d] == 2 * go[2 * d + 1]):
                        v *= 0.5
                return v
            w, loss = [0.0, 0.0], 0.0
            vol = 0.0
            for f in E3 + H3:
                for c in ins[f]:
                    md, wt = m[f, c], weight(f, c)
                    if f[0] == 'E':
                        if md == PECM:
                            continue
                        e = EPS0 * (md[1] if md[0] == 'SIMPLE' else 1.0)
                        vol += e * wt
                        for n in (1, 2):
                            w[n - 1] = w[n - 1] + (0.5 * e * wt) * (st[n][f][c] * st[n][f][c])
                        if md[0] == 'SIMPLE':
                            a = (st[1][f][c] + st[2][f][c]) * 0.5
                            loss = loss + (wt * dt) * (md[2] * (a * a))
                    else:
                        mu = MU0 * (md[3] if md[0] == 'SIMPLE' else 1.0)
                        for n in (1, 2):
                            w[n - 1] = w[n - 1] + (0.5 * mu * wt) * (st[n - 1][f][c] * st[n][f][c])
            if lossy:
                B.near('energy lost to conductivity', w[1] * 1e12, (w[0] - loss) * 1e12, scale=vol * 1e12)
            else:
                B.near('energy kept', w[1] * 1e12, w[0] * 1e12, scale=vol * 1e12)
        run_mesh(B, mesh_text(B, dm, ext=types, s2=cd, nt=1, lines=lines), body)
    return h


def cases(tier):
    cs = []
    for n, t in enumerate(itertools.product(PAIRS, PAIRS, PAIRS)):
        ty = t[0] + t[1] + t[2]
        cs.append(Case('walls ' + '-'.join(ty), energy(((2, 1, 1), (1, 2, 1), (1, 1, 2))[n % 3] if tier == 'quick' else ((2, 2, 1), (1, 2, 2), (2, 1, 2))[n % 3], ty), validate=1 if n % 10 == 0 else 0))
    a, b = simple(3.0, 0.0, 2.0), simple(5.0, 0.0, 1.0)
    la, lb = simple(3.0, 0.02, 2.0), simple(5.0, 4.0, 1.0)
    for ty in ('PEC', 'PMC', 'PERIODIC', ('PEC', 'PMC', 'PERIODIC', 'PERIODIC', 'PMC', 'PEC')):
        n = ty if isinstance(ty, str) else 'mixed'
        for x, y, l in ((a, b, False), (la, lb, True)):
            per = ty != 'PEC' and ty != 'PMC'
            # periodic meshes: objects span or avoid the joined faces alike
            o = [([0, 2, 0, 2, 0, 1], x, '111111'), ([1, 1, 0, 2, 0, 2], PECM, '111111')] if n in ('PEC', 'PMC') else [([0, 2, 0, 2, 0, 2], x, '111111')]
            if n in ('PEC', 'PMC'):
                o.insert(1, ([0, 1, 1, 2, 0, 2], y, '111111'))
            cd = ['MT mx SIMPLE %g %g %g' % x[1:], 'MT my SIMPLE %g %g %g' % y[1:]]
            for bx, md, _ in o:
                cd.append('%s %s %s' % ('TB' if md == PECM else 'MB', ' '.join(map(str, bx)), 'PEC' if md == PECM else ('mx' if md == x else 'my')))
            cs.append(Case('media %s %s' % (n, 'lossy' if l else 'lossless'), energy((2, 2, 2), ty, o, cd, l)))
    for k, ty in enumerate((('PERIODIC', 'PERIODIC', 'PMC', 'PEC', 'PMC', 'PMC'), ('PEC', 'PMC', 'PERIODIC', 'PERIODIC', 'PMC', 'PMC'), ('PMC', 'PMC', 'PEC', 'PMC', 'PERIODIC', 'PERIODIC'))):
        cs.append(Case('larger walls %d' % k, energy(((2, 2, 1), (1, 2, 2), (2, 1, 2))[k], ty)))
    o = [([0, 1, 0, 1, 0, 1], PECM, '111111'), ([1, 2, 1, 1, 1, 1], PECM, '111111')]
    cs.append(Case('structures', energy((2, 2, 1), 'PMC', o, ['MB 0 1 0 1 0 1 PEC', 'TW 1 2 1 1 1 1 PEC'])))
    for sg in (1e-4, 0.1, 5.0, 100.0, 1e4):
        md = simple(2.0, sg, 1.5)
        cs.append(Case('conductivity %g' % sg, energy((2, 1, 1), 'PMC', [([0, 2, 0, 1, 0, 1], md, '111111')], ['MT m SIMPLE 2 %g 1.5' % sg, 'MB 0 2 0 1 0 1 m'], True)))
    return cs
