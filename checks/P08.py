"""P08: every excitation type drives its component with the documented normalisation, time and hardness."""
from checks.common import *

BOUNDS = ('all 84 excitation types; boxes: symbolic corners along each axis of a graded 2x2x2 mesh (every point, line, surface and volume position along it); symbolic size, '
          'resistance and delay order; symbolic field state at the source (hard/soft); symbolic mesh increments for the normalisation; 1 to 3 steps; '
          'pairs of overlapping sources in both orders')
OUTSIDE = 'larger meshes and longer runs; the waveform shapes themselves (P12); plane waves (P09)'
W = 'WF w GAUSSIAN_PULSE %s %s %s'
SC = 1e4


def graded_tags(tag, vary, nt=1, state=True):
    """Concrete graded mesh, symbolic size and field state, boxes symbolic along one axis."""
    def h(B):
        dm = (2, 2, 2)
        lines = mlines(dm)
        size = B.real('size', -2.0, 2.0)
        lumped = tag[:2] in ('VR', 'IG')
        t = tag.lstrip('=')
        a = 'XYZ'.index(t[len(t.rstrip('XYZ'))])
        mag = t.rstrip('XYZ') in ('H', 'JM', 'JMS', 'IM', 'IMD')
        dist = t.rstrip('XYZ') not in ('E', 'H', 'J', 'JM')
        box = [0, 2, 1, 1, 0, 2] if vary != 1 else [1, 1, 0, 2, 0, 2]
        if dist:
            box = [0, 2, 1, 2, 0, 2]
        if lumped:
            box = [1] * 6
            box[2 * a + 1] = 2
        lo, hi = B.int('lo', 0, dm[vary]), B.int('hi', 0, dm[vary])
        B.assume(lo <= hi)
        if lumped:
            B.assume((hi == lo + 1) if vary == a else (hi == lo))
        if dist and mag == (vary != a):
            B.assume(hi > lo)            # a distributed source needs at least one component to be shared between
        box[2 * vary], box[2 * vary + 1] = B.fork(lo), B.fork(hi)
        resist = 50.0 if lumped else None
        dly = 2e-11
        A, td, w = 1.5, 3e-11, 2e-11
        psi = gauss(A, td + dly, w)

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            s = Steps(lines)
            src = Source(tag, box, g, s, size, resist)
            off = src.off
            med = None
            objs = []
            if src.sigma is not None:
                objs = [(box, simple(1.0, src.sigma, 1.0), '111111')]
            med = paint(g, objs, faces_of('PMC'))
            S = None
            if state:
                S = {f: {c: 0.0 for c in g.cells()} for f in E3 + H3}
                f = src.field
                for c in g.idx(f):
                    S[f][c] = B.real('%s_%d_%d_%d' % ((f,) + c), -1.0 if f[0] == 'E' else -1.0 / ETA0, 1.0 if f[0] == 'E' else 1.0 / ETA0)
                ghost_h(S, g.go, ['PMC'] * 6)
                for f in E3 + H3:
                    for c in g.cells():
                        g.set(f, *c, S[f][c])
            r = Ref(g, lines, 'PMC', dt, med, S)

            def se(r, n, t):
                if src.field[0] == 'E':
                    src.apply(r, psi(t))

            def shh(r, n, t):
                if src.field[0] == 'H':
                    src.apply(r, psi(t))
            B.real_propagate()
            r.run(nt, se, shh)
            # the drive must be resolved well even when its unit makes it small or large
            drive = abs(Source(tag, box, g, s, 1.0, resist).v)
            if src.field[0] == 'E':
                co = dt / EPS0 if src.current else 1.0
            else:
                co = dt / MU0 if src.current else 1.0
            d = max(co * drive, 1e-12)
            st = 1.0 if state else 0.0
            e = st + (d if src.field[0] == 'E' else d * ETA0)
            r.compare(B, scale_e=e, scale_h=e / ETA0)
        par = ((resist,) if lumped else ()) + (size, dly)
        cards = [W % (B.tok(A), B.tok(td), B.tok(w)), src_card(B, box, 's', tag, 'w', *par)]
        run_mesh(B, mesh_text(B, dm, ext='PMC', s2=cards, nt=nt, lines=lines), body)
    return h


def symbolic_geometry(tag, sym=True, rs=None):
    """Symbolic mesh increments: the normalisation for any cell sizes; one step from zero fields."""
    def h(B):
        dm = (3, 3, 3)
        t = tag.lstrip('=')
        a = 'XYZ'.index(t[len(t.rstrip('XYZ'))])
        lumped = tag[:2] in ('VR', 'IG')
        lines = graded(B, dm, base=0.01, sym=sym is True)
        if sym in ('x', 'y', 'z'):
            lines['xyz'.index(sym)] = graded(B, dm, base=0.01)['xyz'.index(sym)]
        box = [1, 2, 1, 2, 1, 2]
        if lumped:
            box = [1] * 6
            box[2 * a + 1] = 2
        size = B.real('size', -2.0, 2.0)
        resist = (rs or B.real('resist', 0.05, 500.0)) if lumped else None

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            s = Steps(lines)
            src = Source(tag, box, g, s, size, resist)
            B.real_propagate()
            f = src.field
            for c in g.idx(f):
                got = g.get(f, *c)
                if not in_box(f, c, box, off=src.off):
                    if f[0] == 'E' or src.field[0] == 'H':
                        B.check('%s%s untouched' % (f, c), got == 0.0)
                    continue
                if src.sigma is not None:
                    B.near('%s%s' % (f, c), got * (2 * EPS0 * src.den + src.length * dt), -2 * dt * src.num, scale=2e-11)
                elif src.current:
                    co = EPS0 if f[0] == 'E' else MU0
                    B.near('%s%s' % (f, c), got * co * src.den, -dt * src.num, scale=1e-11)
                else:
                    B.near('%s%s' % (f, c), got * src.den, src.num, scale=1.0)
        par = ((resist,) if lumped else ()) + (size,)
        cards = [W % ('1.0', '0.0', '1.0e3'), src_card(B, box, 's', tag, 'w', *par)]
        run_mesh(B, mesh_text(B, dm, ext='PMC', s2=cards, nt=1, lines=lines), body)
    return h


def pair(t1, t2, nt=2):
    """Two sources sharing an edge, in card order; different waveforms, delays and sizes."""
    def h(B):
        dm = (2, 2, 2)
        lines = mlines(dm)
        s1, s2 = B.real('size1', -2.0, 2.0), B.real('size2', -2.0, 2.0)
        b1, b2 = [0, 2, 0, 2, 0, 2], [1, 2, 1, 2, 1, 2]
        p1, p2 = gauss(1.0, 3e-11 + 1e-11, 2e-11), gauss(2.0, 1e-11, 3e-11)

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            s = Steps(lines)
            a, b = Source(t1, b1, g, s, s1), Source(t2, b2, g, s, s2)
            r = Ref(g, lines, 'PMC', dt, paint(g, [(b2, simple(3.0, 0.1, 2.0), '111111')]))

            def ap(k):
                def f(r, n, t):
                    for q, p in ((a, p1), (b, p2)):
                        if q.field[0] == k:
                            q.apply(r, p(t))
                return f
            B.real_propagate()
            r.run(nt, ap('E'), ap('H'))
            z = max(abs(Source(t, bx, g, s, 1.0).v) * (dt / (EPS0 if Source(t, bx, g, s, 1.0).field[0] == 'E' else MU0) if Source(t, bx, g, s, 1.0).current else 1.0) *
                    (1.0 if Source(t, bx, g, s, 1.0).field[0] == 'E' else ETA0) for t, bx in ((t1, b1), (t2, b2)))
            r.compare(B, scale_e=z)
        cards = ['MT m SIMPLE 3.0 0.1 2.0', 'MB %s m' % box_str(B, b2), W % ('1.0', '3e-11', '2e-11'), 'WF v GAUSSIAN_PULSE 2.0 1e-11 3e-11',
                 src_card(B, b1, 's1', t1, 'w', s1, 1e-11), src_card(B, b2, 's2', t2, 'v', s2)]
        run_mesh(B, mesh_text(B, dm, ext='PMC', s2=cards, nt=nt, lines=lines), body)
    return h


def ideal(tag, nt=3):
    """Lumped voltage source with negligible resistance: the limit of the resistive one (E alternates about -V/length)."""
    def h(B):
        dm = (2, 2, 2)
        lines = mlines(dm)
        size = B.real('size', -2.0, 2.0)
        a = 'XYZ'.index(tag[-1])
        box = [1] * 6
        box[2 * a + 1] = 2
        rs = B.real('resist', 0.0, 0.0099)

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            s = Steps(lines)
            r = Ref(g, lines, 'PMC', dt, paint(g, [(box, PECM, '111111')]))
            L = edges(lines[a])[1]
            off = (g.gi[0], g.gi[2], g.gi[4])
            c0 = (1 + off[0], 1 + off[1], 1 + off[2])
            f = 'E' + 'xyz'[a]

            def se(r, n, t):
                r.S[f][c0] = r.S[f][c0] - 2.0 * size / L
            B.real_propagate()
            r.run(nt, se)
            r.compare(B, scale_e=2.0 / L)
        cards = [W % ('1.0', '0.0', '1.0e3'), src_card(B, box, 's', tag, 'w', rs, size)]
        run_mesh(B, mesh_text(B, dm, ext='PMC', s2=cards, nt=nt, lines=lines), body)
    return h


def defaults(tag):
    """Size defaults to one and delay to zero."""
    def h(B):
        dm = (2, 2, 2)
        lines = mlines(dm)
        box = [1, 2, 1, 2, 1, 2]

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            s = Steps(lines)
            src = Source(tag, box, g, s, 1.0)
            x = B.real('Ex0', -1.0, 1.0)
            c = (g.gi[0], g.gi[2], g.gi[4])
            g.set('Ex', *c, x)
            S = {f: {k: 0.0 for k in g.cells()} for f in E3 + H3}
            S['Ex'][c] = x
            r = Ref(g, lines, 'PMC', dt, None, S)
            p = gauss(1.0, 2e-11, 2e-11)
            B.real_propagate()
            r.run(2, lambda r, n, t: src.apply(r, p(t)) if src.field[0] == 'E' else None, lambda r, n, t: src.apply(r, p(t)) if src.field[0] == 'H' else None)
            r.compare(B, scale_e=1.0, where=lambda f, c: True)
        cards = [W % ('1.0', '2e-11', '2e-11'), src_card(B, box, 's', tag, 'w')]
        run_mesh(B, mesh_text(B, dm, ext='PMC', s2=cards, nt=2, lines=lines), body)
    return h


def warmup(B):
    graded_tags('EX', 0)(B)


def cases(tier):
    out = []
    for i, t in enumerate(TAGS):
        for v in range(3) if tier == 'thorough' else (('XYZ'.index(t.lstrip('=')[len(t.lstrip('=').rstrip('XYZ'))]) + i) % 3,):
            out.append(Case('%s along %s' % (t, 'xyz'[v]), graded_tags(t, v), validate=1 if i % 5 == 0 else 0))
            if tier == 'thorough':
                out.append(Case('%s along %s 3 steps' % (t, 'xyz'[v]), graded_tags(t, v, 3)))
        if t[:2] in ('VR', 'IG'):
            for v in range(3):
                out.append(Case('%s any mesh along %s' % (t, 'xyz'[v]), symbolic_geometry(t, 'xyz'[v], 50.0)))
            out.append(Case('%s any resistance' % t, symbolic_geometry(t, False)))
        else:
            out.append(Case('%s any mesh' % t, symbolic_geometry(t)))
    for a, b in [('EX', '=EX'), ('=EX', 'EX'), ('=JY', 'IY'), ('IY', '=JY'), ('=HZ', 'JMZ'), ('JMZ', '=HZ'), ('JSXZ', 'IDX'), ('=VX', 'JX'), ('HX', 'EY'),
                 ('IMDY', 'JMSYX'), ('=IZ', '=JSZY'), ('VZ', 'EZ')]:
        out.append(Case('pair %s %s' % (a, b), pair(a, b)))
    for a in 'XYZ':
        out.append(Case('ideal VR' + a, ideal('VR' + a)))
    for t in ('EX', 'HX', '=EY', 'HZ'):
        out.append(Case('defaults ' + t, defaults(t)))
    return out
