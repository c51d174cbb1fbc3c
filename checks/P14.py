"""P14: frequency outputs are the discrete Fourier sums of the recorded steps over the sums of the reference waveform."""
from checks.common import *
from vv.rt import msin, mcos

BOUNDS = ('point observers at every node of a 2x2x2 mesh, arbitrary initial field state, 1 to 4 steps (20 for the default frequencies), every output window of 3 steps, '
          'symbolic start and stop frequencies for the waveform spectra, concrete ones for the field spectra, 1 to 4 frequencies, default and named reference waveforms')
OUTSIDE = 'longer runs; reference waveforms whose spectrum vanishes at an output frequency'
PI2 = 2 * math.pi


def wave(k):
    """Three different waveforms with sizeable values at the first steps of the run (dt about 11 ps)."""
    return [(1.5, 1e-11, 2e-11), (-0.0 + 0.75, 2e-11, 1.5e-11), (2.0, 0.0, 3e-11)][k]


def fd(nt, of=None, ot=None, ref=None, point=(1, 1, 1), freqs=None, state=True, rows=None, nwf=3):
    def h(B):
        dm = (2, 2, 2)
        lines = mlines(dm)
        pt = [B.fork(B.int('p%d' % d, 0, 2)) for d in range(3)] if point is None else list(point)
        win = None
        if ot == 'sym':
            a, b = B.int('start', 0, nt - 1), B.int('stop', 0, nt + 1)
            B.assume(a <= b)
            win = (B.fork(a), B.fork(b))
        if of == 'sym':
            f0, f1 = B.real('fstart', 0.0, 1e10), B.real('fstop', 1e10, 3e10)
            card = (f0, f1, 3)
        else:
            card = of

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            S = {f: {c: 0.0 for c in g.cells()} for f in E3 + H3}
            if state:
                for f in E3 + H3:
                    for c in g.cells():
                        S[f][c] = B.real('%s_%d_%d_%d' % ((f,) + c), -1.0 if f[0] == 'E' else -1.0 / ETA0, 1.0 if f[0] == 'E' else 1.0 / ETA0)
                ghost_h(S, g.go, ['PMC'] * 6)
                for f in E3 + H3:
                    for c in g.cells():
                        g.set(f, *c, S[f][c])
            r = Ref(g, lines, 'PMC', dt, None, S)
            c = tuple(pt[d] + g.gi[2 * d] for d in range(3))
            hist, ok = [], {f: (nt == 1 or c in set(r.ins[f])) for f in E3 + H3}
            for n in range(nt):
                hist.append({f: r.S[f][c] for f in E3 + H3})
                if state:
                    r.run(1)
            B.real_propagate()
            B.saved = (dt, hist, ok)
        cards = ['WF w%d GAUSSIAN_PULSE %s %s %s' % ((k,) + tuple(B.tok(x) for x in wave(k))) for k in range(nwf)]
        cards += ['EX 0 1 0 0 0 0 quiet EX w0 0.0', 'OP %s spectrum FDOM_ASCII %s' % (box_str(B, [x for p in pt for x in (p, p)]), '' if ref is None else 'w%d' % ref)]
        s3 = [] if win is None else ['OT %d %d' % win]
        run_mesh(B, mesh_text(B, dm, ext='PMC', s2=cards, nt=nt, lines=lines, s3=s3, of=None if card is None else ' '.join(B.tok(x) for x in card)), body)
        dt, hist, ok = B.saved
        steps = range(nt) if win is None else range(win[0], min(win[1], nt - 1) + 1)

        def rows(name, ncol):
            t = table(B, name)
            want = card[2] if card else None
            if want is not None:
                B.check('rows of ' + name, len(t) == want)
            else:
                B.check('rows of ' + name, len(t) in (max(nt // 10, 1), nt // 10 + 1))
            B.check('columns of ' + name, all(len(l) == ncol for l in t))
            out = []
            for k, l in enumerate(t):
                if card is None:
                    f = k / (nt * dt)
                elif card[2] == 1:
                    f = card[0]
                else:
                    f = card[0] + k * ((card[1] - card[0]) / (card[2] - 1))
                B.near('frequency %d of %s' % (k, name), B.num(l[0]), f, scale=abs(card[1]) if card and card[1].__class__ is float else 1.0 / dt)
                out.append((f, [B.num(x) for x in l[1:]]))
            return out

        def dft(x, f, steps):
            re = im = 0.0
            for n in steps:
                if n == 0:
                    re = re + x[n]
                    continue
                a = f * (PI2 * n * dt)
                re = re + x[n] * mcos(a)
                im = im - x[n] * msin(a)
            return re, im
        if not hist:
            return
        W = []
        for k in range(nwf):
            x = [gauss(*wave(k))(n * dt) for n in range(nt)]
            spec = []
            for f, row in rows('wf_w%d_fd.asc' % k, 3):
                s = dft(x, f, range(nt))
                spec.append(s)
                B.near('real part of waveform %d' % k, row[0], s[0], scale=1.0)
                B.near('imaginary part of waveform %d' % k, row[1], s[1], scale=1.0)
            W.append(spec)
        if of == 'sym':
            return
        for q, (f, row) in enumerate(rows('eh_spectrum_fd.asc', 13)):
            wr, wi = W[ref or 0][q]
            den = wr * wr + wi * wi
            for m, c in enumerate(E3 + H3):
                if not ok[c]:
                    continue
                re, im = dft([x[c] for x in hist], f, steps)
                sc = (4.0 if c[0] == 'E' else 4.0 / ETA0) / den ** 0.5
                B.near('real part of %s' % c, row[2 * m], (re * wr + im * wi) * (1.0 / den), scale=sc)
                B.near('imaginary part of %s' % c, row[2 * m + 1], (im * wr - re * wi) * (1.0 / den), scale=sc)
    return h


def clash():
    """A waveform and an observer of the same name do not disturb each other."""
    def h(B):
        dm = (2, 2, 2)

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            v = B.real('Ex', -1.0, 1.0)
            g.set('Ex', g.gi[0] + 1, g.gi[2] + 1, g.gi[4] + 1, v)
            B.real_propagate()
            B.saved = (dt, v)
        cards = ['WF same GAUSSIAN_PULSE 2.0 0.0 1e-10', 'EX 0 1 0 0 0 0 same EX same 0.0', 'OP 1 1 1 1 1 1 same FDOM_ASCII same']
        run_mesh(B, mesh_text(B, dm, ext='PMC', s2=cards, nt=1, ms=0.01, of='1e9 1e9 1'), body)
        dt, v = B.saved
        t = table(B, 'eh_same_fd.asc')
        w = table(B, 'wf_same_fd.asc')
        B.check('one row each', len(t) == 1 and len(w) == 1)
        if len(t) == 1 and len(w) == 1:
            B.near('waveform', B.num(w[0][1]), 2.0, scale=2.0)
            B.near('field', B.num(t[0][1]), 0.5 * v, scale=1.0)
    return h


def cases(tier):
    out = [Case('any node, one step', fd(1, (0.0, 3e9, 2), point=None), validate=1),
           Case('any node, two steps', fd(2, (1e9, 7e9, 2), point=None), validate=1),
           Case('window of 3 steps', fd(3, (1e9, 8e9, 3), ot='sym')),
           Case('four steps', fd(4, (0.0, 1e10, 4))),
           Case('one frequency', fd(2, (2e9, 2e9, 1))), Case('one frequency of a range', fd(2, (2e9, 5e9, 1))), Case('equal frequencies', fd(2, (2e9, 2e9, 3))),
           Case('reference 0', fd(2, (1e9, 4e9, 3), ref=0)), Case('reference 1', fd(2, (1e9, 4e9, 3), ref=1)), Case('reference 2', fd(3, (1e9, 4e9, 3), ref=2)),
           Case('reference 1 window', fd(3, (1e9, 4e9, 2), ref=1, ot='sym')),
           Case('symbolic frequencies', fd(2, 'sym', state=False, nwf=2)), Case('symbolic frequencies 3 steps', fd(3, 'sym', state=False, nwf=2)),
           Case('default frequencies 1 step', fd(1)), Case('default frequencies 9 steps', fd(9, state=False)), Case('default frequencies 20 steps', fd(20, state=False)),
           Case('default frequencies 37 steps', fd(37, state=False)), Case('same name', clash())]
    if tier == 'thorough':
        out += [Case('8 steps', fd(8, (0.0, 1e10, 6))), Case('window of 5 steps', fd(5, (1e9, 9e9, 2), ot='sym', ref=2))]
    return out
