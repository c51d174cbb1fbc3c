"""P12: every waveform type has its documented shape, defaults and delays; external waveforms are clamped cubic splines of their table."""
from checks.common import *
from vv import rt
from vv.rt import mexp, msin, mcos

BOUNDS = ('all ten waveform types and every number of optional parameters; size, waveform delay, source delay (both signs), width and frequency symbolic, so that the time into the '
          'waveform is any real number; steps 0 to 2; electric (whole step) and magnetic (half step) sources; external tables of 2 to 6 rows with symbolic values and symbolic '
          'time, two evaluations of one table in any order of times; default parameters at any Courant number')
OUTSIDE = 'longer tables; table rows at symbolic times; rounding error'
PI = math.pi


def gp(t, w):
    x = t / w
    return mexp(-0.5 * x * x)


def cp(t, w, end=2.0, after=0.0):
    if t <= 0.0:
        return 0.0
    if t < end * w:
        a = t * (PI / w)
        return (10.0 - 15.0 * mcos(a) + 6.0 * mcos(2.0 * a) - mcos(3.0 * a)) / 32.0
    return after


def shape(kind, t, w, f):
    if kind in ('GAUSSIAN_PULSE', 'NARROW_GAUSSIAN_PULSE'):
        return gp(t, w)
    if kind == 'DIFF_GAUSSIAN_PULSE':
        return -(t / w) * gp(t, w)
    if kind == 'RICKER_WAVELET':
        return (1.0 - (t / w) * (t / w)) * gp(t, w)
    if kind == 'MOD_GAUSSIAN_PULSE':
        return gp(t, w) * msin(2.0 * PI * f * t)
    if kind == 'COMPACT_PULSE':
        return cp(t, w)
    if kind == 'DIFF_COMPACT_PULSE':
        if t <= 0.0 or t >= 2.0 * w:
            return 0.0
        a = t * (PI / w)
        return (15.0 * msin(a) - 12.0 * msin(2.0 * a) + 3.0 * msin(3.0 * a)) / 32.0
    if kind == 'MOD_COMPACT_PULSE':
        return cp(t, w) * msin(2.0 * PI * f * t)
    if kind == 'RAMPED_SINUSOID':
        return cp(t, w, 1.0, 1.0) * msin(2.0 * PI * f * t)


# width and delay in time steps, modulation frequency in inverse time steps
DEF = {'GAUSSIAN_PULSE': (5 * 2 ** 0.5, 40, 0), 'DIFF_GAUSSIAN_PULSE': (5 * 2 ** 0.5, 40, 0), 'RICKER_WAVELET': (5 * 2 ** 0.5, 40, 0),
       'NARROW_GAUSSIAN_PULSE': (2, 12, 0), 'MOD_GAUSSIAN_PULSE': (20 * 2 ** 0.5, 120, 0.05), 'COMPACT_PULSE': (20, 0, 0),
       'DIFF_COMPACT_PULSE': (20, 0, 0), 'MOD_COMPACT_PULSE': (80, 0, 0.05), 'RAMPED_SINUSOID': (20, 0, 0.05)}
DM = (2, 2, 2)
CN = 0.5
DT = 0.01 * CN / 3 ** 0.5 / C0        # time step of the 1 cm mesh of the external waveform cases


def observe(B, wf, src, value, nt=1, ms=0.01, hard='E', cn=None, scale=1.0, extra=()):
    """Run with one hard source per entry of src (size, delay) and compare the driven edges with value(t - delay)."""
    def body():
        g = Grid(B)
        dt = B.ld(B.g('dt'), 'f32')
        B.real_propagate()
        for n, (size, delay) in enumerate(src):
            f = ('Ex', 'Ey', 'Ez')[n] if hard == 'E' else ('Hx', 'Hy', 'Hz')[n]
            t = (nt - 1 if hard == 'E' else nt - 0.5) * dt
            want = size * value(t - delay, dt)
            B.near('%s after %d steps' % (f, nt), g.get(f, g.gi[0] + 1, g.gi[2] + 1, g.gi[4] + 1), want, scale=scale)
    # one driven component per source: an electric edge, or the magnetic component of one cell face
    boxes = [[1, 2, 1, 1, 1, 1], [1, 1, 1, 2, 1, 1], [1, 1, 1, 1, 1, 2]] if hard == 'E' else [[1, 1, 1, 2, 1, 2], [1, 2, 1, 1, 1, 2], [1, 2, 1, 2, 1, 1]]
    cards = list(extra) + [wf] + [src_card(B, boxes[n], 's%d' % n, '=' + hard + 'XYZ'[n], 'w', size, delay) for n, (size, delay) in enumerate(src)]
    run_mesh(B, mesh_text(B, DM, ext='PMC', s2=cards, nt=nt, ms=ms, cn=cn), body)


def given(kind, npar, nt=1, hard='E', width=None):
    """npar of size, delay, width, frequency given on the card."""
    def h(B):
        w0, d0, f0 = DEF[kind]
        u = 2e-11
        A = B.real('size', 0.0, 2.0)
        td = B.real('delay', -10 * u, 10 * u)
        w = width or B.real('width', 0.5 * u, 4 * u)
        f = B.real('freq', 0.01 / u, 0.5 / u)
        if npar < 3:          # defaults: steps of a 1 cm mesh
            d = 0.0 if npar == 2 else d0 * DT
            sd = B.real('source delay', -d - 3.0 * w0 * DT, -d + 3.0 * w0 * DT)
        else:
            sd = B.real('source delay', -20 * u, 20 * u)
        par = [A, td, w, f][:npar]

        def value(t, dt):
            a, d, ww, ff = (par + [None] * 4)[:4]
            a = 1.0 if a is None else a
            d = d0 * dt if d is None else d
            ww = w0 * dt if ww is None else ww
            ff = f0 / dt if ff is None else ff
            off_kinks(B, kind, t - d, ww, u)
            return a * shape(kind, t - d, ww, ff)
        observe(B, ' '.join(['WF w', kind] + [B.tok(x) for x in par]), [(1.0, sd)], value, nt=nt, hard=hard, cn=CN, scale=1.0)
    return h


def off_kinks(B, kind, t, w, u):
    """Compact shapes are defined piecewise; stay away from the joints by more than rounding (they are continuous there)."""
    if 'COMPACT' in kind or 'RAMPED' in kind:
        for e in (0.0, w if 'RAMPED' in kind else 2.0 * w):
            B.assume(lor(t - e > 1e-4 * u, t - e < -1e-4 * u))


def defaults_at(kind, cn):
    def h(B):
        w0, d0, f0 = DEF[kind]
        s = cn * 1e-2 / (1 + 1 / 4.0 + 1 / 9.0) ** 0.5 / C0
        span = 3.0 * w0 * s
        sd = B.real('source delay', -d0 * s - span, -d0 * s + span)

        def value(t, dt):
            off_kinks(B, kind, t - d0 * dt, w0 * dt, dt)
            return shape(kind, t - d0 * dt, w0 * dt, f0 / dt)
        observe(B, 'WF w ' + kind, [(1.0, sd)], value, cn=cn, ms=[0.01, 0.02, 0.03])
    return h


def spline(ts, ys, t):
    """Cubic spline with zero slope at both ends: solve for the slopes by Gaussian elimination over the (numeric) spacings."""
    n = len(ts)
    h = [b - a for a, b in zip(ts, ts[1:])]
    A = [[0.0] * n for _ in range(n)]
    b = [0.0] * n
    A[0][0] = A[-1][-1] = 1.0
    for i in range(1, n - 1):
        A[i][i - 1], A[i][i], A[i][i + 1] = 1 / h[i - 1], 2 / h[i - 1] + 2 / h[i], 1 / h[i]
        b[i] = (ys[i] - ys[i - 1]) * (3 / h[i - 1] ** 2) + (ys[i + 1] - ys[i]) * (3 / h[i] ** 2)
    for i in range(n):
        p = A[i][i]
        A[i] = [x / p for x in A[i]]
        b[i] = b[i] / p
        for j in range(n):
            if j != i and A[j][i]:
                q = A[j][i]
                A[j] = [x - q * y for x, y in zip(A[j], A[i])]
                b[j] = b[j] - q * b[i]
    m = b
    if t < ts[0] or t > ts[-1]:
        return 0.0
    k = n - 2
    for i in range(n - 1):
        if t <= ts[i + 1]:
            k = i
            break
    s = (t - ts[k]) / h[k]
    s2, s3 = s * s, s * s * s
    return ys[k] * (2 * s3 - 3 * s2 + 1) + (s3 - 2 * s2 + s) * h[k] * m[k] + ys[k + 1] * (-2 * s3 + 3 * s2) + (s3 - s2) * h[k] * m[k + 1]


def external(n, npar=2, nt=1, two=False, hard='E', td=1.5):
    """Times: any position inside any interval of the table, and anywhere before or after it (off its ends, where the waveform jumps)."""
    def h(B):
        u = 2e-11
        ts = [u * x for x in (0.0, 1.0, 1.5, 3.5, 4.25, 6.0)][:n]
        if npar != 1:
            ts = [x - u for x in ts]
        ys = [B.real('y%d' % i, -1.0, 1.0) for i in range(n)]
        B.put_file('w.dat', ''.join('%s %s\n' % (B.tok(a), B.tok(b)) for a, b in zip(ts, ys)))
        par = [2.5, td * u][:npar]
        a, d = (par + [1.0, 0.0][npar:])[:2]
        sd = []
        for tag in ('first', 'second')[:2 if two else 1]:
            k = B.fork(B.int(tag + ' interval', 0, n))
            x = B.real(tag + ' position', 1e-3, 1 - 1e-3)
            t = ts[0] - 5 * u * x if k == n - 1 else ts[-1] + 5 * u * x if k == n else ts[k] + x * (ts[k + 1] - ts[k])
            sd.append((nt - 1 if hard == 'E' else nt - 0.5) * DT - d - t)
        observe(B, ' '.join(['WF w EXTERNAL "w.dat"'] + [B.tok(x) for x in par]), [(1.0, x) for x in sd], lambda t, dt: a * spline(ts, ys, t - d), nt=nt, hard=hard, cn=CN, scale=3.0)
    return h


def bad_external(text, what):
    def h(B):
        if text is not None:
            B.put_file('w.dat', text)
        run_mesh(B, mesh_text(B, DM, ext='PMC', s2=['WF w EXTERNAL "w.dat"', 'EX 1 2 1 1 1 1 s =EX w'], nt=1, ms=0.01), None, rc=6)
    return h


def several():
    """Each source uses its own waveform, by name."""
    def h(B):
        u = 2e-11
        sd = B.real('source delay', -4 * u, 4 * u)

        def body():
            g = Grid(B)
            B.real_propagate()
            want = {'Ex': 1.0 * shape('RICKER_WAVELET', -sd - u, u, 0), 'Ey': 2.0 * shape('GAUSSIAN_PULSE', -sd - 2 * u, 2 * u, 0), 'Ez': 1.5 * shape('DIFF_GAUSSIAN_PULSE', -sd - 3 * u, u, 0)}
            for f, v in want.items():
                B.near(f, g.get(f, g.gi[0] + 1, g.gi[2] + 1, g.gi[4] + 1), v, scale=1.0)
        cards = ['WF b DIFF_GAUSSIAN_PULSE 1.5 6e-11 2e-11', 'WF a GAUSSIAN_PULSE 2.0 4e-11 4e-11', 'WF aa RICKER_WAVELET 1.0 2e-11 2e-11']
        cards += [src_card(B, [1, 2, 1, 1, 1, 1], 'p', '=EX', 'aa', 1.0, sd), src_card(B, [1, 1, 1, 2, 1, 1], 'q', '=EY', 'a', 1.0, sd), src_card(B, [1, 1, 1, 1, 1, 2], 'r', '=EZ', 'b', 1.0, sd)]
        run_mesh(B, mesh_text(B, DM, ext='PMC', s2=cards, nt=1, ms=0.01), body)
    return h


def cases(tier):
    out = []
    for k in DEF:
        for n in range(5):
            out.append(Case('%s with %d parameters' % (k, n), given(k, n, nt=1 + n % 3)))
        out.append(Case('%s magnetic' % k, given(k, 4, nt=2, hard='H')))
        for cn in (0.3, 0.8):
            out.append(Case('%s defaults %g' % (k, cn), defaults_at(k, cn)))
    for n in range(2, 7):
        out.append(Case('EXTERNAL %d rows' % n, external(n)))
    out.append(Case('EXTERNAL no parameters', external(3, 0, 2)))
    out.append(Case('EXTERNAL size only', external(4, 1, 3)))
    out.append(Case('EXTERNAL negative delay', external(4, td=-2.0)))
    out.append(Case('EXTERNAL magnetic', external(4, 2, 2, hard='H')))
    out.append(Case('EXTERNAL two sources', external(5, 2, 1, two=True)))
    for t, w in ((None, 'missing file'), ('1 2\n', 'one row'), ('1 2\n1 3\n', 'repeated time'), ('1 2\n3 4\n2 1\n', 'decreasing time'), ('1 2\n3 x\n', 'not a number')):
        out.append(Case('EXTERNAL rejects ' + w, bad_external(t, w)))
    out.append(Case('several waveforms', several()))
    return out
