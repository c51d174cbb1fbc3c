"""P21: results do not depend on how the axes are labelled."""
from checks.common import *
from checks.P02 import impose
from checks.P09 import direction
from checks.P11 import cyc, cbox, cext

BOUNDS = ('every mesh run under all three cyclic labellings from the same arbitrary field state (symbolic samples on the whole padded grid) or from rest with symbolic source sizes, 2 to 4 steps: all wall types on '
          'different faces, layers with different parameters, masked blocks of all media, all 84 source types, oblique plane waves, impedance sheets of both orientations, wires, all observer kinds, '
          'graded, brick and cubic meshes')
OUTSIDE = 'mirror relabellings; meshes larger than 4 cells per axis; plane waves arriving exactly along an axis or quadrant border'
A = 'XYZ'


def tag_n(tag, n):
    h = '=' if tag[0] == '=' else ''
    t = tag.lstrip('=')
    k = t.rstrip('XYZ')
    return h + k + ''.join(A[(A.index(x) + n) % 3] for x in t[len(k):])


def mask_n(m, n):
    return ''.join(cbox(list(m), n))


def angles_n(th, ph, ps, n):
    k, e, h = direction(th, ph, ps)
    k, e = cyc(list(k), n), cyc(list(e), n)
    th = math.acos(k[2])
    ph = math.atan2(k[1], k[0])
    s, c = math.sin, math.cos
    # e = cos(psi) a + sin(psi) b
    a = (s(ph), -c(ph), 0.0)
    b = (-c(th) * c(ph), -c(th) * s(ph), s(th))
    ps = math.atan2(sum(x * y for x, y in zip(e, b)), sum(x * y for x, y in zip(e, a)))
    d = math.degrees
    return d(th), d(ph) % 360.0, d(ps) % 360.0


def card_n(B, x, n):
    """One card of a mesh for labelling n."""
    if isinstance(x, str):
        return x
    k, box = x[0], x[1]
    b = ' '.join(str(v) for v in cbox(list(box), n))
    if k == 'MB':
        return 'MB %s %s %s' % (b, x[2], mask_n(x[3], n))
    if k == 'EX':
        return 'EX %s %s %s %s' % (b, x[2], tag_n(x[3], n), ' '.join(v if isinstance(v, str) else B.tok(v) for v in x[4:]))
    if k == 'PW':
        return 'PW %s %s %s %.12g %.12g %.12g %s %s' % ((b, x[2], x[3]) + angles_n(*(x[4] + (n,))) + (mask_n(x[5], n), ' '.join(v if isinstance(v, str) else B.tok(v) for v in x[6:])))
    if k == 'OP':
        return 'OP %s %s %s%s' % (b, x[2], x[3], ' ' + ' '.join(str(v) for v in cyc(list(x[4]), n)) if len(x) > 4 else '')
    return '%s %s %s' % (k, b, ' '.join(str(v) for v in x[2:]))        # TB, TW


def run(ext='PEC', cards=(), dm=(3, 2, 2), nt=2, state=True, lines='graded', files=None, sizes=(), tol_e=4.0, s3=()):
    ext = faces_of(ext)
    ln = {'graded': mlines(dm), 'brick': lines_of(dm, [0.01, 0.012, 0.015]), 'cubic': lines_of(dm, 0.01)}[lines]

    def h(B):
        for k, v in (files or {}).items():
            B.put_file(k, v)
        val = {k: B.real(k, lo, hi) for k, lo, hi in sizes}
        cs = [x if isinstance(x, str) else tuple(val.get(v, v) if isinstance(v, str) else v for v in x) for x in cards]
        got = []
        for n in range(3):
            e, d = cext(ext, n), tuple(cyc(list(dm), n))
            l = cyc(list(ln), n)
            r = {}

            def back(f, c):
                """Component and site under labelling 0."""
                return f[0] + 'xyz'[('xyz'.index(f[1]) - n) % 3], tuple(c[(a + n) % 3] for a in range(3))

            def body():
                g = Grid(B)
                if state:
                    S = {}
                    types = [x.split()[0] for x in e]
                    ins = {f: set(g.idx(f)) for f in E3 + H3}
                    for f in E3 + H3:
                        S[f] = {}
                        s = 1.0 if f[0] == 'E' else 1.0 / ETA0
                        for c in g.cells():
                            f0, c0 = back(f, c)
                            S[f][c] = B.real('%s_%d_%d_%d' % ((f0,) + c0), -s, s) if c in ins[f] else 0.0
                    impose(S, g.go, types)
                    ghost_h(S, g.go, types)
                    for f in E3 + H3:
                        for c in g.cells():
                            g.set(f, *c, S[f][c])
                B.real_propagate()
                r['dt'] = B.ld(B.g('dt'), 'f32') * C0 * 100
                for f in E3 + H3:
                    for c in g.idx(f):
                        r[back(f, c)] = g.get(f, *c)
                B.saved = r
            ops = [c for c in cs if not isinstance(c, str) and c[0] == 'OP']
            run_mesh(B, mesh_text(B, d, ext=e, s2=[card_n(B, c, n) for c in cs], nt=nt, lines=l, s3=s3), body)
            r = dict(B.saved)
            for o in ops:
                if o[3].endswith('ASCII'):
                    t = table(B, 'eh_%s_%s.asc' % (o[2], 'td' if o[3][0] == 'T' else 'fd'))
                    w = 1 if o[3][0] == 'T' else 2
                    r['rows', o[2]] = len(t)
                    for q, row in enumerate(t):
                        v = row[2 if w == 1 else 1:]
                        for m, f in enumerate(E3 + H3):
                            for p in range(w):
                                r[(o[2], q, p), back(f, (0, 0, 0))[0]] = B.num(v[m * w + p])
            if any(o[3] == 'TDOM_BINARY' for o in ops):
                v = B.binary('impulse.dat', ('if', 'iiiffffff'))[0]
                r['records', 0] = len(v)
                cnt = {}
                for q in range((len(v) - 2) // 9):
                    node = tuple(int(x) for x in v[2 + 9 * q:5 + 9 * q])
                    node = tuple(node[(a + n) % 3] for a in range(3))
                    k = cnt[node] = cnt.get(node, 0) + 1
                    for m, f in enumerate(E3 + H3):
                        r[('impulse', node, k), back(f, (0, 0, 0))[0]] = v[5 + 9 * q + m]
            got.append(r)
        a = got[0]
        for n, b in ((1, got[1]), (2, got[2])):
            B.check('same places', set(a) == set(b) and len(a) > 10)
            for k in a:
                if k[0] in ('rows', 'records'):
                    B.check('number of %s' % (k,), a[k] == b[k])
                elif k == 'dt':
                    B.near('time step', a[k], b[k], scale=0.1)
                elif k in b:
                    f = k[0] if isinstance(k[0], str) else k[1]
                    B.near('labelling %d: %s' % (n, k), a[k], b[k], scale=tol_e if f[0] == 'E' else tol_e / ETA0)
    return h


PML = ('PML 2 3 1.0 1e-3 2.0', 'PML 1 2 1.5 1e-2 1.0', 'PEC', 'PML 3 2 1.0 1e-4 1.5', 'PMC', 'PML 2 2 1.0 -1.0 1.0')
MIX = {'PEC PMC': ('PEC', 'PMC', 'PMC', 'PEC', 'PEC', 'PEC'), 'periodic x': ('PERIODIC', 'PERIODIC', 'PEC', 'PMC', 'PMC', 'PMC'), 'periodic xz': ('PERIODIC', 'PERIODIC', 'PEC', 'PMC', 'PERIODIC', 'PERIODIC'),
       'periodic': 'PERIODIC', 'MUR': 'MUR', 'MUR PEC PMC': ('MUR', 'PEC', 'PMC', 'MUR', 'MUR', 'MUR'), 'MUR periodic': ('MUR', 'MUR', 'PERIODIC', 'PERIODIC', 'PEC', 'MUR'), 'PML': PML,
       'PML periodic': ('PERIODIC', 'PERIODIC', 'PML 2 2 1.0 1e-3 1.0', 'PEC', 'PMC', 'PML 1 3 1.0 1e-2 2.0'), 'PML MUR': ('PML 1 2 1.0 1e-2 1.0', 'PEC', 'PEC', 'PML 1 2 1.0 1e-2 1.0', 'PMC', 'PML 2 2 1.0 1e-3 1.0')}
BLOCKS = ['MT glass SIMPLE 3.0 0.02 1.5', 'MT mud SIMPLE 6.0 0.5 1.0', ('MB', (0, 2, 0, 1, 1, 2), 'glass', '110110'), ('MB', (1, 3, 1, 2, 0, 2), 'mud', '011011'), ('MB', (1, 2, 0, 1, 0, 1), 'PEC', '101111')]
DEBYE = ['MT fog DEBYE 2.0 0.05 1.2 2e10 -1e10 1e10 -5e10', ('MB', (0, 2, 0, 2, 1, 2), 'fog', '110101')]
FOG = '2 2.0 0.02 1.0\n1e10 4e10 -2e10 -5e10\n2e10 0 -1e10 0\n'
SHEET = ['BT film SIBC -0.6 0.1 0.2 -0.5 0.3 0.1 0.1 0.2']
FILM = [('TB', (1, 1, 0, 2, 0, 2), 'film', 1), ('TB', (1, 1, 0, 2, 0, 2), 'film', -1, 40), ('TB', (1, 1, 0, 1, 0, 2), 'film', -1, -110), ('TB', (1, 2, 1, 1, 0, 1), 'film', 1, 20)]
WIRES = ['WT lead PEC', ('TW', (0, 2, 1, 1, 1, 1), 'lead', 'END'), ('TW', (2, 2, 0, 2, 1, 1), 'PEC'), ('TB', (0, 1, 1, 1, 0, 2), 'PEC'), ('TW', (0, 1, 1, 1, 1, 1), 'FREE_SPACE')]


def source(tag):
    """All sources of one kind on different axes, from rest."""
    def go(B):
        k = tag.lstrip('=').rstrip('XYZ')
        cards = ['WF w GAUSSIAN_PULSE 1.0 1e-11 2e-11']
        box = (1, 2, 0, 1, 0, 1) if k not in ('VR', 'IG') else tuple(v for d in range(3) for v in ((1, 2) if A[d] == tag[-1] else (1, 1)))
        par = ('s', 3e-12) if k not in ('VR', 'IG') else (75.0, 's', 3e-12)
        cards.append(('EX', box, 'src', tag, 'w') + par)
        return run(('PEC', 'PMC', 'PMC', 'PEC', 'PMC', 'PMC'), cards, state=False, sizes=[('s', -1.0, 1.0)], nt=2, tol_e={'E': 4.0, 'V': 400.0, 'H': 1600.0}.get(k, 1e5) if k not in ('VR', 'IG') else 400.0)(B)
    return go


def wave(ang, mask, lines, box=(1, 2, 0, 2, 0, 1), ext='PMC'):
    cards = ['WF w EXTERNAL "w.dat"', ('PW', box, 'pw', 'w', ang, mask, 's')]
    return run(ext, cards, state=False, lines=lines, sizes=[('s', 0.0, 1.0)], nt=4, files={'w.dat': ''.join('%g %g\n' % (k * 2e-11 - 1e-10, math.sin(1.3 * k) + 0.4 * k % 1.7) for k in range(12))})


OBS = [('OP', (0, 3, 1, 1, 0, 2), 'b1', 'TDOM_BINARY', (2, 1, 1)), ('OP', (1, 1, 0, 2, 1, 1), 'b2', 'TDOM_BINARY', (1, 2, 1)), ('OP', (2, 2, 1, 1, 1, 1), 't', 'TDOM_ASCII'), ('OP', (1, 1, 1, 1, 0, 0), 'f', 'FDOM_ASCII w')]


def warmup(B):
    run()(B)


def cases(tier):
    out = []
    full = tier == 'thorough'
    nt = 3 if full else 2
    dm = (3, 3, 3) if full else (3, 2, 2)
    for nm, e in MIX.items():
        out.append(Case('walls %s' % nm, run(e, nt=nt, dm=dm), validate=1))
        for l in ('brick', 'cubic'):
            out.append(Case('walls %s %s' % (nm, l), run(e, lines=l, nt=1 if not full else 2), validate=1))
    for nm, c in (('blocks', BLOCKS), ('debye', DEBYE), ('wires', WIRES)):
        for e in ('PEC PMC', 'periodic xz', 'MUR PEC PMC', 'PML'):
            if nm == 'debye' and 'P' != e[0]:
                continue
            out.append(Case('%s, %s' % (nm, e), run(MIX[e], c, nt=nt), validate=1))
    out.append(Case('complex debye', run('PMC', ['MT fog DEBYE "fog.prm"', ('MB', (0, 2, 0, 2, 1, 2), 'fog', '110101')], files={'fog.prm': FOG}, nt=3), validate=1))
    for q, f in enumerate(FILM):
        out.append(Case('sheet %d' % q, run('PMC', SHEET + [f], nt=nt), validate=1))
    out.append(Case('two sheets', run('PMC', SHEET + [FILM[2], FILM[3]], nt=nt), validate=1))
    for t in TAGS:
        if t[-1] == 'X' or full:
            out.append(Case('source ' + t, source(t), validate=1))
    for q, ang in enumerate(((35.0, 20.0, 70.0), (110.0, 130.0, 200.0), (60.0, 250.0, 310.0), (140.0, 320.0, 15.0))):
        for l in ('graded', 'brick', 'cubic'):
            out.append(Case('wave %d %s' % (q, l), wave(ang, ('111111', '101101', '011111', '111010')[q], l, ext=('PMC', 'PEC', 'MUR', PML)[q]), validate=1))
    out.append(Case('observers', run(MIX['PEC PMC'], ['WF w GAUSSIAN_PULSE'] + OBS + ['EX 0 1 0 0 0 0 q EX w 0.0'], nt=2, s3=['OF 1e9 2e9 2']), validate=1))
    out.append(Case('observers in layers', run(PML, ['WF w GAUSSIAN_PULSE'] + OBS + ['EX 0 1 0 0 0 0 q EX w 0.0'], nt=1, s3=['OF 1e9 2e9 2']), validate=1))
    return out
