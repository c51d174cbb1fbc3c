"""P30: results do not depend on the sense of the axes: the mirror image of a mesh gives the mirror image of the fields."""
from checks.common import *
from checks.P02 import impose
from checks.P09 import direction
from checks.P21 import MIX, PML, FOG

BOUNDS = ('every mesh and its mirror images along x, y and z (and through a point) from the same arbitrary field state (symbolic samples on the whole padded grid) or from rest with a '
          'symbolic source size, 2 to 4 steps: all wall types on different faces, layers with different parameters, masked blocks of all media, all 84 source types, oblique and axial plane '
          'waves with excluded faces, impedance sheets of both orientations, wires, binary observers of whole boxes, graded, brick and cubic meshes')
OUTSIDE = 'meshes larger than 4 cells per axis; impedance sheets at angles other than multiples of 90 degrees or with cross polarisation'


def flips(n):
    return {'x': (0,), 'y': (1,), 'z': (2,), 'xyz': (0, 1, 2)}[n]


def sign(f, fl):
    """Of component f (E polar, H axial) under the mirrors fl."""
    a = 'xyz'.index(f[1].lower())
    s = 1.0
    for d in fl:
        s *= (-1.0 if a == d else 1.0) * (1.0 if f[0] == 'E' else -1.0)
    return s


def mbox(b, fl, dm):
    b = list(b)
    for d in fl:
        b[2 * d], b[2 * d + 1] = dm[d] - b[2 * d + 1], dm[d] - b[2 * d]
    return b


def mface(t, fl):
    t = list(t)
    for d in fl:
        t[2 * d], t[2 * d + 1] = t[2 * d + 1], t[2 * d]
    return t


def mask_m(m, fl):
    return ''.join(mface(m, fl))


def angles_m(th, ph, ps, fl):
    k, e, h = direction(th, ph, ps)
    k, e = ([-x if d in fl else x for d, x in enumerate(v)] for v in (k, e))
    th = math.acos(max(-1.0, min(1.0, k[2])))
    # on the z axis phi only turns the polarisation: keep it
    ph = math.atan2(k[1], k[0]) if math.hypot(k[0], k[1]) > 1e-9 else math.radians(ph)
    s, c = math.sin, math.cos
    a = (s(ph), -c(ph), 0.0)
    b = (-c(th) * c(ph), -c(th) * s(ph), s(th))
    ps = math.atan2(sum(x * y for x, y in zip(e, b)), sum(x * y for x, y in zip(e, a)))
    d = [round(math.degrees(x), 9) % 360.0 for x in (ph, ps)]
    return math.degrees(th), d[0], d[1]


def tag_sign(tag, fl):
    k = tag.lstrip('=').rstrip('XYZ')
    mag = k[0] == 'H' or 'M' in k
    t = tag.lstrip('=')[len(k):]
    return sign(('H' if mag else 'E') + t[0], fl)


def card_m(B, x, fl, dm):
    if isinstance(x, str):
        return x
    k = x[0]
    b = ' '.join(str(v) for v in mbox(x[1], fl, dm))

    def word(v):
        return v if isinstance(v, str) else B.tok(v)
    if k == 'MB':
        return 'MB %s %s %s' % (b, x[2], mask_m(x[3], fl))
    if k == 'EX':
        s = tag_sign(x[3], fl)
        # the size is the first number, or the one after the resistance of VR, IG
        p = list(x[4:])
        q = 2 if x[3][:2] in ('VR', 'IG') else 1
        p[q] = s * p[q]
        return 'EX %s %s %s %s' % (b, x[2], x[3], ' '.join(word(v) for v in p))
    if k == 'PW':
        return 'PW %s %s %s %.12g %.12g %.12g %s %s' % ((b, x[2], x[3]) + angles_m(*(x[4] + (fl,))) + (mask_m(x[5], fl), ' '.join(word(v) for v in x[6:])))
    if k == 'OP':
        return 'OP %s %s TDOM_BINARY' % (b, x[2])
    if k == 'TB' and len(x) > 3:
        n = [d for d in range(3) if x[1][2 * d] == x[1][2 * d + 1]][0]
        return 'TB %s %s %s %s' % (b, x[2], x[3] * (-1 if n in fl else 1), ' '.join(str(v) for v in x[4:]))
    return '%s %s %s' % (k, b, ' '.join(str(v) for v in x[2:]))


def run(ext='PEC', cards=(), dm=(3, 2, 2), nt=2, state=True, lines='graded', files=None, sizes=(), tol_e=4.0, s3=(), only=('x', 'y', 'z', 'xyz')):
    ext = faces_of(ext)
    ln = {'graded': mlines(dm), 'brick': lines_of(dm, [0.01, 0.012, 0.015]), 'cubic': lines_of(dm, 0.01)}[lines]

    def h(B):
        for k, v in (files or {}).items():
            B.put_file(k, v)
        val = {k: B.real(k, lo, hi) for k, lo, hi in sizes}
        cs = [x if isinstance(x, str) else tuple(val.get(v, v) if isinstance(v, str) else v for v in x) for x in cards]
        ref = {}
        first = {}
        for n in ('',) + tuple(only):
            fl = flips(n) if n else ()
            e = mface(ext, fl)
            l = [[ln[d][-1] - v for v in reversed(ln[d])] if d in fl else list(ln[d]) for d in range(3)]
            r = {}

            def body():
                g = Grid(B)
                if not fl:
                    first['gi'] = tuple(g.gi)

                def back(f, c):
                    c = list(c)
                    hf = site2(f, (0, 0, 0))
                    for d in fl:
                        c[d] = first['gi'][2 * d] + dm[d] - hf[d] - (c[d] - g.gi[2 * d])
                    return f, tuple(c)
                if state:
                    types = [x.split()[0] for x in e]
                    S = {f: {c: 0.0 for c in g.cells()} for f in E3 + H3}
                    for f in E3 + H3:
                        s = 1.0 if f[0] == 'E' else 1.0 / ETA0
                        for c in g.idx(f):
                            if fl:
                                S[f][c] = sign(f, fl) * first['S'][back(f, c)]
                            else:
                                S[f][c] = B.real('%s_%d_%d_%d' % ((f,) + c), -s, s)
                    if not fl:
                        impose(S, g.go, types)
                        first['S'] = {(f, c): S[f][c] for f in E3 + H3 for c in g.idx(f)}
                    ghost_h(S, g.go, types)
                    for f in E3 + H3:
                        for c in g.cells():
                            g.set(f, *c, S[f][c])
                B.real_propagate()
                r['dt'] = B.ld(B.g('dt'), 'f32') * C0 * 100
                for f in E3 + H3:
                    for c in g.idx(f):
                        r[back(f, c)] = sign(f, fl) * g.get(f, *c)
                r['gi'] = tuple(g.gi)
                r['first'] = dict(first)
                B.saved = r
            run_mesh(B, mesh_text(B, dm, ext=e, s2=[card_m(B, c, fl, dm) for c in cs], nt=nt, lines=l, s3=s3), body)
            r = dict(B.saved)
            first.update(r.pop('first'))
            gi = r.pop('gi')
            obs = [c for c in cs if not isinstance(c, str) and c[0] == 'OP']
            if obs:
                v = B.binary('impulse.dat', ('if', 'iiiffffff'))[0]
                r['records', 0] = len(v)
                cnt = {}
                for q in range((len(v) - 2) // 9):
                    node = tuple(int(x) for x in v[2 + 9 * q:5 + 9 * q])
                    k = cnt[node] = cnt.get(node, 0) + 1
                    for m, f in enumerate(E3 + H3):
                        hf = site2(f, (0, 0, 0))
                        at = tuple(dm[d] - hf[d] - node[d] if d in fl else node[d] for d in range(3))
                        r[('impulse', at, k), f] = sign(f, fl) * v[5 + 9 * q + m]
            if not fl:
                ref = r
                B.check('fields to compare', len(r) > 10)
                continue
            B.check('number of records', ref.get(('records', 0)) == r.get(('records', 0)))
            B.near('time step', ref['dt'], r['dt'], scale=0.1)
            seen = 0
            for k in ref:
                if k != 'dt' and k[0] != 'records' and k in r:
                    f = k[0] if k[0] in E3 + H3 else k[1]
                    seen += 1
                    B.near('mirror %s: %s' % (n, k), ref[k], r[k], scale=tol_e if f[0] == 'E' else tol_e / ETA0)
            B.check('places to compare', seen > 10)
    return h


BLOCKS = ['MT glass SIMPLE 3.0 0.02 1.5', 'MT mud SIMPLE 6.0 0.5 1.0', ('MB', (0, 2, 0, 1, 1, 2), 'glass', '110110'), ('MB', (1, 3, 1, 2, 0, 2), 'mud', '011011'), ('MB', (1, 2, 0, 1, 0, 1), 'PEC', '101111')]
DEBYE = ['MT fog DEBYE 2.0 0.05 1.2 2e10 -1e10 1e10 -5e10', ('MB', (0, 2, 0, 2, 1, 2), 'fog', '110101')]
SHEET = ['BT film SIBC -0.6 0.1 0.1 -0.5']
FILM = [('TB', (1, 1, 0, 2, 0, 2), 'film', 1), ('TB', (1, 1, 0, 2, 0, 2), 'film', -1, 90), ('TB', (1, 1, 0, 1, 0, 2), 'film', -1, 180), ('TB', (1, 2, 1, 1, 0, 1), 'film', 1, 0), ('TB', (0, 2, 0, 2, 1, 1), 'film', -1, 0),
        ('TB', (2, 2, 1, 2, 0, 1), 'film', 1, -90)]
WIRES = ['WT lead PEC', ('TW', (0, 2, 1, 1, 1, 1), 'lead', 'END'), ('TW', (2, 2, 0, 2, 1, 1), 'PEC'), ('TB', (0, 1, 1, 1, 0, 2), 'PEC'), ('TW', (0, 1, 1, 1, 1, 1), 'FREE_SPACE')]
OBS = [('OP', (0, 3, 1, 1, 0, 2), 'b1', 'TDOM_BINARY'), ('OP', (1, 1, 0, 2, 1, 1), 'b2', 'TDOM_BINARY'), ('OP', (2, 2, 1, 1, 1, 1), 'b3', 'TDOM_BINARY')]


def source(tag):
    def go(B):
        k = tag.lstrip('=').rstrip('XYZ')
        cards = ['WF w GAUSSIAN_PULSE 1.0 1e-11 2e-11']
        one = k in ('VR', 'IG')
        box = (1, 2, 0, 1, 0, 1) if not one else tuple(v for d in range(3) for v in ((1, 2) if 'XYZ'[d] == tag[-1] else (1, 1)))
        par = ('s', 3e-12) if not one else (75.0, 's', 3e-12)
        cards.append(('EX', box, 'src', tag, 'w') + par)
        return run(('PEC', 'PMC', 'PMC', 'PEC', 'PMC', 'PMC'), cards, state=False, sizes=[('s', -1.0, 1.0)], nt=2,
                   tol_e={'E': 4.0, 'V': 400.0, 'H': 1600.0}.get(k, 1e5) if not one else 400.0)(B)
    return go


def wave(ang, mask, lines, box=(1, 2, 0, 2, 0, 1), ext='PMC', dm=(3, 2, 2)):
    cards = ['WF w EXTERNAL "w.dat"', ('PW', box, 'pw', 'w', ang, mask, 's')]
    return run(ext, cards, state=False, lines=lines, dm=dm, sizes=[('s', 0.0, 1.0)], nt=4, files={'w.dat': ''.join('%g %g\n' % (k * 2e-11 - 1e-10, math.sin(1.3 * k) + 0.4 * k % 1.7) for k in range(12))})


def warmup(B):
    run()(B)


def cases(tier):
    out = []
    full = tier == 'thorough'
    nt = 3 if full else 2
    for nm, e in MIX.items():
        out.append(Case('walls %s' % nm, run(e, nt=nt), validate=1))
        for l in ('brick', 'cubic'):
            if full or l == 'brick':
                out.append(Case('walls %s %s' % (nm, l), run(e, lines=l, nt=1 if not full else 2), validate=1))
    for nm, c in (('blocks', BLOCKS), ('debye', DEBYE), ('wires', WIRES)):
        for e in ('PEC PMC', 'periodic xz', 'MUR PEC PMC', 'PML'):
            if nm == 'debye' and 'P' != e[0]:
                continue
            out.append(Case('%s, %s' % (nm, e), run(MIX[e], c, nt=nt), validate=1))
    out.append(Case('complex debye', run('PMC', ['MT fog DEBYE "fog.prm"', ('MB', (0, 2, 0, 2, 1, 2), 'fog', '110101')], files={'fog.prm': FOG}, nt=3), validate=1))
    for q, f in enumerate(FILM):
        out.append(Case('sheet %d' % q, run('PMC', SHEET + [f], nt=nt), validate=1))
    for t in TAGS:
        out.append(Case('source ' + t, source(t), validate=1 if t[-1] == 'X' else 0))
    for q, ang in enumerate(((35.0, 20.0, 70.0), (110.0, 130.0, 200.0), (60.0, 250.0, 310.0), (140.0, 320.0, 15.0))):
        for l in ('graded', 'brick', 'cubic'):
            out.append(Case('wave %d %s' % (q, l), wave(ang, ('111111', '101101', '011111', '111010')[q], l, ext=('PMC', 'PEC', 'MUR', PML)[q]), validate=1))
    for q, ang in enumerate(((90.0, 0.0, 90.0), (90.0, 90.0, 0.0), (0.0, 0.0, 0.0))):
        out.append(Case('axial wave %d' % q, wave(ang, ('111111', '111110', '110111')[q], 'cubic', (1, 2, 1, 2, 1, 2), 'PMC', (3, 3, 3)), validate=1))
    q = ['WF w GAUSSIAN_PULSE', ('EX', (0, 1, 0, 0, 0, 0), 'q', 'EX', 'w', 0.0)]
    for k, o in enumerate(OBS):
        out.append(Case('observer %d' % k, run(MIX['PEC PMC'], q + [o], nt=2), validate=1))
        out.append(Case('observer %d in layers' % k, run(PML, q + [o], nt=1), validate=1))
    return out
