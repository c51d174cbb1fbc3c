"""P32: Maxwell's scale invariance: lengths and times in other units give the same fields."""
from checks.common import *
from checks.P02 import impose

BOUNDS = ('meshes with cells of 1 to 2 cm and the same meshes with all lengths and times multiplied and all conductivities and pole frequencies divided by 1e-4, 7 and 1e4, from an arbitrary field '
          'state (symbolic samples) or from rest with symbolic source size, 2 to 4 steps: walls of every type, all 84 source kinds, plane waves, blocks of every kind of medium, impedance sheets, wires, text, '
          'binary and frequency observers; meshes of 3 cells per axis')
OUTSIDE = 'other scales; larger meshes; cells so small or large that single precision under- or overflows'
SC = (1e-4, 7.0, 1e4)
DM = (3, 3, 2)


def num(x):
    return '%.12g' % x


def media(s):
    return ['MT glass SIMPLE 3.0 %s 1.5' % num(0.02 / s), 'MT mud SIMPLE 6.0 %s 1.0' % num(0.5 / s), 'MB 0 2 0 1 1 2 glass 110110', 'MB 1 3 1 2 0 2 mud 011011', 'MB 1 2 0 1 0 1 PEC']


def debye(s):
    return ['MT fog DEBYE 2.0 %s 1.2 %s %s %s %s' % tuple(num(x / s) for x in (0.05, 2e10, -1e10, 1e10, -5e10)), 'MB 0 2 0 2 1 2 fog 110101']


def fog(s):
    return '2 2.0 %s 1.0\n%s\n%s\n' % (num(0.02 / s), ' '.join(num(x / s) for x in (1e10, 4e10, -2e10, -5e10)), ' '.join(num(x / s) for x in (2e10, 0, -1e10, 0)))


def debyef(s):
    return ['MT fog DEBYE "fog.prm"', 'MB 0 2 0 2 1 2 fog']


def sheet(s):
    return ['BT film SIBC -0.6 0.1 0.2 -0.5 0.3 0.1 0.1 0.2', 'TB 1 1 0 2 0 2 film -1 40', 'TB 0 3 0 0 0 2 PEC']


def pfe(s):
    """A 2x2 sheet with one pole in each element."""
    el = '1 %s\n%s %s\n%s %s\n'
    t = '2\n'
    for a, r in ((30.0, 2e11), (3.0, 1e10), (3.0, 1e10), (25.0, 1e11)):
        t += el % (num(a), num(-4e10 / s), '0', num(r / s), '0')
    return t


def wires(s):
    return ['TW 0 2 1 1 1 1 PEC', 'TW 2 2 0 2 1 1 PEC', 'TB 0 1 1 1 0 2 PEC']


POWER = {'E': 0, 'H': 0, 'J': -1, 'JM': -1, 'JS': 0, 'JMS': 0, 'I': 1, 'IM': 1, 'ID': 2, 'IMD': 2, 'V': 1, 'VR': 1, 'IG': 1}


def source(tag, box=(1, 2, 0, 1, 0, 1)):
    k = tag.lstrip('=').rstrip('XYZ')

    def cards(B, s):
        one = k in ('VR', 'IG')
        b = box if not one else tuple(v for d in range(3) for v in ((1, 2) if 'XYZ'[d] == tag[-1] else (1, 1)))
        a = B.real('a', -1.0, 1.0) * s ** POWER[k]
        return ['WF w GAUSSIAN_PULSE 1.0 %s %s' % (num(1e-11 * s), num(2e-11 * s)), 'EX %s src %s w %s%s %s' % (' '.join(map(str, b)), tag, '75.0 ' if one else '', B.tok(a), num(3e-12 * s))]
    return cards


def wave(ang, mask):
    return lambda B, s: ['WF w GAUSSIAN_PULSE 1.0 %s %s' % (num(2e-11 * s), num(2e-11 * s)), 'PW 1 2 0 2 0 1 pw w %s %s %s %s' % (ang, mask, B.tok(B.real('a', 0.0, 1.0)), num(5e-12 * s))]


def run(cards=None, src=None, ext='PEC', nt=2, state=True, lines='graded', files=None, obs=False, tol=4.0, scales=SC):
    def h(B):
        ref = None
        for s in (1.0,) + tuple(scales):
            for n, t in (files or {}).items():
                B.put_file(n, t(s))
            ln = mlines(DM) if lines == 'graded' else lines_of(DM, 0.01)
            l = [[x * s for x in a] for a in ln]
            s2 = (cards(s) if cards else []) + (src(B, s) if src else [])
            if obs:
                s2 += ['OP 1 1 1 1 1 1 t TDOM_ASCII', 'OP 2 2 1 1 1 1 f FDOM_ASCII w', 'OP 0 3 1 2 1 1 b TDOM_BINARY']
            r = {}

            def body():
                g = Grid(B)
                if state:
                    types = [x.split()[0] for x in faces_of(ext)]
                    S = {f: {c: 0.0 for c in g.cells()} for f in E3 + H3}
                    for f in E3 + H3:
                        k = 1.0 if f[0] == 'E' else 1.0 / ETA0
                        for c in g.idx(f):
                            S[f][c] = B.real('%s_%d_%d_%d' % ((f,) + c), -k, k)
                    impose(S, g.go, types)
                    ghost_h(S, g.go, types)
                    for f in E3 + H3:
                        for c in g.cells():
                            g.set(f, *c, S[f][c])
                B.real_propagate()
                r['dt'] = B.ld(B.g('dt'), 'f32') * (C0 * 100 / s)
                for f in E3 + H3:
                    for c in g.idx(f):
                        r[f, c] = g.get(f, *c)
                B.saved = r
            run_mesh(B, mesh_text(B, DM, ext=ext, s2=s2, nt=nt, lines=l, of='%s %s 2' % (num(2e9 / s), num(6e9 / s)) if obs else None), body)
            out = dict(B.saved)
            if obs:
                for f in ('eh_t_td.asc', 'eh_f_fd.asc'):
                    for n, row in enumerate(table(B, f)):
                        for m, x in enumerate(row[2 if 'td' in f else 1:]):
                            out[f, n, m] = B.num(x)
                v = B.binary('impulse.dat', ('if', 'iiiffffff'))[0]
                for q in range((len(v) - 2) // 9):
                    for m in range(6):
                        out['impulse.dat', q, m] = v[5 + 9 * q + m]
            if ref is None:
                ref = out
                B.check('fields to compare', len(out) > 100)
                continue
            B.check('same places at scale %g' % s, set(out) == set(ref))
            for k in ref:
                if k == 'dt':
                    B.near('time step at scale %g' % s, ref[k], out[k], scale=0.1)
                elif k in out:
                    el = k[0][0] == 'E' if k[0] in E3 + H3 else (k[2] // 2 < 3 if 'fd' in k[0] else k[2] < 3)
                    B.near('scale %g: %s' % (s, k), ref[k], out[k], scale=tol if el else tol / ETA0)
    return h


PML = ('PML 2 3 1.0 1e-3 2.0', 'PML 1 2 1.5 1e-2 1.0', 'PEC', 'PML 3 2 1.0 1e-4 1.5', 'PMC', 'PML 2 2 1.0 -1.0 1.0')
WALLS = {'PEC': 'PEC', 'PMC': 'PMC', 'PERIODIC': 'PERIODIC', 'MUR': 'MUR', 'PML': PML, 'mixed': ('PERIODIC', 'PERIODIC', 'MUR', 'PMC', 'PEC', 'PML 2 2 1.0 1e-3 1.0')}


def warmup(B):
    run(scales=(2.0,))(B)


def cases(tier):
    out = []
    nt = 3 if tier == 'thorough' else 2
    for n, w in WALLS.items():
        out.append(Case('walls %s' % n, run(ext=w, nt=nt), validate=1))
        out.append(Case('walls %s cubic' % n, run(ext=w, nt=1, lines='cubic'), validate=1))
    for n, w in WALLS.items():
        out.append(Case('blocks, walls %s' % n, run(media, ext=w, nt=nt), validate=1))
    for n, c, f in (('debye', debye, None), ('debye file', debyef, {'fog.prm': fog}), ('sheet', sheet, None), ('wires', wires, None)):
        out.append(Case(n, run(c, ext='PMC', nt=3, files=f), validate=1))
    for t in TAGS:
        k = t.lstrip('=').rstrip('XYZ')
        tol = {'E': 4.0, 'V': 400.0, 'H': 1600.0, 'VR': 400.0, 'IG': 400.0}.get(k, 1e5)
        if t[-1] == 'X' or tier == 'thorough':
            out.append(Case('source %s' % t, run(src=source(t), ext='PMC', state=False, tol=tol), validate=1))
    for q, a in enumerate(('35 20 70', '110 130 200', '90 0 180')):
        for l in ('graded', 'cubic'):
            out.append(Case('wave %d %s' % (q, l), run(src=wave(a, ('111111', '101101', '111010')[q]), ext=('PMC', 'MUR', PML)[q], state=False, nt=4, lines=l), validate=1))
    out.append(Case('observers', run(media, src=source('EY'), ext='PMC', state=False, nt=4, obs=True), validate=1))
    out.append(Case('observers of a wave', run(src=wave('35 20 70', '111111'), ext='MUR', state=False, nt=4, obs=True), validate=1))
    return out
