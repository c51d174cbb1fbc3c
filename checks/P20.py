"""P20: the simulated system is linear in its sources."""
from checks.common import *

BOUNDS = ('two sources of symbolic amplitude (card size or waveform size) in one run against the sum of the runs with each alone at unit amplitude and the other at zero; every pair of source kinds of a list of 16 that covers '
          'fields, currents, voltages, resistive and hard sources and plane waves; walls of every type, conducting, magnetic and dispersive blocks, impedance sheets, wires and combinations; meshes of 3 to 4 cells per axis, '
          '3 to 4 steps; all fields of the padded grid and all observer files')
OUTSIDE = 'more than two sources with different amplitudes; longer runs; initial states other than zero'
DM = (3, 3, 3)

# sources: name -> (card text with %s for amplitude)
SRC = {'E': 'EX 1 2 1 1 1 1 %s EX w %s', '=E': 'EX 1 1 1 2 2 2 %s =EY w %s', 'H': 'EX 1 2 1 2 1 1 %s HZ w %s', 'J': 'EX 0 2 1 1 1 2 %s JX w %s', 'JM': 'EX 1 2 1 1 1 2 %s JMY w %s 2e-12',
       'I': 'EX 2 2 1 1 1 2 %s IZ w %s', '=I': 'EX 1 2 2 2 1 1 %s =IX w %s', 'IM': 'EX 1 1 1 2 1 2 %s IMX w %s', 'ID': 'EX 1 1 1 2 2 2 %s IDY w %s', 'IMD': 'EX 1 2 2 3 1 1 %s IMDZ w %s',
       'V': 'EX 1 2 1 1 2 2 %s VX w %s', '=V': 'EX 1 1 2 2 1 2 %s =VZ w %s', 'JS': 'EX 1 1 1 2 1 2 %s JSYX w %s', 'JMS': 'EX 1 2 1 2 1 2 %s JMSZX w %s', 'VR': 'EX 1 2 1 1 1 1 %s VRX w 50.0 %s', 'VR0': 'EX 1 1 2 2 1 2 %s VRZ w 0.0 %s 1e-12',
       'IG': 'EX 1 1 1 2 2 2 %s IGY w 120.0 %s', 'PW': 'PW 1 2 0 3 0 3 %s w 90 0 180 111111 %s', 'PW2': 'PW 1 2 1 3 0 3 %s w 40 200 75 110111 %s 3e-12'}


def run(pair, ext='PEC', cards=(), dm=DM, nt=3, wf=False, of='2e9 6e9 2', cn=None, ms=None, args=()):
    lines = mlines(dm) if ms is None else None

    def go(B, a, b):
        s = ['WF w GAUSSIAN_PULSE 1.0 1e-11 2e-11', 'WF u GAUSSIAN_PULSE 1.0 2e-11 2e-11'] if not wf else \
            ['WF w GAUSSIAN_PULSE %s 1e-11 2e-11' % B.tok(a), 'WF u DIFF_GAUSSIAN_PULSE %s 2e-11 2e-11' % B.tok(b), 'WF ref GAUSSIAN_PULSE']
        one = SRC[pair[0]] % ('one', B.tok(a) if not wf else '1.0')
        two = (SRC[pair[1]] % ('two', B.tok(b) if not wf else '1.0')).replace(' w ', ' u ')
        s += list(cards) + [one, two]
        s += ['OP 1 1 1 1 1 1 ta TDOM_ASCII', 'OP 1 1 2 2 1 1 fa FDOM_ASCII %s' % ('ref' if wf else 'w'), 'OP 0 3 1 2 1 1 b TDOM_BINARY 1 1 2']
        r = {}

        def body():
            g = Grid(B)
            B.real_propagate()
            for f in E3 + H3:
                for c in g.cells():
                    r[f, c] = g.get(f, *c)
            B.saved = r
        run_mesh(B, mesh_text(B, dm, ext=ext, s2=s, nt=nt, lines=lines, of=of, cn=cn, ms=ms), body, args=args)
        out = dict(B.saved)
        for f in ('eh_ta_td.asc', 'eh_fa_fd.asc'):
            for n, row in enumerate(table(B, f)):
                for m, x in enumerate(row[2 if 'td' in f else 1:]):
                    out[f, n, m] = B.num(x)
        v = B.binary('impulse.dat', ('if', 'iiiffffff'))[0]
        for q in range((len(v) - 2) // 9):
            for m in range(6):
                out['impulse.dat', q, m] = v[2 + 9 * q + 3 + m]
        return out

    def h(B):
        a, b = B.real('a', 0.0 if wf or 'PW' in pair[0] else -2.0, 2.0), B.real('b', 0.0 if wf or 'PW' in pair[1] else -2.0, 2.0)      # sizes of waves and waveforms are not negative
        both, one, two = go(B, a, b), go(B, 1.0, 0.0), go(B, 0.0, 1.0)
        B.check('same outputs', set(both) == set(one) == set(two))
        B.check('the fields move', any(abs(float(x)) > 0 for x in one.values()) and any(abs(float(x)) > 0 for x in two.values()))
        top = {}
        for k in both:
            s = k[0] if k[0] in E3 + H3 else (k[0], 'EH'[k[2] // 2 >= 3 if 'fd' in k[0] else k[2] >= 3])
            top[s] = max(top.get(s, 1e-12), abs(one[k]), abs(two[k]))
            if k[0] in E3 + H3:
                top[k[0][0]] = max(top.get(k[0][0], 1e-12), abs(one[k]), abs(two[k]))
        for k in both:
            s = k[0][0] if k[0] in E3 + H3 else (k[0], 'EH'[k[2] // 2 >= 3 if 'fd' in k[0] else k[2] >= 3])
            B.near('%s at %s' % (k[0], k[1:]), both[k], a * one[k] + b * two[k], scale=4.0 * top[s])
    return h


PML = 'PML 2 2 1.0 1e-3 2.0'
WALLS = {'PEC': 'PEC', 'PMC': 'PMC', 'periodic': ('PERIODIC', 'PERIODIC', 'PEC', 'PMC', 'PERIODIC', 'PERIODIC'), 'MUR': 'MUR', 'PML': ('PML 2 3 1.0 1e-3 2.0', 'PML 1 2 1.0 1e-2 1.0', 'PEC', PML, 'PMC', 'PEC')}
DEBYE = ['MT fog DEBYE 2.0 0.05 1.0 2e10 -1e10 1e10 -5e10', 'MB 1 3 0 2 1 3 fog']
DEBYEC = ['MT fog DEBYE "fog.prm"', 'MB 0 2 1 3 0 3 fog 101011']
LOSSY = ['MT mud SIMPLE 4.0 0.5 2.0', 'MB 0 2 1 3 0 2 mud 110101', 'MB 2 3 0 1 0 1 PEC']
SHEET = ['BT film SIBC -0.6 0.0 0.0 -0.5 0.3 0.1 0.1 0.2', 'TB 2 2 1 3 2 3 film -1 30', 'TB 0 3 0 0 0 2 PEC']
SHEETP = ['BT film SIBC "film.pfe"', 'TB 1 2 2 2 1 3 film', 'TB 1 1 0 2 1 1 FREE_SPACE']
WIRES = ['TW 0 2 1 1 1 1 PEC END', 'TW 2 2 0 3 2 2 PEC', 'TW 1 1 1 1 0 2 PEC']
FILES = {'fog.prm': '2 2.0 0.02 1.0\n1e10 4e10 -2e10 -5e10\n2e10 0 -1e10 0\n', 'film.pfe': None}


def with_files(fn):
    def h(B):
        for n, t in FILES.items():
            if t:
                B.put_file(n, t)
        return fn(B)
    return h


def warmup(B):
    run(('E', 'J'))(B)


def cases(tier):
    out = []
    names = list(SRC)
    kinds = [('E', 'J'), ('=E', 'H'), ('JM', 'I'), ('=I', 'IM'), ('ID', 'IMD'), ('V', '=V'), ('JS', 'JMS'), ('VR', 'VR0'), ('IG', 'VR'), ('PW', 'E'), ('PW', 'PW2'), ('PW2', '=V')]
    full = tier == 'thorough'
    for p in (kinds if not full else [(x, y) for x in names for y in names if x < y]):
        out.append(Case('%s with %s' % p, run(p), validate=1))
    for nm, w in WALLS.items():
        for q, p in enumerate((('J', 'IMD'), ('V', 'PW'))):
            out.append(Case('%s walls %s with %s' % ((nm,) + p), run(p, w, nt=4, wf=q == 0), validate=1))
    for q, (p, (nm, c)) in enumerate((p, m) for p in kinds[::2] for m in (('lossy', LOSSY), ('debye', DEBYE), ('sheet', SHEET))):
        if not full:
            out.append(Case('%s %s with %s' % ((nm,) + p), with_files(run(p, list(WALLS.values())[1:][q % 4], c, nt=4)), validate=1))
    for nm, c, e in (('lossy', LOSSY, 'PEC'), ('debye', DEBYE, 'PEC'), ('complex debye', DEBYEC, 'PMC'), ('sheet', SHEET, 'PEC'), ('wires', WIRES, 'PMC'),
                     ('all', LOSSY[:2] + DEBYE + SHEET[:1] + ['TB 0 3 0 3 1 1 film'] + WIRES[1:2], WALLS['PML'])):
        for p in (('JS', 'VR'), ('PW', 'E')):
            if nm == 'all':
                p = ('J', 'H') if p[0] == 'JS' else ('ID', 'IM')
            out.append(Case('%s %s with %s' % ((nm,) + p), with_files(run(p, e, c, nt=4 if nm != 'all' or full else 3)), validate=1))
    out.append(Case('defaults', run(('E', 'IM'), of=None, ms=0.01, cn=0.5), validate=1))
    out.append(Case('waveform sizes', run(('PW', 'JM'), wf=True), validate=1))
    out.append(Case('threads and plots', run(('E', 'JM'), args=('-n', '2', '-g')), validate=1))
    if full:
        out += [Case('long %s' % nm, run(('J', 'PW'), w, LOSSY, nt=8), validate=1) for nm, w in WALLS.items()]
    return out
