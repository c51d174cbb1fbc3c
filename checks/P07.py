"""P07: the time step satisfies the Courant condition of the actual mesh, and uniform and explicit line cards agree."""
from checks.common import *

BOUNDS = ('Courant number symbolic in [0.05,0.95] or the default; MS with one or three symbolic lengths in [1e-3,0.1] m; XL/YL/ZL with two to four symbolic cell lengths of unknown order on one axis at a time; '
          'all six face types; pairs of runs from equal MS and XL/YL/ZL meshes with symbolic cell length (time step, lines, coefficients) and with symbolic fields over 2 steps')
OUTSIDE = 'symbolic lengths on more than one axis of an XL/YL/ZL mesh at once; more than five cells per axis'
DEF = math.sqrt(3.0) / 2


def courant(B, dt, cn, axes):
    """axes: per axis the candidate cell lengths.  dt = cn / (c sqrt(sum 1/min^2)), with denominators multiplied out."""
    k = (dt * C0) * (dt * C0)
    eqs = []
    for m in itertools.product(*axes):
        x, y, z = [v * v for v in m]
        l, r = k * (y * z + x * z + x * y), cn * cn * (x * y * z)
        B.check('time step not above the limit', l <= r * (1 + 1e-4))
        eqs.append(l >= r * (1 - 1e-4))
    e = eqs[0]
    for q in eqs[1:]:
        e = lor(e, q)
    B.check('time step at the limit', e)


def uniform(n, cnmode, ext='PEC', dm=(2, 3, 2)):
    def h(B):
        cn = B.real('cn', 0.05, 0.95) if cnmode else DEF
        d = [B.real('d' + 'xyz'[i], 1e-3, 0.1) for i in range(n)]

        def body():
            dt = B.ld(B.g('dt'), 'f32')
            courant(B, dt, cn, [[x] for x in (d if n == 3 else d * 3)])
            B.saved = True
        run_mesh(B, mesh_text(B, dm, ext=ext, nt=1, ms=d if n == 3 else d[0], cn=cn if cnmode else None), body)
        B.check('simulated', B.saved is True)
        for i, a in enumerate('xyz'):
            t = table(B, a + 'lines.dat')
            B.check('lines', len(t) >= dm[i] + 1)
    return h


def explicit(axis, dm, ext='PEC', cnmode=True, base=0.0):
    def h(B):
        cn = B.real('cn', 0.05, 0.95) if cnmode else DEF
        lines, cand = [], []
        for a in range(3):
            l, c = [base], []
            for i in range(dm[a]):
                c.append(B.real('d%d' % i, 0.005, 0.05) if a == axis else 0.01 * (1 + (i + a) % 3))
                l.append(l[-1] + c[-1])
            lines.append(l)
            if a != axis:
                c = [min(c)]
            cand.append(c)

        def body():
            courant(B, B.ld(B.g('dt'), 'f32'), cn, cand)
            B.saved = True
        run_mesh(B, mesh_text(B, dm, ext=ext, nt=1, lines=lines, cn=cn if cnmode else None), body)
        B.check('simulated', B.saved is True)
    return h


def pair(ms, dm, ext, fields, offs=0.0):
    """The same mesh given both ways."""
    def h(B):
        if not fields:
            d = B.real('cell', 1e-3, 0.1)
            ms_ = [d * m for m in ms]
        else:
            ms_ = ms
        lines = [[offs + i * m for i in range(n + 1)] for n, m in zip(dm, ms_)]
        arg = ms_ if len(set(ms)) > 1 else ms_[0]
        out = []
        for kind in (dict(ms=arg), dict(lines=lines)):
            B.saved = None

            def body():
                g = Grid(B)
                r = {'dt': B.ld(B.g('dt'), 'f32')}
                if fields:
                    g.fill()
                    B.real_propagate()
                    names = E3 + H3
                else:
                    names = ('betaEx', 'alphaEy', 'gammaHz')
                for f in names:
                    for c in (g.idx(f) if fields else [(2, 2, 2)]):
                        r[f, c] = g.get(f, *c)
                B.saved = r
            run_mesh(B, mesh_text(B, dm, ext=ext, nt=2, s2=['MT stuff SIMPLE 3.0 0.2 1.5', 'MB 0 1 0 1 0 1 stuff'], **kind), body)
            r = dict(B.saved or {})
            for a in 'xyz':
                for k, row in enumerate(table(B, a + 'lines.dat')):
                    r[a, k] = B.num(row[-1])
            out.append(r)
        a, b = out
        B.check('same places', set(a) == set(b) and len(a) > 10)
        for k in a:
            if k != 'dt' and k[0] in 'xyz' and isinstance(k[1], int):
                i = 'xyz'.index(k[0])
                B.near('line %s %d' % k, a[k] + (offs if k[1] >= 0 else 0), b[k], scale=dm[i] * max(ms) * (0.001 if not fields else 1.0))
            elif k == 'dt':
                B.near('dt', a[k] * C0, b[k] * C0, scale=min(ms) * (0.001 if not fields else 1.0))
            elif fields:
                B.near('%s%s' % k, a[k], b[k], scale=400.0 if k[0][0] == 'E' else 1.0)
            else:
                B.near('%s%s' % k, a[k], b[k], scale=1.0 if k[0][0] == 'a' else (1.0 if k[0][0] == 'b' else 1e-7))
    return h


def cases(tier):
    cs = []
    for n in (1, 3):
        for m in (True, False):
            cs.append(Case('MS %d %s' % (n, 'CN' if m else 'default'), uniform(n, m)))
    for ext in ('PML 3 2 1.0 1e-3 1.0', 'PMC', 'PERIODIC', 'MUR'):
        cs.append(Case('MS 3 ' + ext, uniform(3, True, ext)))
    for a in range(3):
        for n in (2, 3, 4):
            dm = [2, 2, 2]
            dm[a] = n
            cs.append(Case('lines %s %d' % ('xyz'[a], n), explicit(a, dm, base=(0.0, -0.03, 0.1)[a]), time=300))
    for ext in ('PML 2 2 1.0 1e-3 1.0', 'PMC', 'PERIODIC', 'MUR'):
        for a in range(3):
            dm = [2, 2, 2]
            dm[a] = 3
            cs.append(Case('lines %s %s' % ('xyz'[a], ext), explicit(a, dm, ext)))
    if tier == 'thorough':
        for a in range(3):
            dm = [1, 1, 1]
            dm[a] = 5
            cs.append(Case('lines %s 5' % 'xyz'[a], explicit(a, dm), time=800))
    for dm in ((2, 2, 2), (1, 3, 2), (3, 1, 1)):
        cs.append(Case('pair sym %s' % (dm,), pair((1.0, 1.0, 1.0), (2, 2, 2), 'PMC', False)))
        cs.append(Case('pair cubic %s' % (dm,), pair((0.01, 0.01, 0.01), dm, 'PEC', True)))
        cs.append(Case('pair offset %s' % (dm,), pair((0.01, 0.01, 0.01), dm, 'PMC', True, 0.25)))
        cs.append(Case('pair brick %s' % (dm,), pair((0.01, 0.02, 0.015), dm, ('PEC', 'PEC', 'PERIODIC', 'PERIODIC', 'PMC', 'MUR'), True)))
    cs.append(Case('pair brick sym', pair((1.0, 2.0, 1.5), (2, 2, 2), 'PMC', False)))
    return cs
