"""P31: the history of the fields up to a step depends neither on how long the run goes on nor on what is recorded of it."""
from checks.common import *
from checks.P02 import impose
from checks.P20 import SRC, WALLS, DEBYE, DEBYEC, LOSSY, SHEET, WIRES, with_files

BOUNDS = ('runs of 1 to 3 steps against continued ones of up to 5 steps, and against runs with further observers of all kinds, strides, output windows, output frequencies, comments and labels, from an '
          'arbitrary field state (symbolic samples) or from rest with symbolic source size; 19 kinds of source, walls of every type, dielectric, conducting and dispersive blocks, '
          'impedance sheets, wires; meshes of 3 cells per axis')
OUTSIDE = 'longer runs; more than eight observers'
DM = (3, 3, 3)
MORE = ['OP 0 3 0 3 0 3 b2 TDOM_BINARY 2 3 1', 'OP 1 1 2 2 0 0 t1 TDOM_ASCII', 'OP 3 3 0 0 1 1 t2 TDOM_ASCII', 'OP 1 1 1 1 1 1 f1 FDOM_ASCII', 'OP 2 2 2 2 3 3 f2 FDOM_ASCII w', 'OP 0 0 1 3 1 2 b3 TDOM_BINARY 1 1 1']


def go(B, nt, src, ext, cards, state, more, cn=None):
    s = ['WF w GAUSSIAN_PULSE 1.0 1e-11 2e-11'] + list(cards)
    if src:
        s.append(SRC[src] % ('src', B.tok(B.real('s', 0.0, 2.0))))
    main = 'OP 0 3 0 3 0 3 all TDOM_BINARY'
    s3, s1 = [], []
    if more:
        s = [main] + s + MORE
        s3 = ['OF 1e9 9e9 3'] + (['OT 0 %d' % (nt - 1)] if more == 'window' else [])
    else:
        s.append(main)
    r = {}

    def body():
        g = Grid(B)
        if state:
            types = [x.split()[0] for x in faces_of(ext)]
            S = {f: {c: 0.0 for c in g.cells()} for f in E3 + H3}
            for f in E3 + H3:
                k = 1.0 if f[0] == 'E' else 1.0 / ETA0
                for c in g.idx(f):
                    S[f][c] = B.real('%s_%d_%d_%d' % ((f,) + c), -k, k)
            impose(S, g.go, types)
            ghost_h(S, g.go, types)
            for f in E3 + H3:
                for c in g.cells():
                    g.set(f, *c, S[f][c])
        B.real_propagate()
        for f in E3 + H3:
            for c in g.idx(f):
                r[f, c] = g.get(f, *c)
        r['gi'] = tuple(g.gi)
        B.saved = r
    run_mesh(B, mesh_text(B, DM, ext=ext, s2=s, nt=nt, lines=mlines(DM), s3=s3, cn=cn), body)
    out = dict(B.saved)
    v = B.binary('impulse.dat', ('if', 'iiiffffff'))[0]
    n = (len(v) - 2) // 9
    rec = {}
    for q in range(n):
        node = tuple(int(x) for x in v[2 + 9 * q:5 + 9 * q])
        rec.setdefault(node, []).append(v[5 + 9 * q:11 + 9 * q])
    return out, rec


def records(rec, nodes, per, which, nt):
    """Observers of a step are written one after the other: the records of the box observer, in order of steps."""
    return {n: [rec[n][t * per[n] + which] for t in range(nt)] for n in nodes}


def longer(src, ext='PEC', cards=(), state=True, nt=2, ext_nt=2, cn=None):
    def h(B):
        a, ra = go(B, nt, src, ext, cards, state, None, cn)
        b, rb = go(B, nt + ext_nt, src, ext, cards, state, None, cn)
        gi = a['gi']
        B.check('nodes recorded', len(ra) == 64 and set(ra) == set(rb) and all(len(x) == nt for x in ra.values()) and all(len(x) == nt + ext_nt for x in rb.values()))
        for n in ra:
            for t in range(nt):
                for m, f in enumerate(E3 + H3):
                    B.near('%s at %s step %d' % (f, n, t), ra[n][t][m], rb[n][t][m], scale=1.0 if f[0] == 'E' else 1.0 / ETA0)
            c = tuple(n[d] + gi[2 * d] for d in range(3))
            for m, f in enumerate(E3 + H3):
                if (f, c) in a:
                    B.near('%s at %s after %d steps' % (f, n, nt), a[f, c], rb[n][nt][m], scale=1.0 if f[0] == 'E' else 1.0 / ETA0)
    return h


def watched(src, ext='PEC', cards=(), state=True, nt=2, more='more'):
    def h(B):
        a, ra = go(B, nt, src, ext, cards, state, None)
        b, rb = go(B, nt, src, ext, cards, state, more)
        B.check('same places', set(a) == set(b) and a['gi'] == b['gi'])
        for k in a:
            if k != 'gi':
                B.near('%s%s' % k, a[k], b[k], scale=1.0 if k[0][0] == 'E' else 1.0 / ETA0)
        for n in ra:
            per = len(rb[n]) // nt
            B.check('records at %s' % (n,), per * nt == len(rb[n]) and per >= 1)
            for t in range(nt):
                # the observers of a step are written in the order of their cards
                for m, f in enumerate(E3 + H3):
                    B.near('record %s at %s step %d' % (f, n, t), ra[n][t][m], rb[n][t * per][m], scale=1.0 if f[0] == 'E' else 1.0 / ETA0)
    return h


KINDS = [('lossy', LOSSY), ('debye', DEBYE), ('debye file', DEBYEC), ('sheet', SHEET), ('wires', WIRES)]


def cases(tier):
    out = []
    for n, (w, e) in enumerate(WALLS.items()):
        out.append(Case('longer, walls %s' % w, longer(None, e), validate=1))
        out.append(Case('watched, walls %s' % w, watched(None, e), validate=1))
    for n, s in enumerate(SRC):
        w = list(WALLS)[n % len(WALLS)]
        out.append(Case('longer, source %s' % s, longer(s, WALLS[w], state=False, nt=1 + n % 3, ext_nt=1 + n % 2), validate=1))
        w = list(WALLS)[(n + 2) % len(WALLS)]
        out.append(Case('watched, source %s' % s, watched(s, WALLS[w], state=False, nt=3, more=('more', 'window')[n % 2]), validate=1))
    for n, c in KINDS:
        for q, s in enumerate(('E', 'PW')):
            ext = ('PMC', 'PEC')[q] if n in ('sheet', 'debye', 'debye file') else list(WALLS.values())[3 + q]
            out.append(Case('longer, %s %s' % (n, s), with_files(longer(s, ext, c, state=False, nt=2, ext_nt=2)), validate=1))
            out.append(Case('watched, %s %s' % (n, s), with_files(watched(s, ext, c, state=False, nt=2)), validate=1))
        out.append(Case('longer, %s state' % n, with_files(longer(None, 'PMC', c)), validate=1))
        out.append(Case('watched, %s state' % n, with_files(watched(None, 'PMC', c)), validate=1))
    return out
