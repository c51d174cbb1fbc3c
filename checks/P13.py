"""P13: time-domain observers write the six components of exactly the requested nodes and steps, in order."""
from checks.common import *

BOUNDS = ('meshes of 2x3x2 and 3x2x2 cells with arbitrary field state; every box and stride along each axis (symbolic corners and strides 0 to 4), every point for the text format, '
          'symbolic output time window over runs of 0 to 3 steps, several observers of both formats in one run, default strides, absorbing layers of different thickness on each axis')
OUTSIDE = 'larger boxes and longer runs; far-field and HDF5 observers, which are not implemented'
W = 'WF w GAUSSIAN_PULSE'


def run(B, dm, obs, nt=1, ot=None, args=(), ext='PMC'):
    """obs: list of (name, kind, box, stride or None).  Checks every output of every observer."""
    lines = mlines(dm)
    hist = []

    def body():
        g = Grid(B)
        dt = B.ld(B.g('dt'), 'f32')
        S = {f: {c: 0.0 for c in g.cells()} for f in E3 + H3}
        for f in E3 + H3:
            for c in g.cells():
                S[f][c] = B.real('%s_%d_%d_%d' % ((f,) + c), -1.0 if f[0] == 'E' else -1.0 / ETA0, 1.0 if f[0] == 'E' else 1.0 / ETA0)
        if ext == 'PMC':
            ghost_h(S, g.go, ['PMC'] * 6)
        for f in E3 + H3:
            for c in g.cells():
                g.set(f, *c, S[f][c])
        r = Ref(g, lines, 'PMC', dt, None, S)
        ins = {f: set(r.ins[f]) for f in E3 + H3}
        for n in range(nt):
            hist.append({f: dict(r.S[f]) for f in E3 + H3})
            if n < nt - 1:
                r.run(1)
        B.real_propagate()
        B.saved = (tuple(g.gi), dt, hist, ins)
    cards = [W, 'EX 0 1 0 0 0 0 quiet EX w 0.0']
    for name, kind, box, stride in obs:
        cards.append('OP %s %s %s %s' % (box_str(B, box), name, kind, '' if stride is None else ' '.join(B.tok(x) for x in stride)))
    s3 = [] if ot is None else ['OT %s %s' % (B.tok(ot[0]), B.tok(ot[1]))]
    run_mesh(B, mesh_text(B, dm, ext=ext, s2=cards, nt=nt, lines=lines, s3=s3), body, args=args)
    gi, dt, hist, ins = B.saved
    off = (gi[0], gi[2], gi[4])
    first, last = (0, nt - 1) if ot is None else (ot[0], min(ot[1], nt - 1))
    steps = range(first, last + 1)

    def comp(f, c, n, got, what):
        if n == 0 or c in ins[f]:
            B.near('%s %s%s step %d' % (what, f, c, n), got, hist[n][f][c], scale=4.0 if f[0] == 'E' else 4.0 / ETA0)
    bins = [o for o in obs if o[1] == 'TDOM_BINARY']
    if bins:
        vals, sizes = B.binary('impulse.dat', ('if', 'iiiffffff'))
        B.check('word sizes', all(x == 4 for x in sizes))
        want = []
        for n in steps:
            for name, kind, box, stride in bins:
                st = [x or 1 for x in (stride or (1, 1, 1))]
                for k in range(box[4], box[5] + 1, st[2]):
                    for j in range(box[2], box[3] + 1, st[1]):
                        for i in range(box[0], box[1] + 1, st[0]):
                            want.append((n, (i, j, k)))
        B.check('number of records', len(vals) == 2 + 9 * len(want))
        B.check('steps in the header', vals[0] == len(steps))
        B.near('time step in the header', vals[1], dt, scale=dt)
        if len(vals) == 2 + 9 * len(want):
            for q, (n, p) in enumerate(want):
                rec = vals[2 + 9 * q:11 + 9 * q]
                B.check('node of record %d' % q, land(rec[0] == p[0], rec[1] == p[1], rec[2] == p[2]))
                c = tuple(a + b for a, b in zip(p, off))
                for m, f in enumerate(E3 + H3):
                    comp(f, c, n, rec[3 + m], 'record %d' % q)
    for name, kind, box, stride in obs:
        if kind != 'TDOM_ASCII':
            continue
        ls = [l for l in B.lines('eh_%s_td.asc' % name) if l]
        rows = [l for l in ls if l[0] != '#']
        B.check('rows of ' + name, len(rows) == len(steps))
        pos = [lines[d][box[2 * d]] for d in range(3)]
        B.check('heading of ' + name, len(ls) >= 2 and ls[0][0] == '#' and ''.join(str(x) for x in ls[0][1:]).startswith('(%d,%d,%d)->' % tuple(box[::2])))
        c = tuple(box[2 * d] + off[d] for d in range(3))
        if len(rows) == len(steps):
            for n, row in zip(steps, rows):
                B.check('columns of ' + name, len(row) == 8)
                B.near('step of ' + name, B.num(row[0]), float(n), scale=1.0)
                B.near('time of ' + name, B.num(row[1]), n * dt, scale=dt)
                for m, f in enumerate(E3 + H3):
                    comp(f, c, n, B.num(row[2 + m]), name)


def along(a, dm=(2, 3, 2)):
    """One binary observer: box and stride symbolic along axis a, a thin but strided box across it."""
    def h(B):
        lo, hi = B.int('lo', 0, dm[a]), B.int('hi', 0, dm[a])
        B.assume(lo <= hi)
        st = [1, 1, 1]
        st[a] = B.fork(B.int('stride', 0, 4))
        box = [0, 1, 0, 1, 0, 1]
        b = (a + 1) % 3
        st[b] = 2
        box[2 * b + 1] = 2
        box[2 * a], box[2 * a + 1] = B.fork(lo), B.fork(hi)
        run(B, dm, [('p', 'TDOM_BINARY', box, st)])
    return h


def ascii_point(dm=(2, 3, 2)):
    def h(B):
        p = [B.fork(B.int('p%d' % d, 0, dm[d])) for d in range(3)]
        run(B, dm, [('probe', 'TDOM_ASCII', [p[0], p[0], p[1], p[1], p[2], p[2]], None)])
    return h


def window(nt, dm=(2, 2, 2)):
    """Output window symbolic, with both formats."""
    def h(B):
        a, b = B.int('start', 0, nt + 1), B.int('stop', 0, nt + 2)
        B.assume(a <= b)
        a, b = B.fork(a), B.fork(b)
        run(B, dm, [('t', 'TDOM_ASCII', [1, 1, 0, 0, 1, 1], None), ('b', 'TDOM_BINARY', [0, 1, 1, 1, 0, 2], (1, 1, 2))], nt=nt, ot=(a, b))
    return h


def shifted(layers, dm=(2, 2, 2)):
    """Padding of different thickness on every axis."""
    def h(B):
        ext = [['PML %d 2 1.0 1e-3 1.0' % n if n else 'PEC', 'PEC'][b] for n in layers for b in (0, 1)]
        z = B.fork(B.int('z', 0, dm[2]))
        run(B, dm, [('b', 'TDOM_BINARY', [0, 2, 1, 2, z, z], (2, 1, 1)), ('t', 'TDOM_ASCII', [1, 1, 2, 2, z, z], None)], ext=ext)
    return h


def many(nt=2, dm=(3, 2, 2), **k):
    """Several observers, interleaved formats."""
    def h(B):
        run(B, dm, [('b1', 'TDOM_BINARY', [0, 3, 1, 1, 0, 2], (2, 1, 1)), ('t1', 'TDOM_ASCII', [1, 1, 1, 1, 1, 1], None), ('f1', 'FDOM_ASCII', [1, 1, 1, 1, 1, 1], None),
                    ('b2', 'TDOM_BINARY', [1, 1, 0, 0, 1, 1], None), ('t2', 'TDOM_ASCII', [2, 2, 0, 0, 1, 1], None), ('b3', 'TDOM_BINARY', [0, 2, 0, 2, 1, 2], None)], nt=nt, **k)
    return h


def warmup(B):
    along(0)(B)


def cases(tier):
    out = [Case('binary along ' + 'xyz'[a], along(a), validate=1) for a in range(3)]
    out += [Case('text at any node', ascii_point())]
    out += [Case('window of %d steps' % n, window(n)) for n in (0, 1, 2, 3)]
    out += [Case('several observers', many())]
    out += [Case('padding %d%d%d' % l, shifted(l)) for l in ((1, 2, 3), (2, 0, 1), (0, 1, 0), (1, 1, 0), (0, 2, 2))]
    if tier == 'thorough':
        out += [Case('binary along %s wide' % 'xyz'[a], along(a, (5, 4, 6)), validate=1) for a in range(3)]
        out += [Case('text wide', ascii_point((4, 5, 3))), Case('window of 5 steps', window(5)), Case('several 4 steps', many(4))]
    return out
