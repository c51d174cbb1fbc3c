"""P15: waveform series, excitation and process files describe the run."""
from checks.common import *
from vv.rt import mexp

BOUNDS = ('1 to 3 waveforms with symbolic size, delay and width over runs of 1 to 4 steps; every output window of a 3 step run; 1 to 3 binary observers with symbolic boxes and strides; '
          'comments of 0 to 5 words and beyond 69 characters; symbolic mesh sizes')
OUTSIDE = 'longer runs; the log file; output of graphics options (P24)'


def series(nwf, nt, binary=True):
    def h(B):
        par = [(B.real('size%d' % k, 0.0, 2.0), B.real('delay%d' % k, 0.0, 5e-11), B.real('width%d' % k, 1e-11, 4e-11)) for k in range(nwf)]
        d = B.real('cell', 0.005, 0.02)

        def body():
            B.saved = B.ld(B.g('dt'), 'f32')
            B.real_propagate()
        cards = ['WF wave%d %s %s' % (k, ('GAUSSIAN_PULSE', 'NARROW_GAUSSIAN_PULSE')[k % 2], ' '.join(B.tok(x) for x in p)) for k, p in enumerate(par)]
        cards += ['EX 0 1 0 0 0 0 src EX wave%d 0.0' % (nwf - 1)]
        if binary:
            cards += ['OP 0 1 0 0 0 0 out TDOM_BINARY']
        run_mesh(B, mesh_text(B, (2, 2, 2), ext='PMC', s2=cards, nt=nt, ms=d), body)
        dt = B.saved
        val = []
        for k, (a, td, w) in enumerate(par):
            t = table(B, 'wf_wave%d_td.asc' % k)
            B.check('rows of waveform %d' % k, len(t) == nt)
            val.append([])
            for n in range(nt):
                x = (n * dt - td) / w
                val[k].append(a * mexp(-0.5 * x * x))
                if n < len(t):
                    B.check('columns', len(t[n]) == 3)
                    B.near('step', B.num(t[n][0]), float(n), scale=1.0)
                    B.near('time %d' % n, B.num(t[n][1]), n * dt, scale=2e-11)
                    B.near('waveform %d at step %d' % (k, n), B.num(t[n][2]), val[k][n], scale=1.0)
        if binary:
            e = [l for l in B.lines('excite.dat') if l]
            B.check('rows of excite.dat', len(e) == nt + 1)
            B.check('excite.dat head', len(e[0]) == 1 and B.num(e[0][0]) == 8)
            for n in range(min(nt, len(e) - 1)):
                B.check('one value', len(e[n + 1]) == 1)
                B.near('excitation at step %d' % n, B.num(e[n + 1][0]), val[0][n], scale=1.0)
        else:
            B.check('no excite.dat', not B.out_exists('excite.dat'))
            B.check('no process.dat', not B.out_exists('process.dat'))
            B.check('no impulse.dat', not B.out_exists('impulse.dat'))
    return h


def process(nobs, nt=3, ot=False, comment='run of the day', extra=()):
    def h(B):
        dm = (3, 2, 4)
        win = None
        if ot:
            a, b = B.int('start', 0, nt - 1), B.int('stop', 0, nt - 1)
            B.assume(a <= b)
            win = (B.fork(a), B.fork(b))
        boxes, steps = [], []
        for q in range(nobs):
            a = q % 3
            lo, hi = B.int('lo%d' % q, 0, dm[a]), B.int('hi%d' % q, 0, dm[a])
            B.assume(lo <= hi)
            if nobs > 1:
                B.assume(hi >= dm[a] - 1)
            box = [0, 1, 1, 2, 0, 3]
            box[2 * a], box[2 * a + 1] = B.fork(lo), B.fork(hi)
            st = [1, 1, 2]
            st[a] = 1 + q
            boxes.append(box)
            steps.append(st)
        d = B.real('cell', 0.005, 0.02)

        def body():
            B.saved = B.ld(B.g('dt'), 'f32')
            B.real_propagate()
        cards = ['WF w GAUSSIAN_PULSE', 'EX 0 1 0 0 0 0 quiet EX w 0.0']
        for q in range(nobs):
            cards.append('OP %s o%d TDOM_BINARY %d %d %d' % ((box_str(B, boxes[q]), q) + tuple(steps[q])))
        cards += list(extra)
        text = mesh_text(B, dm, ext='PMC', s2=cards, nt=nt, ms=d, s3=[] if win is None else ['OT %d %d' % win])
        text = text.replace('CE generated\n', '' if comment is None else 'CE %s\n' % comment)
        run_mesh(B, text, body)
        dt = B.saved
        a, b = (0, nt - 1) if win is None else win
        ls = [l for l in B.lines('process.dat') if l]
        B.check('comment', ls[0][0] == 'CE')
        if comment is not None:
            got, want = ' '.join(ls[0][1:]), ' '.join(comment.split())
            B.check('comment text', got == want if len(want) < 67 else want.startswith(got) and 60 < len(got) < 70)
        B.check('lines of process.dat', len(ls) == 6 + nobs)
        ls = [[B.num(x) for x in l] for l in ls[1:]]
        if len(ls) == 5 + nobs:
            B.check('number of observers', ls[0] == [nobs])
            for q in range(nobs):
                w = [x for d_ in range(3) for x in (boxes[q][2 * d_], boxes[q][2 * d_ + 1], steps[q][d_])]
                B.check('observer %d' % q, ls[1 + q] == w)
            B.check('output steps', ls[1 + nobs] == [a + 1, b + 1])
            B.check('frequency columns', len(ls[2 + nobs]) == 3)
            B.check('start frequency', ls[2 + nobs][0] == 0)
            B.near('stop frequency', ls[2 + nobs][1] * dt, 1.0, scale=1.0)
            B.near('frequency step', ls[2 + nobs][2] * dt * nt, 1.0, scale=1.0)
            B.near('mesh size', ls[3 + nobs][0], 2 * C0 * dt, scale=0.01)
            B.check('extraction box', ls[4 + nobs] == boxes[0] + [1])
    return h


def cases(tier):
    out = [Case('series of %d waveforms, %d steps' % (n, nt), series(n, nt)) for n, nt in ((1, 1), (1, 4), (2, 2), (3, 3))]
    out += [Case('no binary observer', series(2, 2, False))]
    out += [Case('process %d observers' % n, process(n), validate=1) for n in (1, 2, 3)]
    out += [Case('process window', process(1, 3, True)),
            Case('process mixed observers', process(2, 2, extra=['OP 1 1 1 1 1 1 t TDOM_ASCII', 'OP 1 1 1 1 1 1 f FDOM_ASCII'])),
            Case('process long comment', process(1, 1, comment='abcdefghi ' * 12 + 'z')),
            Case('process 68 characters', process(1, 1, comment='x' * 68)),
            Case('process no comment', process(1, 1, comment=None))]
    return out
