"""P23: reporting options never change the physics or the exit status."""
from checks.common import *
from checks.P18 import GEO, LIN, WAVE

BOUNDS = ('every set and order of up to three options in their short and long forms, with any number of threads, on meshes with every kind of card and a symbolic source; every option letter of one symbolic ASCII character and '
          'long option words with a symbolic character at every position; missing and surplus arguments')
OUTSIDE = 'option words with a suffix (-vx), negative and overflowing numbers of threads, the contents of the log'

SHORT = {'verbose': ['-v', '--verbose'], 'dump': ['-g', '--dump-grid'], 'threads': ['-n', '--num-proc', '--numproc']}
OUT = ['xlines.dat', 'ylines.dat', 'zlines.dat', 'eh_o_td.asc', 'eh_q_fd.asc', 'wf_w_td.asc', 'wf_w_fd.asc', 'process.dat', 'impulse.dat', 'excite.dat']
DUMPS = ['mediaEx.dat', 'mediaEy.dat', 'mediaEz.dat', 'mediaHx.dat', 'mediaHy.dat', 'mediaHz.dat']


def model(B, which):
    B.put_file('wave.dat', WAVE)
    t = '\n'.join(GEO if which == 'GEO' else LIN) + '\n'
    if which == 'GEO':
        t = t.replace('EX w 1.5 1e-12', 'EX w %s 1e-12' % B.tok(B.real('amp', 0.5, 1.0))).replace('OP 1 1', 'OP 1 1 1 1 1 1 q FDOM_ASCII\nOP 1 1')
    B.put_file('m.mesh', t)


def forget(B):
    """Start from an empty directory."""
    B.forget_files()


def simulate(B, args):
    forget(B)

    def body():
        g = Grid(B)
        B.saved = {'ran': True}
        B.real_propagate()
        r = {'ran': True, 'dt': B.ld(B.g('dt'), 'f32')}
        for f in E3 + H3:
            for c in g.cells():
                r[f, c] = g.get(f, *c)
        B.saved = r
    B.saved = {}
    rc = B.main(list(args) + ['m.mesh'], body)
    out = dict(B.saved)
    for n in OUT:
        if B.out_exists(n):
            out[n] = B.binary(n, ('if', 'iiiffffff'))[0] if n == 'impulse.dat' else [list(l) for l in B.lines(n)]
    return rc, out, [n for n in DUMPS if B.out_exists(n)]


def same(B, a, b):
    B.check('same outputs and fields exist', set(a) == set(b))
    for k in a:
        if k in b:
            B.check('same %s' % (k,), a[k] == b[k])


def any_option(B, n):
    """A symbolic choice among the reporting options; returns (arguments, meaning)."""
    w = B.fork(B.int('option%d' % n, 0, 6))
    if w < 4:
        return [['-v'], ['--verbose'], ['-g'], ['--dump-grid']][w], ['verbose', 'verbose', 'dump', 'dump'][w]
    return [['-n', '--num-proc', '--numproc'][w - 4], B.tok(B.int('threads%d' % n, 1, (1 << 31) - 1))], 'threads'


def reporting(which, count):
    def h(B):
        model(B, which)
        rc0, ref, d0 = simulate(B, [])
        B.check('plain run succeeds', rc0 == 0 and 'dt' in ref and not d0)
        args, dump = [], False
        for n in range(count):
            a, w = any_option(B, n)
            args += a
            dump = dump or w == 'dump'
        rc, got, d = simulate(B, args)
        B.check('exit status unchanged', rc == rc0)
        same(B, ref, got)
        B.check('grid pictures written when asked for', d == (DUMPS if dump else []))
    return h


def rejected(opts):
    """A broken mesh keeps its exit status."""
    def h(B):
        B.put_file('m.mesh', 'VM 1.0.0\nDM 2 2 %s\nGS\nGE\nNT 1\nMS 0.1\nEN\n' % B.tok(B.int('n', -5, 0)))
        forget(B)
        a = B.main(['m.mesh'])
        B.check('rejected', a == 6)
        b = B.main(opts + ['m.mesh'])
        B.check('exit status unchanged', a == b)
    return h


def stop(opt, level):
    """-m stops after the mesh, -p before the first step, alone and with other options."""
    def h(B):
        model(B, 'GEO')
        _, ref, _ = simulate(B, [])
        a, w = any_option(B, 0)
        before = B.fork(B.int('before', 0, 1))
        rc, got, d = simulate(B, a + [opt] if before else [opt] + a)
        B.check('succeeds', rc == 0)
        B.check('no step is taken', 'ran' not in got)
        if level == 'mesh':
            B.check('nothing is written', not got and not d)
        else:
            for n in ('xlines.dat', 'ylines.dat', 'zlines.dat'):
                B.check('%s is written' % n, got.get(n) == ref[n])
            B.check('grid pictures written when asked for', d == (DUMPS if w == 'dump' else []))
    return h


def both(B):
    model(B, 'GEO')
    a = [['-m', '--read-mesh', '--readmesh'][B.fork(B.int('a', 0, 2))], ['-p', '--preprocess'][B.fork(B.int('b', 0, 1))]]
    if B.fork(B.int('swap', 0, 1)):
        a.reverse()
    rc, got, d = simulate(B, a)
    B.check('reading only wins', rc == 0 and not got and not d)


def inform(opt):
    """Help, version and licence: no mesh is needed."""
    def h(B):
        if B.fork(B.int('mesh', 0, 1)):
            model(B, 'GEO')
        a = []
        if B.fork(B.int('first', 0, 1)):
            a += any_option(B, 0)[0]
        a += [opt]
        if B.fork(B.int('named', 0, 1)):
            a += ['m.mesh']
        forget(B)
        B.saved = {}

        def body():
            B.saved = {'ran': True}
        rc = B.main(a, body)
        B.check('exit status', rc == 0)
        B.check('no simulation', not B.saved and not any(B.out_exists(n) for n in OUT + DUMPS))
        B.check('something is said', len([l for l in B.lines('stdout') if l]) >= 3)
    return h


LETTERS = 'hVvmnpgl'


def letter(B):
    """Any other option letter is an error."""
    model(B, 'GEO')
    c = B.char('letter')
    for l in LETTERS + '-':
        B.assume(c != ord(l))
    forget(B)
    B.saved = {}

    def body():
        B.saved = {'ran': True}
    rc = B.main(['-' + B.ch(c), 'm.mesh'], body)
    B.check('exit status', rc == 1)
    B.check('no simulation', not B.saved and not any(B.out_exists(n) for n in OUT + DUMPS))


WORDS = ['--help', '--version', '--verbose', '--read-mesh', '--readmesh', '--num-proc', '--numproc', '--preprocess', '--dump-grid', '--licence']


def misspelt(word):
    def h(B):
        model(B, 'GEO')
        k = B.fork(B.int('at', 2, len(word) - 1))
        c = B.char('c')
        B.assume(c != ord(word[k]))
        forget(B)
        B.saved = {}

        def body():
            B.saved = {'ran': True}
        w = word[:k] + B.ch(c) + word[k + 1:]
        rc = B.main([w] + (['2'] if 'num' in word else []) + ['m.mesh'], body)
        B.check('exit status', rc == 1)
        B.check('no simulation', not B.saved and not any(B.out_exists(n) for n in OUT + DUMPS))
    return h


def cut(B):
    """Long options cut short."""
    model(B, 'GEO')
    w = WORDS[B.fork(B.int('word', 0, len(WORDS) - 1))]
    k = B.fork(B.int('len', 2, 11))
    if k >= len(w):
        return B.check('nothing cut', True)
    rc = B.main([w[:k], 'm.mesh'])
    B.check('exit status', rc == 1)


def threads(opt):
    def h(B):
        model(B, 'GEO')
        n = B.fork(B.int('kind', 0, 3))
        if n == 0:
            a = [opt, '0', 'm.mesh']
        elif n == 1:
            a = [opt]
        else:
            c, d = B.char('c', 33), B.char('d', 33)
            for x in (c, d):
                B.assume(lnot(land(x >= 48, x <= 57)))
            # not the start of a number in any notation
            for x in 'iInN+-.':
                B.assume(c != ord(x))
            a = [opt, B.ch(c) + B.ch(d), 'm.mesh'] if n == 2 else [opt, B.ch(c), 'm.mesh']
        B.saved = {}

        def body():
            B.saved = {'ran': True}
        rc = B.main(a, body)
        B.check('exit status', rc == 1)
        B.check('no simulation', not B.saved)
    return h


def arguments(B):
    model(B, 'GEO')
    n = B.fork(B.int('kind', 0, 3))
    forget(B)
    B.saved = {}

    def body():
        B.saved = {'ran': True}
    rc = B.main([[], ['m.mesh', 'm.mesh'], ['-v'], ['absent.mesh']][n], body)
    B.check('fails', rc != 0)
    B.check('no simulation', not B.saved)


def cases(tier):
    out = []
    for w in ('GEO', 'LIN'):
        for n in (1, 2) if tier == 'quick' or w == 'LIN' else (1, 2, 3):
            out.append(Case('%d options on %s' % (n, w), reporting(w, n), max_paths=5000, validate=1))
    out.append(Case('rejected mesh', rejected(['-v', '-g']), validate=1))
    for o in ('-m', '--read-mesh', '--readmesh'):
        out.append(Case(o, stop(o, 'mesh'), validate=1))
    for o in ('-p', '--preprocess'):
        out.append(Case(o, stop(o, 'grid'), validate=1))
    out.append(Case('-m and -p', both, validate=1))
    for o in ('-h', '--help', '-V', '--version', '-l', '--licence'):
        out.append(Case(o, inform(o), validate=1))
    out.append(Case('unknown letter', letter, validate=1))
    for w in WORDS:
        out.append(Case('misspelt ' + w, misspelt(w), validate=1))
    out.append(Case('cut words', cut, max_paths=1000, validate=1))
    for o in ('-n', '--num-proc', '--numproc'):
        out.append(Case('threads ' + o, threads(o), validate=1))
    out.append(Case('arguments', arguments, validate=1))
    return out
