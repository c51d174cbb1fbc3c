"""P18: comments, blank lines and white space never change the meaning of a mesh."""
from checks.common import *
from vv.libc import space

BOUNDS = ('documents with every kind of card, one change at every line and every gap between the words of a line: up to three symbolic white space characters, comments of up to four symbolic ASCII characters, '
          'blank and comment lines; documents of an unknown two-character line inside them; comments and trailing blanks longer than the line buffer; fields after two steps and all text outputs compared')
OUTSIDE = 'leading white space beyond the 1023 characters of the line buffer; several changes at once other than all line ends; white space inside quoted file names and in the files they name'

GEO = ['VM 1.0.0', 'CE spaces and comments', 'DM 3 2 2', 'GS', 'MT glass SIMPLE 2.5 0.01 1.5', 'MT fog DEBYE 1.5 0.0 1.0 2e8 0.0 -1e9 0.0', 'BT XLO PEC', 'BT XHI PMC', 'BT YLO PERIODIC', 'BT YHI PERIODIC',
       'BT ZLO MUR', 'BT ZHI PML 2 3 1.0 1e-3 2.0', 'MB 0 1 0 1 0 1 glass 110011', 'MB 1 2 0 2 0 1 fog', 'TB 2 2 0 1 0 1 PEC -1 45.0', 'TW 0 1 1 1 1 1 PEC END', 'WF w GAUSSIAN_PULSE 2.0 1e-11 2e-11',
       'EX 1 2 0 0 1 1 s EX w 1.5 1e-12', 'OP 1 1 1 1 1 1 o TDOM_ASCII', 'GE', 'NT 2', 'OT 0 1', 'OF 1e9 2e9 2', 'CN 0.7', 'MS 0.01 0.02 0.015', 'EN']
LIN = ['VM 1.0.0', 'DM 2 2 2', 'BR -1 1 -1 1 -1 -1', 'GS', 'BT sheet SIBC -0.6 0.0 0.0 -0.6 0.3 0.0 0.0 0.3', 'WT thin PEC', 'TB 1 1 0 1 0 1 sheet 1', 'WF w EXTERNAL "wave.dat" 2.0', 'PW 0 2 0 2 0 2 p w 90 0 180 111111 1.0 0.0',
       'OP 0 2 1 1 1 1 o TDOM_BINARY 1 2 1', 'FF 0 2 0 2 0 2 ff w 0 0 1 0 0 1', 'GE', 'NT 2', 'XL', '0.0', '0.01', '0.03', 'YL', '0.0', '0.01', '0.02', 'ZL', '-0.01 0.0', '0.01', 'EN']
WAVE = '0.0 1.0\n1e-11 0.5\n2e-11 0.25\n'


def words(line):
    """Words of a line, quoted strings kept whole."""
    out, q = [], False
    for w in line.split():
        if q:
            out[-1] += ' ' + w
        else:
            out.append(w)
        q = q != (w.count('"') % 2 == 1)
    return out


def run(B, text, mode):
    """Everything the mesh means to the program."""
    B.put_file('wave.dat', WAVE)
    B.mesh('m.mesh', text)

    def body():
        g = Grid(B)
        B.real_propagate()
        r = {'dt': B.ld(B.g('dt'), 'f32')}
        for f in E3 + H3:
            for c in g.cells():
                r[f, c] = g.get(f, *c)
        B.saved = r
    rc = B.main((['-m'] if mode else []) + ['m.mesh'], None if mode else body)
    out = {'rc': rc}
    if not mode and rc == 0:
        out.update(B.saved)
        for f in ('xlines.dat', 'ylines.dat', 'zlines.dat', 'eh_o_td.asc', 'wf_w_td.asc'):
            out[f] = [list(l) for l in B.lines(f)] if B.out_exists(f) else None
        if B.out_exists('impulse.dat'):
            out['impulse.dat'] = B.binary('impulse.dat', ('if', 'iiiffffff'))[0]
    return out


def compare(B, a, b):
    B.check('accepted or rejected alike', a['rc'] == b['rc'])
    B.check('same outputs', set(a) == set(b))
    for k in a:
        if k == 'rc' or k not in b:
            continue
        if isinstance(a[k], list):
            B.check('same shape of %s' % k, b[k] is not None and len(a[k]) == len(b[k]))
            for x, y in zip(a[k], b[k] or []):
                B.check('same content of %s' % k, x == y)
        elif a[k] is None:
            B.check('no %s' % k, b[k] is None)
        else:
            B.check('same %s' % (k,), a[k] == b[k])


def blank(B, name, n=1):
    """n symbolic white space characters."""
    out = ''
    for k in range(n):
        c = B.char('%s%d' % (name, k), 9, 32)
        B.assume(space(c))
        out += B.ch(c)
    return out


def anything(B, name, n):
    return ''.join(B.ch(B.char('%s%d' % (name, k))) for k in range(n))


def change(doc, kind, mode=False, lo=0, hi=None, ref=None):
    hi = len(doc) - 1 if hi is None else hi

    def h(B):
        n = B.fork(B.int('line', lo, hi))
        w = words(doc[n])
        t = list(doc)
        if kind == 'lead':
            t[n] = blank(B, 'c', 2) + doc[n]
        elif kind == 'trail':
            t[n] = doc[n] + blank(B, 'c', 2)
        elif kind == 'gap':
            if len(w) == 1:
                return
            g = B.fork(B.int('gap', 1, len(w) - 1))
            t[n] = ' '.join(w[:g]) + blank(B, 'c', 1 + n % 3) + ' '.join(w[g:])
        elif kind == 'gaps':
            t[n] = blank(B, 'c', 1).join(w)
        elif kind == 'comment':
            t[n] = doc[n] + ' #' + anything(B, 'c', 3)
        elif kind == 'glued comment':
            t[n] = doc[n] + '#' + anything(B, 'c', 1) + ' '
        elif kind == 'blank line':
            t.insert(n, blank(B, 'c', 3))
        elif kind == 'comment line':
            t.insert(n, blank(B, 'b', 1) + '#' + anything(B, 'c', 4))
        elif kind == 'empty line':
            t.insert(n, '')
        elif kind == 'long comment':
            t[n] = doc[n] + ' # ' + 'EX ' * 341 + anything(B, 'c', 1) + '\tEN'
        elif kind == 'long comment line':
            t.insert(n, '#' + 'EN#' * 341 + anything(B, 'c', 2))
        elif kind == 'long blank':
            t[n] = doc[n] + ' ' * 1020 + blank(B, 'c', 4) + '#EN'
        elif kind == 'ends':
            c = blank(B, 'c', 1)
            t = [x + c for x in t]
        text, plain = '\n'.join(t) + '\n', '\n'.join(doc) + '\n'
        if kind == 'no last newline':
            text = plain + '# ' + anything(B, 'c', 2) if n else plain[:-1]
        a = run(B, plain, mode)
        if ref is not None:
            B.check('plain document %s' % ('accepted' if ref else 'rejected'), (a['rc'] == 0) == ref)
        compare(B, a, run(B, text, mode))
    return h


def stray(kind):
    """A line of one or two unknown characters stays what it is when set in white space or followed by a comment."""
    def h(B):
        k = B.fork(B.int('chars', 1, 2))
        c = [B.char('x%d' % q, 33, 126) for q in range(k)]
        for x in c:
            B.assume(x != 35)
        s = ''.join(B.ch(x) for x in c)
        n = B.fork(B.int('line', 1, 3))
        doc = ['VM 1.0.0', 'DM 2 2 2', 'GS', 'WF w GAUSSIAN_PULSE', 'EX 0 1 0 0 0 0 e EX w', 'GE', 'NT 1', 'MS 0.1', 'EN']
        v = {'lead': blank(B, 'b') + s, 'trail': s + blank(B, 'b'), 'comment': s + '#' + anything(B, 'a', 1), 'both': blank(B, 'b') + s + '#' + anything(B, 'a', 1), 'around': blank(B, 'b') + s + blank(B, 'd')}[kind]
        a = run(B, '\n'.join(doc[:n] + [s] + doc[n:]) + '\n', True)
        compare(B, a, run(B, '\n'.join(doc[:n] + [v] + doc[n:]) + '\n', True))
    return h


def end(kind):
    """The same at the end of a file without a line end."""
    def h(B):
        c = B.char('x', 33, 126)
        B.assume(c != 35)
        s = B.ch(c)
        doc = ['VM 1.0.0', 'DM 2 2 2', 'GS', 'WF w GAUSSIAN_PULSE', 'EX 0 1 0 0 0 0 e EX w', 'GE', 'NT 1', 'MS 0.1', 'EN', '']
        a = run(B, '\n'.join(doc) + s, True)
        compare(B, a, run(B, '\n'.join(doc) + (blank(B, 'b', 2) + s if kind == 'lead' else s + blank(B, 'b', 2)), True))
        B.check('a stray character is an error', a['rc'] == 6)
    return h


def warmup(B):
    run(B, '\n'.join(GEO) + '\n', False)
    run(B, '\n'.join(LIN) + '\n', False)


def cases(tier):
    out = []
    for nm, doc in (('geometry', GEO), ('lines', LIN)):
        for kind in ('lead', 'trail', 'gaps', 'comment', 'glued comment', 'blank line', 'comment line', 'empty line', 'long comment', 'long comment line', 'long blank') + (('gap',) if tier == 'thorough' else ()):
            out.append(Case('%s %s' % (nm, kind), change(doc, kind, ref=True), validate=1))
        if tier != 'thorough':
            for lo in range(0, len(doc), 9):
                out.append(Case('%s gap from %d' % (nm, lo), change(doc, 'gap', False, lo, min(lo + 8, len(doc) - 1), ref=True), validate=1))
        out.append(Case('%s line ends' % nm, change(doc, 'ends', hi=0, ref=True), validate=1))
        out.append(Case('%s last line' % nm, change(doc, 'no last newline', hi=1, ref=True), validate=2))
    bad = GEO[:6] + GEO[10:12] + ['MB 0 1 0 9 0 1 glass'] + GEO[12:]
    for kind in ('lead', 'trail', 'comment', 'comment line'):
        out.append(Case('rejected ' + kind, change(bad, kind, True, ref=False), validate=1))
    for kind in ('lead', 'trail', 'comment', 'both', 'around'):
        out.append(Case('stray ' + kind, stray(kind), validate=2))
    for kind in ('lead', 'trail'):
        out.append(Case('stray end ' + kind, end(kind), validate=2))
    return out
