"""P19: no mesh makes the program touch memory it does not own."""
from checks.common import *
from checks.P18 import GEO, LIN, WAVE, words

BOUNDS = ('two documents that use every card, meshes of 2 to 3 cells per axis, one time step: cut at every byte; a symbolic character at every place of the chosen lines (all lines in the '
          'thorough tier; in names and the middle of words one of eight kinds of character); every word grown to 30..2100 characters; every integer any 32 bit value (layer, cell, step and '
          'frequency counts at most 5), every real within +-1000; both limits of a box along an axis at once; cards dropped, doubled and shortened; data files cut at every byte')
OUTSIDE = ('several changes at once; sizes whose memory or run time cannot be had (NT, DM and layer counts of millions); running out of memory; memory leaks; bytes 0 and above 127')

SIBC2 = '2 2\n1 -0.6\n-1e9 0.0 1e8 0.0\n0 0.3\n0 0.3\n2 -0.6\n-1e9 1e9 1e8 1e8\n-1e9 -1e9 1e8 -1e8\n'
DEBYE = '2 1.5 0.01 1.0\n2e8 0.0 -1e9 0.0\n1e8 1e8 -2e9 1e9\n'
FILES = {'wave.dat': WAVE, 'sibc.dat': SIBC2, 'debye.dat': DEBYE}
EXTRA = {'GEO': ['MT mist DEBYE "debye.dat"', 'MB 0 1 1 2 0 1 mist', 'OP 0 3 0 2 0 2 p TDOM_BINARY 2 1 1', 'OP 1 1 0 0 1 1 q FDOM_ASCII', 'PW 0 2 1 2 1 2 u w 30 40 50 111111'],
         'LIN': ['BT cloth SIBC "sibc.dat"', 'TB 0 1 1 1 0 2 cloth -1 30.0', 'MB 1 2 0 1 1 2 PEC']}


def text(which):
    t = list(GEO if which == 'GEO' else LIN)
    g = t.index('GE')
    t[g:g] = EXTRA[which]
    t = [l.replace('NT 2', 'NT 1').replace('OT 0 1', 'OT 0 0') for l in t]
    return t


def survive(B, t, args=(), files=None, what='ends with success or the error status'):
    for n, c in dict(FILES, **(files or {})).items():
        B.put_file(n, c)
    B.put_file('m.mesh', t if isinstance(t, str) else '\n'.join(t) + '\n')
    rc = B.main(list(args) + ['m.mesh'])
    B.check(what, lor(rc == 0, rc == 6))
    return rc


# ---- text -------------------------------------------------------------------------------------------------------

def cut(which, part, of):
    """The file ends anywhere."""
    t = '\n'.join(text(which)) + '\n'
    n = len(t)

    def h(B):
        k = B.fork(B.int('at', n * part // of, n * (part + 1) // of - 1))
        survive(B, t[:k])
    return h


def cutfile(name, which):
    c = FILES[name]

    def h(B):
        k = B.fork(B.int('at', 0, len(c)))
        rc = survive(B, text(which), files={name: c[:k]})
        if k == len(c):
            B.check('the whole file is accepted', rc == 0)
    return h


def isreal(w):
    try:
        float(w)
    except ValueError:
        return False
    return any(x in w for x in '.eE')


def strange(which, i):
    """A symbolic character in place of any character of line i."""
    t = text(which)
    line = t[i]

    def h(B):
        k = B.fork(B.int('at', 0, len(line) - 1))
        c = B.char('c')
        a, b = k, k
        while a and not line[a - 1].isspace():
            a -= 1
        while b < len(line) and not line[b].isspace():
            b += 1
        w = line[a:b]
        card = line.split()[0]
        j = len(line[:k].split())       # words begun before the place
        r = isreal(w) or line[k].isspace() and any(isreal(x) for x in (line[:k].split() or [''])[-1:] + (line[k:].split() or [''])[:1])
        r = r or card in ('PW', 'WF', 'TB', 'EX') and j >= 8 or not card[0].isalpha()
        if card == 'DM' or 'PML' in line:
            B.assume(lor(c < (48 if line[k].isspace() else 53), c > 57))     # keep the mesh small
            if bool(c >= 48) and bool(c <= 57):
                c = B.fork(c)
        name = not line[k].isspace() and not r and w.strip('"-').replace('.', '').isalnum() and not w.lstrip('-').isdigit() and a > 2 and card not in ('CE',)
        if r:       # digits of reals are covered by symbolic numbers
            for x in '+-.eE':
                B.assume(c != ord(x))
            B.assume(lor(c < 48, c > 57))
            for x in 'iInNxXpP':
                B.assume(c != ord(x))
        elif name:
            c = [0x20, 0x22, 0x23, 0x2f, 0x41, 0x61, 0x7a, 0x7f][B.fork(B.int('which', 0, 7))]
        survive(B, t[:i] + [line[:k] + B.ch(c) + line[k + 1:]] + t[i + 1:])
    return h


def long(which, i):
    """A word of line i grown to a great length."""
    t = text(which)
    ws = words(t[i])

    def h(B):
        k = B.fork(B.int('word', 0, len(ws) - 1))
        n = [30, 31, 32, 33, 64, 255, 1000, 1023, 1024, 1025, 1100, 2100][B.fork(B.int('length', 0, 11))]
        w = ws[k]
        if ws[0] == 'NT' and k:     # an endless run
            return B.check('left out', True)
        x = w[0] + ('0' * n if w.lstrip('-')[:1].isdigit() else 'x' * n) + (w[1:] if len(w) > 1 else '')
        survive(B, t[:i] + [' '.join(ws[:k] + [x] + ws[k + 1:])] + t[i + 1:])
    return h


def number(which, i, k):
    """Word k of line i is any number."""
    t = text(which)
    ws = words(t[i])

    def h(B):
        w = ws[k]
        card = ws[0]
        if not card[0].isalpha() or card == 'PW' and k >= 9 and len(w) < 6:     # geometry enters nonlinearly
            v = (-1e3, -0.02, -0.01, 0.0, 0.005, 0.01, 0.02, 0.03, 45.0, 90.0, 180.0, 359.0, 360.0, 400.0)[B.fork(B.int('which', 0, 13))]
            survive(B, t[:i] + [' '.join(ws[:k] + [repr(v)] + ws[k + 1:])] + t[i + 1:])
            return
        if isreal(w):
            v = B.real('r', -1e3, 1e3)
        else:
            hi = {'DM': 4, 'PML': 4, 'NT': 3, 'OF': 5}.get('PML' if 'PML' in ws else card, (1 << 31) - 1)
            v = B.int('i', -(1 << 31), hi)
            if hi < 9 and v > 0:
                v = B.fork(v)
        survive(B, t[:i] + [' '.join(ws[:k] + [B.tok(v)] + ws[k + 1:])] + t[i + 1:])
    return h


def box(which, i, a):
    """Both limits of a structure along one axis are any integers."""
    t = text(which)
    ws = words(t[i])

    def h(B):
        lo = B.int('lo', -(1 << 31), (1 << 31) - 1)
        hi = B.int('hi', -(1 << 31), (1 << 31) - 1)
        survive(B, t[:i] + [' '.join(ws[:1 + 2 * a] + [B.tok(lo), B.tok(hi)] + ws[3 + 2 * a:])] + t[i + 1:])
    return h


def options(which, args):
    def h(B):
        rc = survive(B, text(which), args)
        B.check('accepted', rc == 0)
    return h


QUICK = ('CE', 'DM 3', 'BT ZHI', 'BT sheet', 'BR', 'MT glass', 'MB 0 1 0 1 0 1 g', 'TB 2 2', 'TW', 'WF w GAUSS', 'EX', 'OP 1 1 1', 'OP 0 3', 'PW 0 2 1', 'NT', 'OT', 'OF', 'MS',
         'XL', '0.03', 'VM', 'GE', 'EN', 'GS', 'FF')


def version(k):
    def h(B):
        v = ['1', '0', '0']
        v[k] = B.tok(B.int('i', -(1 << 31), (1 << 31) - 1))
        survive(B, ['VM ' + '.'.join(v)] + text('GEO')[1:])
    return h


def drop(which):
    """A card missing or given twice."""
    t = text(which)

    def h(B):
        i = B.fork(B.int('line', 0, len(t) - 1))
        survive(B, t[:i] + t[i + 1:] if B.fork(B.int('twice', 0, 1)) == 0 else t[:i + 1] + t[i:])
    return h


def shorten(which):
    """A card with its last words missing."""
    t = text(which)

    def h(B):
        i = B.fork(B.int('line', 0, len(t) - 1))
        ws = words(t[i])
        k = B.fork(B.int('words', 0, 20))
        if k < len(ws):
            survive(B, t[:i] + [' '.join(ws[:k])] + t[i + 1:])
    return h


def cases(tier):
    deep = tier != 'quick'
    out = []
    for w in ('GEO', 'LIN'):
        for p in range(4):
            out.append(Case('cut %s %d' % (w, p), cut(w, p, 4), max_paths=100000))
        for i, l in enumerate(text(w)):
            if deep or l.startswith(QUICK):
                out.append(Case('character in "%s"' % l, strange(w, i), max_paths=100000))
            if len(words(l)) > 0:
                out.append(Case('long word in "%s"' % l, long(w, i), max_paths=100000))
            for k, x in enumerate(words(l)):
                if isreal(x) or x.lstrip('-').isdigit():
                    out.append(Case('number %d of "%s"' % (k, l), number(w, i, k), max_paths=100000))
            if l[:2] in ('MB', 'TB', 'TW', 'EX', 'PW', 'OP'):
                for a in range(3):
                    out.append(Case('limits along %s of "%s"' % ('xyz'[a], l), box(w, i, a), max_paths=100000))
        for args in ((), ('-v',), ('-g',), ('-p',), ('-m',), ('-v', '-g', '-p')):
            out.append(Case('options %s of %s' % (' '.join(args), w), options(w, args)))
        out.append(Case('cards of ' + w, drop(w), max_paths=1000))
        out.append(Case('words of ' + w, shorten(w), max_paths=1000))
    for k in range(3):
        out.append(Case('version %d' % k, version(k)))
    for n, w in (('wave.dat', 'LIN'), ('sibc.dat', 'LIN'), ('debye.dat', 'GEO')):
        out.append(Case('cut ' + n, cutfile(n, w), max_paths=1000))
    return out
