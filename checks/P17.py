"""P17: parameters outside the documented range are rejected, those inside are accepted."""
from checks.common import *
from checks.P16 import accept

BOUNDS = ('each card of an otherwise valid mesh with all its numbers symbolic at once (integers of 32 bits, reals of magnitude up to 1e12), every number of fields given, letters in place of numbers; '
          'type names, object names and masks with a symbolic character at every position or cut or extended by one; all pairs of outer face types and all types of inner surface; tables of up to three poles')
OUTSIDE = ('values on which the manual and the message of the program disagree or are silent: CN=1, angles of exactly 360 degrees, MS with two values, PML order, refractive index and stretch, negative resistances, mesh lines that do not increase; '
           'text after the last field of a card; numbers that overflow their type')

DEEP = False
TAGCH = [(48, 57), (65, 90), (95, 95), (97, 122)]
BASE1 = ['VM 1.0.0', 'DM 3 3 3']
WF, EX = 'WF quiet GAUSSIAN_PULSE', 'EX 0 1 0 0 0 0 other EX quiet'


def doc(cards=(), s1=(), s3=None, vm=None, dm=None, nt='NT 1', ms='MS 0.01'):
    return '\n'.join([vm or BASE1[0], dm or BASE1[1]] + list(s1) + ['GS', WF, EX] + list(cards) + ['GE', nt] + ([ms] if ms else []) + list(s3 or ()) + ['EN']) + '\n'


def iff(a, b):
    return lor(land(a, b), land(lnot(a), lnot(b)))


def judge(B, what, text, ok, files=None, init=False):
    for n, t in (files or {}).items():
        B.put_file(n, t)
    B.put_file('m.mesh', text)
    rc = B.main(['-p' if init else '-m', 'm.mesh'])
    B.check('exit status is success or the error status', lor(rc == 0, rc == 6))
    B.check(what + ': accepted when in range', implies(ok, rc == 0))
    B.check(what + ': rejected when out of range', implies(lnot(ok), rc == 6))


def tagchar(B, name):
    v = B.char(name, 48, 122)
    B.assume(lor(*[land(v >= lo, v <= hi) for lo, hi in TAGCH]))
    return v


def hashed(B, name):
    """A character of a name that is looked up by its hash: the solver's values of it are taken one by one."""
    return B.fork(tagchar(B, name) if DEEP else B.char(name, 97, 108))


def ints(B, n, lo=-(1 << 31), hi=(1 << 31) - 1, name='i'):
    return [B.int('%s%d' % (name, k), lo, hi) for k in range(n)]


def reals(B, n, lo=-1e12, hi=1e12, name='r'):
    return [B.real('%s%d' % (name, k), lo, hi) for k in range(n)]


def words(B, v):
    return ' '.join(B.tok(x) for x in v)


# ---- numbers ----------------------------------------------------------------------------------------------------

def dm(B):
    v = ints(B, 3, hi=3)
    judge(B, 'DM', doc(dm='DM ' + words(B, v), cards=[]).replace(EX, 'EX 0 0 0 0 0 0 other EX quiet'), land(*[x >= 1 for x in v]))


def br(B):
    v = ints(B, 6)
    a = B.fork(B.int('face', 0, 5))
    v = [v[k] if k in (a, (a + 1) % 6, (a + 3) % 6) else 0 for k in range(6)]
    judge(B, 'BR', doc(s1=['BR ' + words(B, v)]), land(*[land(x >= -1, x <= 1) for x in v]))


def be(B):
    v = ints(B, 6)
    judge(B, 'BE', doc(s1=['BR 0 0 0 0 0 0', 'BE ' + words(B, v)]), land(*[x >= 0 for x in v]))


def nt(B):
    v = B.int('n', -(1 << 62), 1 << 62, 64)
    judge(B, 'NT', doc(nt='NT ' + B.tok(v)), v >= 0)


def ot(B):
    a, b = B.int('start', -(1 << 62), 1 << 62, 64), B.int('stop', -(1 << 62), 1 << 62, 64)
    judge(B, 'OT', doc(s3=['OT %s %s' % (B.tok(a), B.tok(b))]), land(a >= 0, b >= a))


def of(B):
    f = reals(B, 2)
    n = B.int('n', -(1 << 62), 1 << 62, 64)
    judge(B, 'OF', doc(s3=['OF %s %s' % (words(B, f), B.tok(n))]), land(f[0] >= 0, f[1] >= f[0], n >= 1))


def cn(B):
    c = B.real('c', -1e12, 1e12)
    B.assume(lor(c < 0.9999, c > 1.0001))
    judge(B, 'CN', doc(s3=['CN ' + B.tok(c)]), land(c > 0, c < 1))


def ms(k):
    def h(B):
        v = reals(B, k)
        judge(B, 'MS', doc(ms='MS ' + words(B, v)), land(*[x > 0 for x in v]))
    return h


def simple(k):
    def h(B):
        v = reals(B, k)
        judge(B, 'MT SIMPLE', doc(['MT m SIMPLE ' + words(B, v)]), land(*[x >= y for x, y in zip(v, (1, 0, 1))]))
    return h


def debye(k):
    def h(B):
        v = reals(B, k)
        ok = land(*[x >= y for x, y in zip(v, (1, 0, 1))])
        for p in v[4::2]:
            ok = land(ok, p <= 0)
        if k not in (5, 7, 9):
            ok = False
        judge(B, 'MT DEBYE of %d numbers' % k, doc(['MT m DEBYE ' + words(B, v)]), ok)
    return h


def debyefile(n):
    def h(B):
        v = reals(B, 3)
        q = [reals(B, 4, name='pole%d_' % k) for k in range(n)]
        ok = land(*[x >= y for x, y in zip(v, (1, 0, 1))])
        for x in q:
            ok = land(ok, x[2] <= 0)
        t = '%d %s\n' % (n, words(B, v)) + ''.join(words(B, x) + '\n' for x in q)
        judge(B, 'MT DEBYE from a file', doc(['MT m DEBYE "m.txt"']), ok, {'m.txt': t})
    return h


def debyecount(B):
    n = B.int('n', -(1 << 31), 0)
    judge(B, 'MT DEBYE from a file', doc(['MT m DEBYE "m.txt"']), n >= 0, {'m.txt': B.tok(n) + ' 2 0 1\n'})


def missing(B):
    k = B.fork(B.int('which', 0, 2))
    card = ('MT m DEBYE "none.txt"', 'BT b SIBC "none.txt"', 'WF w EXTERNAL "none.txt"')[k]
    judge(B, 'card naming a missing file', doc([card]), False, init=True)


WFTYPES = ('GAUSSIAN_PULSE', 'NARROW_GAUSSIAN_PULSE', 'DIFF_GAUSSIAN_PULSE', 'RICKER_WAVELET', 'MOD_GAUSSIAN_PULSE', 'COMPACT_PULSE', 'DIFF_COMPACT_PULSE', 'MOD_COMPACT_PULSE', 'RAMPED_SINUSOID')


def wf(B):
    t = WFTYPES[B.fork(B.int('type', 0, len(WFTYPES) - 1))]
    k = B.fork(B.int('count', 1, 4))
    v = reals(B, k)
    ok = v[0] >= 0
    for x in v[2:]:
        ok = land(ok, x > 0)
    judge(B, 'WF', doc(['WF w %s %s' % (t, words(B, v))]), ok)


def wfext(B):
    k = B.fork(B.int('count', 0, 2))
    v = reals(B, k)
    judge(B, 'WF EXTERNAL', doc(['WF w EXTERNAL "w.txt" ' + words(B, v)]), v[0] >= 0 if k else True, {'w.txt': '0 0\n1 1\n'})


def pw(k):
    def h(B):
        v = reals(B, 3)
        for x in v[1:]:
            B.assume(lor(x < 359.99, x > 360.01))
        s = reals(B, k, name='s')
        ok = land(v[0] >= 0, v[0] <= 180, v[1] >= 0, v[1] < 360, v[2] >= 0, v[2] < 360)
        if k:
            ok = land(ok, s[0] >= 0)
        judge(B, 'PW', doc(['PW 0 3 0 3 0 3 p quiet %s %s' % (words(B, v), '111111 ' + words(B, s) if k else '')]), ok)
    return h


def opstep(B):
    v = ints(B, 3)
    judge(B, 'OP steps', doc(['OP 0 3 0 3 0 3 o TDOM_BINARY ' + words(B, v)]), land(*[x >= 0 for x in v]))


def tb(k):
    def h(B):
        o = B.int('orient', -(1 << 31), (1 << 31) - 1)
        a = B.real('angle', -1e12, 1e12)
        ok = lor(o == 1, o == -1)
        if k == 2:
            ok = land(ok, a >= -180, a <= 180)
        judge(B, 'TB', doc(['BT b PEC', 'TB 0 3 0 3 1 1 b ' + words(B, (o, a)[:k])]), ok)
    return h


def source(B):
    """Any size and delay of an excitation is in range."""
    t = ('EX', '=HY', 'JZ', 'JMSXY', 'IX', 'IMZ', 'IDY', 'VRX', 'IGX')[B.fork(B.int('type', 0, 8))]
    v = reals(B, 2)
    res = '50 ' if t in ('VRX', 'IGX') else ''
    judge(B, 'EX size and delay', doc(['EX 1 2 1 1 1 1 s %s quiet %s%s' % (t, res, words(B, v))]), True)


# ---- fields missing or not numbers ------------------------------------------------------------------------------

# card, section, which of its fields are numbers ('n') or words ('w'); all are required
NEED = [('VM', 0, ('1.0.0',), 'n'), ('DM', 1, ('3', '3', '3'), 'nnn'), ('BR', 1, ('0',) * 6, 'n' * 6), ('BE', 2, ('4',) * 6, 'n' * 6), ('MT', 3, ('m', 'SIMPLE'), 'ww'), ('MT', 3, ('m', 'DEBYE', '2', '0', '1', '1', '-1'), 'wwnnnnn'),
        ('BT', 3, ('b', 'PEC'), 'ww'), ('BT', 3, ('b', 'SIBC', '0', '0', '0', '0'), 'wwnnnn'), ('WT', 3, ('w', 'PEC'), 'ww'), ('MB', 3, ('0', '1', '0', '1', '0', '1', 'PEC'), 'nnnnnnw'), ('TB', 3, ('0', '1', '0', '1', '1', '1', 'PEC'), 'nnnnnnw'),
        ('TW', 3, ('0', '1', '1', '1', '1', '1', 'PEC'), 'nnnnnnw'), ('WF', 3, ('w', 'GAUSSIAN_PULSE'), 'ww'), ('WF', 3, ('w', 'EXTERNAL', '"w.txt"'), 'www'), ('EX', 3, ('0', '1', '0', '0', '0', '0', 's', 'EX', 'quiet'), 'nnnnnnwww'),
        ('PW', 3, ('0', '3', '0', '3', '0', '3', 'p', 'quiet', '10', '20', '30'), 'nnnnnnwwnnn'), ('OP', 3, ('1', '1', '1', '1', '1', '1', 'o', 'TDOM_ASCII'), 'nnnnnnww'),
        ('NT', 4, ('1',), 'n'), ('OT', 5, ('0', '1'), 'nn'), ('OF', 5, ('1e8', '2e8', '2'), 'nnn'), ('CN', 5, ('0.5',), 'n'), ('MS', 6, ('0.01',), 'n'), ('XL', 7, ('0', '0.01', '0.02', '0.03'), 'nnnn')]


def with_card(card, where):
    kw = {}
    if where == 7:
        card = card.replace(' ', '\n', 1)
    if where == 0:
        kw['vm'] = card
    elif where == 1:
        kw = dict(s1=[card]) if card[:2] != 'DM' else dict(dm=card)
    elif where == 2:
        kw['s1'] = ['BR 0 0 0 0 0 0', card]
    elif where == 3:
        kw['cards'] = [card]
    elif where == 4:
        kw['nt'] = card
    elif where == 5:
        kw['s3'] = [card]
    elif where == 6:
        kw['ms'] = card
    else:
        kw = dict(ms=None, s3=[card, 'YL', '0 0.01 0.02 0.03', 'ZL', '0 0.01 0.02 0.03'])
    return doc(**kw)


def fields(which, kind):
    def h(B):
        code, where, f, t = NEED[which]
        B.put_file('w.txt', '0 0\n1 1\n')
        if kind == 'missing':
            k = B.fork(B.int('given', 0, len(f)))
            judge(B, 'number of fields', with_card(code + ' ' + ' '.join(f[:k]), where), k == len(f))
        else:
            pos = [i for i, c in enumerate(t) if c == 'n']
            i = pos[B.fork(B.int('field', 0, len(pos) - 1))]
            c = B.char('letter', 65, 122)
            B.assume(lor(c <= 90, c >= 97))
            g = list(f)
            g[i] = B.ch(c)
            judge(B, 'a letter for a number', with_card(code + ' ' + ' '.join(g), where), False)
    return h


def version(B):
    d = [B.char('v%d' % i, 48, 57) for i in range(3)]
    B.put_file('m.mesh', doc(vm='VM ' + '.'.join(B.ch(x) for x in d)))
    B.check('the documented version is accepted', implies(land(d[0] == 49, d[1] == 48, d[2] == 48), B.main(['-m', 'm.mesh']) == 0))


# ---- names and types -------------------------------------------------------------------------------------------

def spelling(words_, make, what, extra=None, init=False):
    """One character of a keyword symbolic; the keyword cut or extended."""
    def h(B):
        w = words_[B.fork(B.int('word', 0, len(words_) - 1))] if len(words_) > 1 else words_[0]
        n = len(w)
        k = B.fork(B.int('position', 0, n + 1))
        c = tagchar(B, 'letter')
        if k < n:       # a character replaced
            bad = [x for x in (extra or words_) if len(x) == n and x[:k] + x[k + 1:] == w[:k] + w[k + 1:]]
            judge(B, what, make(w[:k] + B.ch(c) + w[k + 1:]), lor(*[c == ord(x[k]) for x in bad]), init=init)
        elif k == n:    # one more
            bad = [x for x in (extra or words_) if len(x) == n + 1 and x[:n] == w]
            judge(B, what, make(w + B.ch(c)), lor(*[c == ord(x[n]) for x in bad]) if bad else False, init=init)
        else:           # one less
            judge(B, what, make(w[:-1]), n > 1 and w[:-1] in (extra or words_), init=init) if n > 1 else None
    return h


SRC = [s + x for s in ('', '=') for x in ('EX', 'EY', 'EZ', 'HX', 'HY', 'HZ', 'JX', 'JY', 'JZ', 'JMX', 'JMY', 'JMZ')]


SRC += [s + x for s in ('', '=') for x in ('IX', 'IY', 'IZ', 'IMX', 'IMY', 'IMZ', 'IDX', 'IDY', 'IDZ', 'IMDX', 'IMDY', 'IMDZ', 'VX', 'VY', 'VZ')] + ['VRX', 'VRY', 'VRZ', 'IGX', 'IGY', 'IGZ']
SRC += [s + m + a + b for s in ('', '=') for m in ('JS', 'JMS') for a in 'XYZ' for b in 'XYZ' if a != b]


def names(kind):
    """A reference is accepted exactly when it spells a defined name."""
    make = {'MB': lambda d, r: ['MT %s SIMPLE 2' % d, 'MB 0 1 0 1 0 1 ' + r], 'TB': lambda d, r: ['BT %s PEC' % d, 'TB 0 1 0 1 1 1 ' + r], 'TW': lambda d, r: ['WT %s PEC' % d, 'TW 0 1 1 1 1 1 ' + r],
            'EX': lambda d, r: ['WF %s RICKER_WAVELET' % d, 'EX 0 1 1 1 1 1 s EX ' + r], 'PW': lambda d, r: ['WF %s RICKER_WAVELET' % d, 'PW 0 3 0 3 0 3 s %s 0 0 0' % r],
            'OP': lambda d, r: ['WF %s RICKER_WAVELET' % d, 'OP 1 1 1 1 1 1 s FDOM_ASCII ' + r]}[kind]

    def h(B):
        w = 'gLak_1' if B.fork(B.int('short', 0, 1)) else 'gLak_1_of_a_name_of_31_lettersf'
        k = B.fork(B.int('position', 0 if len(w) < 8 else len(w) - 2, len(w)))
        c = hashed(B, 'c')
        if k == len(w):
            judge(B, 'reference in ' + kind, doc(make(w, w[:-1])), False)
            if len(w) == 31:        # no name has more characters
                return
        judge(B, 'reference in ' + kind, doc(make(w, w[:k] + B.ch(c) + w[k + 1:])), c == ord(w[k]) if k < len(w) else False)
    return h


def duplicates(kind):
    make = {'MT': 'MT %s SIMPLE 2', 'BT': 'BT %s MUR', 'WT': 'WT %s PEC', 'WF': 'WF %s RICKER_WAVELET', 'EX': 'EX 0 1 1 1 1 1 %s EX quiet', 'PW': 'PW 0 3 0 3 0 3 %s quiet 0 0 0', 'OP': 'OP 1 1 1 1 1 1 %s TDOM_ASCII'}[kind]

    def h(B):
        w = 'fag'
        k = B.fork(B.int('position', 0, len(w) - 1))
        c = hashed(B, 'c')
        x = w[:k] + B.ch(c) + w[k + 1:]
        a, b = (w, x) if B.fork(B.int('order', 0, 1)) else (x, w)
        between = B.fork(B.int('between', 0, 2))
        judge(B, 'two ' + kind + ' cards', doc([make % v for v in (a, 'zz1', 'zz2')[:between + 1] + (b,)]), lnot(c == ord(w[k])))
    return h


def firstnames(B):
    """Names of the first card of a kind and of the objects that are always there."""
    card, ok = [('WF quiet RICKER_WAVELET', False), ('EX 0 1 1 1 1 1 other EX quiet', False), ('MT PEC SIMPLE 2', False), ('MT FREE_SPACE SIMPLE 2', False), ('WT PEC PEC', False), ('WT FREE_SPACE FREE_SPACE', False),
                ('WF other RICKER_WAVELET', True), ('EX 0 1 1 1 1 1 quiet EX quiet', True), ('MT quiet SIMPLE 2', True), ('BT other MUR', True), ('OP 1 1 1 1 1 1 other TDOM_ASCII', True), ('PW 0 3 0 3 0 3 other quiet 0 0 0', True)][B.fork(B.int('which', 0, 11))]
    judge(B, 'name already taken' if not ok else 'name of another kind of object', doc([card]), ok)


def longname(kind):
    """Names of 31 characters are told apart by the last; longer ones are no names."""
    make = {'MT': 'MT %s SIMPLE 2', 'BT': 'BT %s MUR', 'WT': 'WT %s PEC', 'WF': 'WF %s RICKER_WAVELET', 'EX': 'EX 0 1 1 1 1 1 %s EX quiet', 'PW': 'PW 0 3 0 3 0 3 %s quiet 0 0 0', 'OP': 'OP 1 1 1 1 1 1 %s TDOM_ASCII'}[kind]

    def h(B):
        n = B.fork(B.int('length', 30, 33))
        a = hashed(B, 'a')
        w = 'abcdefghijklmnopqrstuvwxyz0123456789'[:n - 1]
        judge(B, 'two long ' + kind + ' names', doc([make % (w + x) for x in (B.ch(a), 'e')]), lnot(a == 101) if n <= 31 else False)
    return h


def mask(kind):
    make = {'MB': 'MB 0 1 0 1 0 1 PEC %s', 'PW': 'PW 0 3 0 3 0 3 s quiet 0 0 0 %s'}[kind]

    def h(B):
        n = B.fork(B.int('length', 1, 8))
        k = B.fork(B.int('symbolic', 0, n - 1))
        c = B.char('c', 33, 126)
        B.assume(lnot(lor(c == 35, c == 34)))
        judge(B, 'mask in ' + kind, doc([make % ('10110100'[:k] + B.ch(c) + '01101001'[k + 1:n])]), land(n == 6, lor(c == 48, c == 49)))
    return h


def ends(B):
    """End types of a wire."""
    T = ('THRU', 'END', 'CORNER')
    w = T[B.fork(B.int('word', 0, 2))]
    k = B.fork(B.int('position', 0, len(w) - 1))
    c = tagchar(B, 'letter')
    x = w[:k] + B.ch(c) + w[k + 1:]
    two = B.fork(B.int('second', 0, 1))
    judge(B, 'end type', doc(['TW 0 1 1 1 1 1 PEC ' + ('THRU ' if two else '') + x]), c == ord(w[k]))


# ---- which boundary on which surface ----------------------------------------------------------------------------

BTYPES = ('PEC', 'PMC', 'FREE_SPACE', 'PERIODIC', 'PML', 'MUR', 'SIBC 0.5 0.1 0.1 0.4')


def outer(B):
    axis = B.fork(B.int('axis', 0, 2))
    lo, hi = BTYPES[B.fork(B.int('lo', 0, 6))], BTYPES[B.fork(B.int('hi', 0, 6))]
    good = ('PEC', 'PMC', 'PERIODIC', 'PML', 'MUR')
    ext = ['PEC'] * 6
    ext[2 * axis], ext[2 * axis + 1] = lo, hi
    judge(B, 'types of opposite faces', doc(['BT %s %s' % (f, t) for f, t in zip(FACES, ext)]), lo in good and hi in good and (lo == 'PERIODIC') == (hi == 'PERIODIC'), init=True)


def inner(B):
    t = BTYPES[B.fork(B.int('type', 0, 6))]
    o = B.fork(B.int('axis', 0, 2))
    box = ['0', '3'] * 3
    box[2 * o:2 * o + 2] = ['1', '1']
    judge(B, 'type of an inner surface', doc(['BT %s PEC' % f for f in FACES] + ['BT b ' + t, 'TB %s b' % ' '.join(box)]), t.split()[0] in ('PEC', 'FREE_SPACE', 'SIBC'), init=True)


def layers(B):
    f = B.fork(B.int('face', 0, 5))
    n = B.int('n', -(1 << 31), 2)
    if n >= 0:
        n = B.fork(n)
    judge(B, 'layers of a PML face', doc(['BT %s %s' % (x, 'PML ' + B.tok(n) if k == f else 'PEC') for k, x in enumerate(FACES)]), n >= 1, init=True)


def layersbe(B):
    f = B.fork(B.int('face', 0, 5))
    t = B.fork(B.int('type', -1, 1))
    n = B.fork(B.int('n', 0, 2))
    judge(B, 'layers from BE', doc(s1=['BR ' + ' '.join(str(t) if k == f else '-1' for k in range(6)), 'BE ' + ' '.join(B.tok(n) if k == f else '0' for k in range(6))]), n >= 1 if t == 0 else True, init=True)


def befirst(B):
    n = B.int('n', -3, 9)
    judge(B, 'BE without the faces it is about', doc(s1=['BE %s 4 4 4 4 4' % B.tok(n)]), False)


def sibc(k):
    """Scattering parameters: four or eight of them."""
    def h(B):
        v = reals(B, k, -0.4, 0.4)
        judge(B, 'number of scattering parameters', doc(['BT b SIBC ' + words(B, v)]), k in (4, 8))
    return h


def lumped(B):
    """Sources with a resistance need a single edge."""
    t = ('VRX', 'IGX')[B.fork(B.int('type', 0, 1))]
    v = ints(B, 2, -2, 6)
    w = [B.fork(B.int('w%d' % i, 0, 1)) for i in range(2)]
    if sum(w) == 1:      # an edge along another axis: left open
        B.assume(lnot(v[0] == v[1]))
    judge(B, 'box of ' + t, doc(['EX %s 1 %d 1 %d s %s quiet 50' % (words(B, v), 1 + w[0], 1 + w[1], t)]), land(v[0] >= 0, v[1] <= 3, v[1] == v[0] + 1, sum(w) == 0))


def warmup(B):
    judge(B, 'plain', doc(), True)


def cases(tier):
    global DEEP
    DEEP = tier == "thorough"
    out = []

    def add(name, fn, **kw):
        out.append(Case(name, fn, **dict(dict(validate=1, time=600), **kw)))
    for f in (dm, br, be, nt, ot, of, cn, debyecount, missing, wf, wfext, opstep, source, version, ends, outer, inner, layers, layersbe, befirst, lumped, firstnames):
        add(f.__name__, f)
    for k in (1, 3):
        add('ms %d' % k, ms(k))
        add('simple %d' % k, simple(k))
    add('simple 2', simple(2))
    for k in range(3, 10):
        add('debye %d' % k, debye(k))
    for k in range(0, 4):
        add('debye file %d' % k, debyefile(k))
        if k < 3:
            add('pw %d' % k, pw(k))
    for k in (1, 2):
        add('tb %d' % k, tb(k))
    for k in (1, 2, 3, 4, 5, 6, 7, 8):
        add('sibc %d' % k, sibc(k))
    for i, x in enumerate(NEED):
        add('%s %s missing' % (x[0], ' '.join(x[2])), fields(i, 'missing'))
        if 'n' in x[3] and x[0] not in ('XL', 'VM'):
            add('%s %s letter' % (x[0], ' '.join(x[2])), fields(i, 'letter'))
    for k in ('MB', 'TB', 'TW', 'EX', 'PW', 'OP'):
        add('names ' + k, names(k))
    for k in ('MT', 'BT', 'WT', 'WF', 'EX', 'PW', 'OP'):
        add('duplicates ' + k, duplicates(k))
        add('long names ' + k, longname(k))
    for k in ('MB', 'PW'):
        add('mask ' + k, mask(k))
    add('types MT', spelling(['FREE_SPACE', 'PEC', 'SIMPLE'], lambda w: doc(['MT m ' + w]), 'medium type'))
    add('types BT', spelling(['PEC', 'PMC', 'FREE_SPACE', 'PERIODIC', 'PML', 'MUR'], lambda w: doc(['BT b ' + w]), 'boundary type'))
    add('types WT', spelling(['PEC', 'FREE_SPACE'], lambda w: doc(['WT w ' + w]), 'wire type'))
    for i in range(0, len(WFTYPES), 3):
        add('types WF from %d' % i, spelling(list(WFTYPES[i:i + 3]), lambda w: doc(['WF w ' + w]), 'waveform type', extra=list(WFTYPES)))
    for i in range(0, len(SRC), 8):
        add('types EX from %d' % i, spelling(SRC[i:i + 8], lambda w: doc(['EX 0 1 0 0 0 0 s %s quiet 50' % w]), 'source type', extra=SRC))
    add('types OP', spelling(['TDOM_ASCII', 'FDOM_ASCII', 'TDOM_BINARY'], lambda w: doc(['OP 1 1 1 1 1 1 o ' + w]), 'observer type'))
    return out
