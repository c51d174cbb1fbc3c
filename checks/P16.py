"""P16: the mesh reader enforces card order, required cards and single cards."""
from checks.common import *
from vv.libc import space

BOUNDS = ('documents of up to 18 lines: a line whose two code characters are any ASCII characters (symbolic) put over every line, or inserted at every position with the remainder of each of the '
          '27 cards (first character fixed to that of the card for most of them unless thorough); deletion, repetition, exchange and moving of lines at symbolic positions; truncation after any line; whole runs as well as mesh-only runs')
OUTSIDE = 'documents that need three or more such changes to be told apart; repeated CE cards, which the manual forbids and the reader allows'

# remainder of each card, valid in the base documents
REST = {'VM': ' 1.0.0', 'CE': ' again', 'DM': ' 2 2 2', 'BR': ' -1 -1 -1 -1 -1 -1', 'BE': ' 4 4 4 4 4 4', 'GS': '', 'MT': ' m2 SIMPLE 2.0', 'BT': ' b2 PEC', 'WT': ' w2 PEC',
        'MB': ' 0 1 0 1 0 1 PEC', 'TB': ' 0 1 0 1 1 1 PEC', 'TW': ' 0 1 1 1 1 1 PEC', 'WF': ' wave2 GAUSSIAN_PULSE', 'EX': ' 0 1 0 0 0 0 ex2 EX wave 0.0',
        'PW': ' 0 2 0 2 0 2 pw2 wave 0 0 0', 'OP': ' 1 1 1 1 1 1 op2 TDOM_ASCII', 'FF': ' 0 2 0 2 0 2 ff2 wave 0 0 1 0 0 1', 'GE': '', 'NT': ' 1', 'OT': ' 0 1', 'OF': ' 1e8 2e8 2', 'CN': ' 0.5', 'MS': ' 0.01',
        'XL': '\n0 0.01 0.02', 'YL': '\n0 0.01 0.02', 'ZL': '\n0 0.01 0.02', 'EN': ''}
SECT = [('VM',), ('CE', 'DM', 'BR', 'BE', 'GS'), ('MT', 'BT', 'WT', 'MB', 'TB', 'TW', 'WF', 'EX', 'PW', 'OP', 'FF', 'GE'), ('NT', 'OT', 'OF', 'CN', 'MS', 'XL', 'YL', 'ZL', 'EN')]
REQUIRED = ('VM', 'DM', 'GS', 'GE', 'NT', 'EN')
SINGLE = ('VM', 'DM', 'BR', 'BE', 'GS', 'GE') + SECT[3]
CARDS = list(REST)
SMALL = [('VM', ' 1.0.0'), ('DM', ' 2 2 2'), ('GS', ''), ('WF', ' wave GAUSSIAN_PULSE'), ('EX', ' 0 1 0 0 0 0 ex EX wave 0.0'), ('GE', ''), ('NT', ' 1'), ('MS', ' 0.01'), ('EN', '')]
FULL = [('VM', ' 1.0.0'), ('CE', ' title'), ('DM', ' 2 2 2'), ('BR', ' 0 0 0 0 -1 1'), ('GS', ''), ('MT', ' glass SIMPLE 2.0'), ('WF', ' wave GAUSSIAN_PULSE'), ('EX', ' 0 1 0 0 0 0 ex EX wave 0.0'),
        ('OP', ' 0 0 0 0 0 0 op TDOM_ASCII'), ('GE', ''), ('NT', ' 1'), ('OT', ' 0 1'), ('OF', ' 1e8 2e8 2'), ('CN', ' 0.5'),
        ('XL', '\n0 0.01 0.02'), ('YL', '\n0 0.01 0.02'), ('ZL', '\n0 0.01 0.02'), ('EN', '')]

WAVE = [('VM', ' 1.0.0'), ('BR', ' 0 0 0 0 -1 1'), ('BE', ' 4 4 4 4 4 4'), ('DM', ' 2 2 2'), ('GS', ''), ('WT', ' w2 PEC'), ('TW', ' 0 1 1 1 1 1 PEC'), ('BT', ' b2 PEC'), ('TB', ' 0 1 0 1 1 1 PEC'),
        ('MB', ' 0 1 0 1 0 1 PEC'), ('WF', ' wave GAUSSIAN_PULSE'), ('FF', ' 0 2 0 2 0 2 ff2 wave 0 0 1 0 0 1'), ('PW', ' 0 2 0 2 0 2 pw wave 0 0 0'), ('GE', ''), ('CN', ' 0.5'), ('MS', ' 0.01 0.01 0.02'),
        ('NT', ' 1'), ('EN', '')]


def grammar(doc):
    """Whether a list of (code, remainder) is in the documented order; None where the documents leave it open."""
    codes = [c for c, _ in doc]
    sec = 0
    for n, c in enumerate(codes):
        if sec > 3 or c not in SECT[sec]:
            return False
        if c in SINGLE and c in codes[:n]:
            return False
        if c == 'MS' and any(x in codes[:n] for x in ('XL', 'YL', 'ZL')) or c in ('XL', 'YL', 'ZL') and 'MS' in codes[:n]:
            return False
        if c == SECT[sec][-1]:
            sec += 1
    if sec != 4 or any(c not in codes for c in REQUIRED):
        return False
    if 'EX' not in codes and 'PW' not in codes:
        return False
    if 'MS' not in codes and not all(x in codes for x in ('XL', 'YL', 'ZL')):
        return False
    if 'BE' in codes and ('BR' not in codes or codes.index('BR') > codes.index('BE')):
        return None
    # names are defined before they are used
    for n, (c, r) in enumerate(doc):
        if c in ('EX', 'PW') and not any(x == 'WF' and y.split()[:1] == ['wave'] for x, y in doc[:n]):
            return False
    if codes.count('CE') > 1:
        return None
    return True


def distinct(doc):
    """Repeated object names are another property's matter: rename them."""
    out, seen = [], set()
    for n, (c, r) in enumerate(doc):
        if c in ('MT', 'BT', 'WT', 'WF', 'EX', 'PW', 'OP'):
            w = r.split()
            k = 0 if c in ('MT', 'BT', 'WT', 'WF') else 6
            if (c, w[k]) in seen:
                w[k] = 'r%d' % n
            seen.add((c, w[k]))
            r = ' ' + ' '.join(w)
        out.append((c, r))
    return out


def text(doc):
    return ''.join(c + r + '\n' for c, r in doc)


def accept(B, t, full=False):
    B.put_file('m.mesh', t)
    rc = B.main(['m.mesh'] if full else ['-m', 'm.mesh'])
    B.check('exit status is success or the error status', lor(rc == 0, rc == 6))
    if full:
        B.check('no output from a rejected mesh', lor(rc == 0, not any(B.out_exists(f) for f in ('xlines.dat', 'ylines.dat', 'zlines.dat', 'wf_wave_td.asc', 'eh_op_td.asc', 'eh_op2_td.asc', 'impulse.dat'))))
        B.check('output from an accepted one', lor(rc != 0, B.out_exists('xlines.dat')))
    return rc == 0


def judge(B, what, got, doc):
    ok = grammar(doc)
    if ok is not None:
        B.check('%s %s' % (what, 'accepted' if ok else 'rejected'), got if ok else lnot(got))


def coded(B, what, got, c, blank, without, make, ok):
    """One line had symbolic code characters c; make(X) is the document if they spell X; ok(X) whether its remainder suits X."""
    allowed = []
    B.check(what + ': a blank or comment line changes nothing', implies(blank, got if grammar(without) else lnot(got)) if grammar(without) is not None else True)
    for X in CARDS:
        spelt = land(c[0] == ord(X[0]), c[1] == ord(X[1]))
        g = grammar(make(X))
        if g is not False:
            allowed.append(spelt)
        if g and ok(X):
            B.check('%s: %s here is accepted' % (what, X), implies(spelt, got))
    B.check(what + ': nothing else is accepted', implies(land(got, lnot(blank)), lor(*allowed) if allowed else False))


def insert(base, X, positions, free=True):
    def h(B):
        p = B.fork(B.int('position', 0, len(positions) - 1))
        p = positions[p]
        c = [B.char('first'), B.char('second')]
        if not free:
            B.assume(c[0] == ord(X[0]))
        rest = REST[X]
        doc = base[:p] + [(B.ch(c[0]) + B.ch(c[1]), rest)] + base[p:]
        got = accept(B, text(doc))
        blank = lor(c[0] == 35, land(space(c[0]), lor(c[1] == 35, space(c[1]) if not rest.strip() else False)))
        if '\n' in rest:        # the numbers after a comment are no cards
            blank = False
        coded(B, 'line before card %d' % p, got, c, blank, base, lambda Y: base[:p] + [(Y, rest)] + base[p:], lambda Y: Y == X)
    return h


def replace(base, at):
    def h(B):
        p = at[B.fork(B.int('position', 0, len(at) - 1))]
        c = [B.char('first'), B.char('second')]
        code, rest = base[p]
        doc = base[:p] + [(B.ch(c[0]) + B.ch(c[1]), rest)] + base[p + 1:]
        got = accept(B, text(doc))
        blank = lor(c[0] == 35, land(space(c[0]), lor(c[1] == 35, space(c[1]) if not rest.strip() else False)))
        if '\n' in rest:
            blank = False
        coded(B, 'card %d' % p, got, c, blank, base[:p] + base[p + 1:], lambda Y: base[:p] + [(Y, rest)] + base[p + 1:], lambda Y: Y == code)
    return h


def edit(base, kind, full=False, lo=0, hi=None):
    n = len(base)
    hi = n - 1 if hi is None else hi

    def h(B):
        a = B.fork(B.int('a', lo, hi))
        if kind == 'delete':
            doc = base[:a] + base[a + 1:]
        elif kind == 'truncate':
            doc = base[:a]
        elif kind == 'delete2':
            b = B.int('b', 0, n - 1)
            B.assume(b > a)
            b = B.fork(b)
            doc = [x for m, x in enumerate(base) if m not in (a, b)]
        else:
            b = B.int('b', 0, n)
            if kind == 'swap':
                B.assume(b > a)
                B.assume(b < n)
            b = B.fork(b)
            doc = list(base)
            if kind == 'swap':
                doc[a], doc[b] = doc[b], doc[a]
            elif kind == 'repeat':
                doc.insert(b, base[a])
            else:                               # move
                x = doc.pop(a)
                doc.insert(b, x)
        doc = distinct(doc)
        judge(B, kind, accept(B, text(doc), full), doc)
    return h


def warmup(B):
    judge(B, 'base', accept(B, text(FULL)), FULL)


def cases(tier):
    out = []
    full = tier == 'thorough'
    pos = list(range(len(SMALL) + 1))
    for X in CARDS:
        out.append(Case('any code with the remainder of %s' % X, insert(SMALL, X, pos, full or X in ('CE', 'EN', 'MS', 'EX')), validate=1))
    for q in range(6):
        out.append(Case('any code over lines %d of six' % q, replace(FULL, list(range(q, len(FULL), 6))), validate=1))
    out.append(Case('delete', edit(FULL, 'delete'), validate=2))
    out.append(Case('delete wave', edit(WAVE, 'delete'), validate=2))
    for lo in range(0, len(WAVE) - 1, 6):
        out.append(Case('swap wave from %d' % lo, edit(WAVE, 'swap', lo=lo, hi=min(lo + 5, len(WAVE) - 2)), validate=2))
    out.append(Case('delete small', edit(SMALL, 'delete'), validate=2))
    out.append(Case('truncate', edit(FULL, 'truncate', hi=len(FULL)), validate=2))
    out.append(Case('whole run delete', edit(SMALL, 'delete', True), validate=2))
    out.append(Case('whole run swap', edit(SMALL, 'swap', True, hi=len(SMALL) - 2), validate=2))
    for lo in range(0, len(FULL) - 1, 3):
        out.append(Case('swap from %d' % lo, edit(FULL, 'swap', lo=lo, hi=min(lo + 2, len(FULL) - 2)), validate=2))
    for lo in range(0, len(FULL), 3):
        out.append(Case('repeat from %d' % lo, edit(FULL, 'repeat', lo=lo, hi=lo + 2), validate=2))
        out.append(Case('move from %d' % lo, edit(FULL, 'move', lo=lo, hi=lo + 2), validate=2))
    if full:
        for X in CARDS:
            out.append(Case('any code with the remainder of %s in the long document' % X, insert(FULL, X, list(range(len(FULL) + 1))), validate=1))
        for lo in range(0, len(FULL) - 1, 3):
            out.append(Case('two deletions from %d' % lo, edit(FULL, 'delete2', lo=lo, hi=min(lo + 2, len(FULL) - 2)), validate=2))
            out.append(Case('whole run repeat from %d' % lo, edit(FULL, 'repeat', True, lo=lo, hi=min(lo + 2, len(FULL) - 1)), validate=2))
    return out
