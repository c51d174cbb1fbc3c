"""P25: bounding boxes are classified, placed, split into faces and compared correctly for all corner values."""
from checks.common import *

BOUNDS = ('all corner values in (-2^30, 2^30) (symbolic 32-bit integers), all faces, components, axes and masks; the public functions of bounding_box.c and setFieldLimits of grid.c called directly; '
          'the classification as the mesh reader applies it to surface, wire, block, source and observer cards on a 3x3x3 mesh with symbolic corners')
OUTSIDE = 'corner values whose differences overflow 32 bits'
POINT, LINE, SURFACE, VOLUME = 1, 2, 3, 4
M = (1 << 30) - 1


def iff(a, b):
    return lor(land(a, b), land(lnot(a), lnot(b)))


def box(B, tag, normal=True):
    v = [B.int('%s%d' % (tag, i), -M, M) for i in range(6)]
    if normal:
        for d in range(3):
            B.assume(v[2 * d] <= v[2 * d + 1])
    return v


def put(B, v):
    p = B.new('i32', len(v))
    for i, x in enumerate(v):
        B.st(p + 4 * i, 'i32', x)
    return p


def out(B, p, n=6):
    return [B.ld(p + 4 * i, 'i32') for i in range(n)]


def classify(B):
    v = box(B, 'b')
    p = put(B, v)
    t, d, e = B.call('bboxType', p), B.call('bboxDirection', p), B.call('bboxIsElemental', p)
    flat = [v[2 * i] == v[2 * i + 1] for i in range(3)]
    for k, name in ((0, VOLUME), (1, SURFACE), (2, LINE), (3, POINT)):
        pats = [q for q in itertools.product((0, 1), repeat=3) if sum(q) == k]
        c = False
        for q in pats:
            x = True
            for i in range(3):
                x = land(x, flat[i] if q[i] else lnot(flat[i]))
            c = lor(c, x)
            if k in (1, 2):
                axis = q.index(1) if k == 1 else q.index(0)
                B.check('direction %s' % (q,), implies(x, d == axis))
            else:
                B.check('no direction %s' % (q,), implies(x, d == 3))
        B.check('type %d' % k, iff(t == name, c))
    el = True
    for i in range(3):
        el = land(el, v[2 * i + 1] - v[2 * i] <= 1)
    B.check('elemental', iff(e, el))
    for i, x in enumerate(out(B, p)):
        B.check('box unchanged', x == v[i])


def order(B):
    v = box(B, 'b', False)
    r = B.call('bboxIsNormal', put(B, v))
    B.check('normal', iff(r, land(land(v[0] <= v[1], v[2] <= v[3]), v[4] <= v[5])))


def within(B):
    a, b = box(B, 'a'), box(B, 'b')
    r = B.call('bboxIsWithin', put(B, a), put(B, b))
    # every point of a is a point of b
    p = [B.int('p%d' % d, -M, M) for d in range(3)]
    ina = inb = True
    for d in range(3):
        ina = land(ina, land(p[d] >= a[2 * d], p[d] <= a[2 * d + 1]))
        inb = land(inb, land(p[d] >= b[2 * d], p[d] <= b[2 * d + 1]))
    B.check('within implies every point', implies(land(r, ina), inb))
    corners = True
    for d in range(3):
        corners = land(corners, land(land(a[2 * d] >= b[2 * d], a[2 * d] <= b[2 * d + 1]), land(a[2 * d + 1] >= b[2 * d], a[2 * d + 1] <= b[2 * d + 1])))
    B.check('corners inside imply within', implies(corners, r))


def offset(B):
    a, o = box(B, 'a', False), box(B, 'o', False)
    p = B.new('i32', 6)
    B.call('offsetBoundingBox', p, put(B, a), put(B, o))
    for i, x in enumerate(out(B, p)):
        B.check('offset %d' % i, x == a[i] + o[i - i % 2])


def face(B):
    a = box(B, 'a')
    for f in range(6):
        p = B.new('i32', 6)
        B.call('getFaceOfBoundingBox', p, put(B, a), f)
        for i, x in enumerate(out(B, p)):
            B.check('face %d corner %d' % (f, i), x == (a[f] if i // 2 == f // 2 else a[i]))


def nodes(B):
    a = box(B, 'a', False)
    p = B.new('i32', 6)
    B.call('setBoundingBoxFromNodes', p, *a)
    for i, x in enumerate(out(B, p)):
        B.check('corner %d' % i, x == a[i])


def components(B):
    for f in range(6):
        for b in range(6):
            par = f % 3 != b // 2
            B.check('parallel %d %d' % (f, b), iff(B.call('fieldIsParallelToBoundary', f, b), par))
            B.check('in face %d %d' % (f, b), iff(B.call('fieldIsInBoundary', f, b), par if f < 3 else not par))
        for a in range(3):
            B.check('axis %d %d' % (f, a), iff(B.call('fieldIsParallelToAxis', f, a), f % 3 == a))


def masks(B):
    m = B.fork(B.int('mask', 0, 63))
    p = B.alloc(8)
    B.call('faceMask2boolArray', p, m)
    for f in range(6):
        on = bool(m & (32 >> f))
        B.check('mask bit', iff(B.ld(p + f, 'i8') == 1, on))
        B.check('active', iff(B.call('isFaceActive', m, f), on))
    s = format(m, '06b')
    B.check('mask read', B.call('setFaceMaskFromString', B.cstr(s)) in (m, m - 256))
    for bad in ('2' + s[1:], s[1:], '0' + s, '', '+' + s, '+' + s[1:], s + 'x', '1' + s if s[0] == '0' else s + '0', '-' + s.replace('0', '1')):
        B.check('mask %s rejected' % bad, B.call('setFaceMaskFromString', B.cstr(bad)) in (255, -1))


def limits(B):
    """Field index limits of a box: with all faces, the components whose site is in the closed box; a face left out is open."""
    m = B.fork(B.int('mask', 0, 63))
    a = box(B, 'a')
    lim, inc = B.new('i32', 36), B.alloc(8)
    for f in range(6):
        B.st(inc + f, 'i8', 1 if m & (32 >> f) else 0)
    B.call('setFieldLimits', put(B, a), lim, inc)
    p = B.int('p', -M, M)
    for k, name in enumerate(E3 + H3):
        for d in range(3):
            lo, hi = B.ld(lim + 4 * (6 * k + 2 * d), 'i32'), B.ld(lim + 4 * (6 * k + 2 * d + 1), 'i32')
            on = site2(name, (0, 0, 0))[d] == 0
            if on:     # sites at p on the lines
                w = land(p >= a[2 * d] if m & (32 >> (2 * d)) else p > a[2 * d], p <= a[2 * d + 1] if m & (32 >> (2 * d + 1)) else p < a[2 * d + 1])
            else:      # sites at p + 1/2
                w = land(p >= a[2 * d], p < a[2 * d + 1])
            B.check('%s along %s' % (name, 'xyz'[d]), iff(land(p >= lo, p <= hi), w))


CARDS = {'TB': ('TB %s PEC', (SURFACE,)), 'TW': ('TW %s PEC', (LINE,)), 'MB': ('MB %s PEC', (VOLUME,)), 'PW': ('PW %s wave quiet 90 0 0', (VOLUME,)),
         'OP': ('OP %s out TDOM_ASCII', (POINT,)), 'OPB': ('OP %s out TDOM_BINARY', (POINT, LINE, SURFACE, VOLUME)), 'EX': ('EX %s src EX quiet', (POINT, LINE, SURFACE, VOLUME))}


def card(kind):
    def h(B):
        fmt, ok = CARDS[kind]
        v = [B.int('c%d' % i, -2, 5) for i in range(6)]
        n = 3
        for i in (2, 3, 4, 5):       # one axis at a time leaves the box, the others stay inside
            B.assume(land(v[i] >= 0, v[i] <= n))
        ax = B.fork(B.int('axis', 0, 2))
        w = v[-2 * ax:] + v[:-2 * ax] if ax else v
        good = True
        flat = []
        for d in range(3):
            good = land(good, land(land(w[2 * d] >= 0, w[2 * d + 1] <= n), w[2 * d] <= w[2 * d + 1]))
            flat.append(w[2 * d] == w[2 * d + 1])
        ty = False
        for q in itertools.product((0, 1), repeat=3):
            if (VOLUME, SURFACE, LINE, POINT)[sum(q)] in ok:
                x = True
                for i in range(3):
                    x = land(x, flat[i] if q[i] else lnot(flat[i]))
                ty = lor(ty, x)
        cards = ['WF quiet GAUSSIAN_PULSE', fmt % box_str(B, w), 'EX 0 1 0 0 0 0 other EX quiet']
        B.mesh('m.mesh', mesh_text(B, (n, n, n), ext='PMC', s2=cards, nt=0, ms=0.01))
        r = B.main(['-m', 'm.mesh'])
        B.check('accepted exactly when inside and of the right kind', iff(r == 0, land(good, ty)))
        if r != 0:
            B.check('error status', r == 6)
    return h


def cases(tier):
    cs = [Case(f.__name__, f) for f in (classify, order, within, offset, face, nodes, components, masks, limits)]
    cs += [Case('card ' + k, card(k), time=300) for k in CARDS]
    return cs
