"""P26: multi-dimensional arrays give every index its own storage."""
from checks.common import *

BOUNDS = ('1 to 5 dimensions, extents 1 to 4 (5 to 9 along one dimension) as symbolic integers split by the solver, element sizes 1, 4, 8 and 16 bytes; every index of each shape written and read back with symbolic contents, '
          'two symbolic distinct indices per shape up to 3 dimensions; the grid arrays of a running simulation of symbolic mesh dimensions')
OUTSIDE = 'larger extents (the address arithmetic is uniform in them); sizes beyond the address space'


def log_on(B):
    B.call('startMessaging', B.cstr('vulture.log'), 0, B.cstr('vulture'), 0, 0, 1)


TY = {1: 'i8', 4: 'f32', 8: 'f64'}


def walk(B, p, ext, idx, size):
    for e, i in zip(ext[:-1], idx[:-1]):
        p = B.ld(p + 8 * i, 'ptr')
    return p + size * idx[-1]


def shape(ndim, top, size, axis=None):
    def h(B):
        log_on(B)
        ext = []
        for d in range(ndim):
            n = B.fork(B.int('n%d' % d, 1, top if axis is None or axis == d else 2))
            ext.append(n)
        cnt = 1
        for n in ext:
            cnt *= n
        pb = B.alloc(8)
        a = B.call('allocArray', pb, size, ndim, *ext)
        nb = B.ld(pb, 'i64')
        pb2 = B.alloc(8)
        b = B.call('allocArray', pb2, size, ndim, *ext)
        B.check('same size for the same shape', B.ld(pb2, 'i64') == nb)
        ptrs, k = 0, 1
        for n in ext[:-1]:
            k *= n
            ptrs += k
        B.check('bytes reported are those of the elements and the rows', nb == 8 * ptrs + cnt * size)
        ty = TY.get(size, 'f64')
        addr = {}
        val = {}
        for n, q in enumerate(itertools.product(*[range(e) for e in ext])):
            x = walk(B, a, ext, q, size)
            addr[q] = x
            B.check('inside the block', land(x >= a, x + size <= a + nb))
            B.check('contiguous', x == addr[(0,) * ndim] + n * size)
            if ty == 'i8':
                val[q] = (n * 7 + 1) % 100
            else:
                val[q] = B.real('v_' + '_'.join(map(str, q)), -1.0, 1.0)
            B.st(x, ty, val[q])
            if size == 16:
                B.st(x + 8, ty, 5.0)
            B.st(walk(B, b, ext, q, size), ty, 3 if ty == 'i8' else 3.0)
        B.check('every index its own element', len(set(addr.values())) == cnt)
        for q, x in addr.items():
            y = walk(B, a, ext, q, size)
            B.check('row pointers intact', y == x)
            if ty == 'i8':
                B.check('element intact %s' % (q,), B.ld(y, ty) == val[q])
            else:
                B.near('element intact %s' % (q,), B.ld(y, ty), val[q], scale=1.0)
        B.call('deallocArray', a, ndim, *ext)
        B.call('allocArrayReport')
        B.call('stopMessaging')
        tot = [l for l in B.lines('vulture.log') if l[:3] == ['Total', 'array', 'allocation']]
        B.check('one total', len(tot) == 1)
        unit = {'bytes': 1.0, 'kiB': 1024.0, 'MiB': 1048576.0}[tot[0][4]]
        B.near('total reported', B.num(tot[0][3]) * unit, float(2 * nb), scale=2e3 * unit if unit > 1 else 1.0)
        for q in addr:
            B.check('other array intact', B.ld(walk(B, b, ext, q, size), ty) == (3 if ty == 'i8' else 3.0))
        B.call('deallocArray', b, ndim, *ext)
    return h


def two(ext):
    """Two distinct symbolic indices: writing one leaves the other."""
    def h(B):
        log_on(B)
        pb = B.alloc(8)
        a = B.call('allocArray', pb, 4, len(ext), *ext)
        p = [B.int('p%d' % d, 0, e - 1) for d, e in enumerate(ext)]
        q = [B.int('q%d' % d, 0, e - 1) for d, e in enumerate(ext)]
        same = True
        for x, y in zip(p, q):
            same = land(same, x == y)
        B.assume(lnot(same))
        p, q = [B.fork(x) for x in p], [B.fork(x) for x in q]
        u, v, w = [B.real(n, -1.0, 1.0) for n in 'uvw']
        B.st(walk(B, a, ext, p, 4), 'f32', u)
        B.st(walk(B, a, ext, q, 4), 'f32', v)
        B.near('first element', B.ld(walk(B, a, ext, p, 4), 'f32'), u, scale=1.0)
        B.st(walk(B, a, ext, p, 4), 'f32', w)
        B.near('second element', B.ld(walk(B, a, ext, q, 4), 'f32'), v, scale=1.0)
        B.near('first element again', B.ld(walk(B, a, ext, p, 4), 'f32'), w, scale=1.0)
    return h


def grid(axis):
    """All components of all grid arrays of a running program are distinct storage."""
    def h(B):
        dm = [1, 1, 1]
        dm[axis] = B.fork(B.int('n', 1, 4))

        def body():
            g = Grid(B)
            seen = {}
            names = [f for f in E3 + H3] + ['alphaE' + a for a in 'xyz'] + ['betaE' + a for a in 'xyz'] + ['gammaH' + a for a in 'xyz']
            B.check('room for the grid', land(*[g.n[d] >= dm[d] + 2 for d in range(3)]))
            st = {}
            for f in names:
                for c in g.cells():
                    a = g.addr(f, *c)
                    B.check('%s%s is own storage' % (f, c), a not in seen)
                    seen[a] = (f, c)
                    st[f, c] = B.real('%s_%d_%d_%d' % ((f,) + c), -1.0, 1.0)
                    g.set(f, *c, st[f, c])
            for (f, c), v in st.items():
                B.near('%s%s intact' % (f, c), g.get(f, *c), v, scale=1.0)
        run_mesh(B, mesh_text(B, dm, ext='PEC', nt=1, ms=0.01), body)
    return h


def cases(tier):
    cs = []
    for size in (1, 4, 8, 16):
        for nd, top in ((1, 9), (2, 4), (3, 4 if size == 4 or tier == 'thorough' else 3), (4, 2), (5, 2)):
            cs.append(Case('%dD elements of %d' % (nd, size), shape(nd, top, size), time=400))
        for ax in range(3):
            cs.append(Case('long axis %d elements of %d' % (ax, size), shape(3, 9, size, ax), time=400))
    for e in ((5,), (3, 4), (2, 3, 2), (3, 1, 4)):
        cs.append(Case('two indices %s' % (e,), two(e), time=400))
    for a in range(3):
        cs.append(Case('grid arrays %s' % 'xyz'[a], grid(a)))
    return cs
