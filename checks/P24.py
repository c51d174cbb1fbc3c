"""P24: the mesh converter describes exactly the physical model."""
from checks.common import *

MAIN = 'gvulture.c'
BOUNDS = ('every bounding box of each kind of object (blocks, inner surfaces, wires, sources of every component, plane waves with every set of active faces, observers with strides 1 to 3) in meshes of up to 3x2x2 cells (thorough: 4x3x2) with symbolic '
          'graded mesh lines; Gnuplot and Gmsh formats, in indices and in metres, with and without outer faces; several objects sharing names, nodes and groups')
OUTSIDE = ('the shape of arrow heads and the place of the arrows of a plane wave; rendering by Gnuplot or Gmsh; Gnuplot outlines of plane waves with inactive faces (manual and program differ); titles that contain quotes; identical positions of nodes, and the digits of "%g"')

DM = (3, 2, 2)      # set by each case
COMPS = ['EX', 'EY', 'EZ', 'HX', 'HY', 'HZ', 'JX', 'JY', 'JZ', 'JMX', 'JMY', 'JMZ', 'IX', 'IY', 'IZ', 'IMX', 'IMY', 'IMZ']
HEAD = ['WF w GAUSSIAN_PULSE', 'MT glass SIMPLE 2.0', 'MT fog SIMPLE 3.0', 'BT wall PEC', 'BT hall PEC', 'WT thin PEC']
OUTER = ['BT_ZLO', 'BT_XLO', 'BT_YLO', 'BT_ZHI', 'BT_XHI', 'BT_YHI']


class Obj:
    def __init__(self, kind, name, box, step=(1, 1, 1), mask='111111', comp='EX'):
        self.kind, self.name, self.box, self.step, self.mask, self.comp = kind, name, list(box), step, mask, comp

    def card(self):
        b = ' '.join(str(x) for x in self.box)
        return {'MB': 'MB %s %s' % (b, self.name), 'TB': 'TB %s %s' % (b, self.name), 'TW': 'TW %s %s' % (b, self.name),
                'EX': 'EX %s %s %s w' % (b, self.name, self.comp), 'PW': 'PW %s %s w 30 40 50 %s' % (b, self.name, self.mask),
                'OP': 'OP %s %s TDOM_BINARY' % (b, self.name) + (' %d %d %d' % self.step if self.step != (1, 1, 1) else ''),
                'FF': 'FF %s %s w' % (b, self.name)}[self.kind]

    def group(self):
        return {'MB': 'MT', 'TB': 'BT', 'TW': 'WT', 'EX': 'EX', 'PW': 'PW', 'OP': 'OP', 'FF': 'OP'}[self.kind] + '_' + self.name


def face(box, f):
    b = list(box)
    b[2 * (f // 2)] = b[2 * (f // 2) + 1] = box[f]
    return b


def size(box):
    return sum(box[2 * d] < box[2 * d + 1] for d in range(3))


def cells(box):
    """Elements of the box's own dimension, each the set of its corners."""
    out = []
    for c in itertools.product(*[range(box[2 * d], max(box[2 * d + 1], box[2 * d] + 1)) for d in range(3)]):
        out.append(frozenset(itertools.product(*[(c[d], c[d] + 1) if box[2 * d] < box[2 * d + 1] else (c[d],) for d in range(3)])))
    return out


def nodes(box, step):
    return [frozenset([c]) for c in itertools.product(*[range(box[2 * d], box[2 * d + 1] + 1, step[d]) for d in range(3)])]


def entities(objs, outer):
    """(group, dimension, elements) of each entity of the Gmsh file."""
    out = []
    if outer:
        for f in range(6):
            out.append(('BT_' + FACES[f], 2, cells(face([0, DM[0], 0, DM[1], 0, DM[2]], f))))
    for o in objs:
        if o.kind == 'FF':
            continue        # the program announces that it ignores them
        if o.kind == 'OP':
            out.append((o.group(), 0, nodes(o.box, o.step)))
        elif o.kind == 'PW':
            out += [(o.group(), 2, cells(face(o.box, f))) for f in range(6) if o.mask[f] == '1']
        else:
            out.append((o.group(), size(o.box), cells(o.box)))
    return out


def section(B, L, name):
    words = [l[0] if len(l) == 1 else None for l in L]
    if '$' + name not in words:
        return None
    a, b = words.index('$' + name), words.index('$End' + name)
    B.check('section %s has the announced length' % name, int(B.num(L[a + 1][0])) == b - a - 2)
    return L[a + 2:b]


def whole(B, t):
    return int(B.num(t))


def adjacent(a, b):
    return sum(x != y for x, y in zip(a, b)) == 1


def check_gmsh(B, objs, outer, lines=None, known=None):
    """known: the mesh nodes of the node numbers, from the file written in indices."""
    L = [l for l in B.lines('mesh.msh') if l]
    B.check('format', L[0][0] == '$MeshFormat' and [B.num(x) for x in L[1]] == [2.2, 0, 8] and L[2][0] == '$EndMeshFormat')
    names, dims = {}, {}
    for l in section(B, L, 'PhysicalNames') or []:
        g = whole(B, l[1])
        B.check('groups have different numbers', g not in names and g > 0)
        names[g], dims[g] = l[2].strip('"'), whole(B, l[0])
    B.check('groups have different names', len(set(names.values())) == len(names))
    at = {}
    listed = section(B, L, 'Nodes')
    els = []
    for l in section(B, L, 'Elements'):
        v = [whole(B, x) for x in l]
        B.check('elements have two tags', v[2] == 2)
        els.append((v[0], v[1], v[3], v[4], v[5:]))
    B.check('elements are numbered once', len(set(e[0] for e in els)) == len(els))
    # the place of each node
    pos = {}
    for l in listed:
        n = whole(B, l[0])
        B.check('nodes are numbered once', n not in pos)
        pos[n] = l[1:]
    want = entities(objs, outer)
    places = sorted(set(c for _, _, cs in want for e in cs for c in e))
    B.check('as many nodes as places', len(places) == len(pos))
    for n, p in pos.items():
        if lines is None:
            c = tuple(B.num(x) for x in p)
            B.check('node %s at a mesh node' % (c,), c in places)
            at[n] = tuple(int(x) for x in c)
        else:
            B.check('same nodes in metres', n in known)
            for d in range(3):
                B.near('coordinate %s of node %s' % ('xyz'[d], known[n]), B.num(p[d]), lines[d][known[n][d]], scale=0.01)
            at[n] = known[n]
    B.check('nodes are at different places', len(set(at.values())) == len(at))
    got = {}
    for _, code, g, ent, ns in els:
        B.check('element of a known group', g in names)
        B.check('element has the dimension of its group', {15: 0, 1: 1, 3: 2, 5: 3}.get(code) == dims[g])
        B.check('element has its nodes', len(ns) == {15: 1, 1: 2, 3: 4, 5: 8}[code] and all(n in at for n in ns))
        p = [at[n] for n in ns]
        if code == 3:
            B.check('corners of a face in order', all(adjacent(p[k], p[(k + 1) % 4]) for k in range(4)))
        if code == 5:
            B.check('corners of a cell in order', all(adjacent(p[k], p[(k + 1) % 4]) and adjacent(p[k + 4], p[(k + 1) % 4 + 4]) and adjacent(p[k], p[k + 4]) for k in range(4)))
        got.setdefault(ent, []).append((names[g], dims[g], frozenset(p)))
    key = lambda es: (es[0][0], sorted(sorted(e[2]) for e in es))
    have = sorted((key(es) for es in got.values()), key=str)
    B.check('one group per entity', all(len(set(e[0] for e in es)) == 1 for es in got.values()))
    should = sorted(((g, sorted(sorted(e) for e in cs)) for g, d, cs in want), key=str)
    B.check('exactly the objects of the mesh', have == should)
    B.check('dimension of every object', all(any(e[0] == g and e[1] == d for es in got.values() for e in es) for g, d, cs in want))
    B.check('no group without elements', set(names.values()) == set(g for g, _, _ in want))
    return at


# ---- Gnuplot ----------------------------------------------------------------------------------------------------

def polylines(B, name):
    out, cur = [], []
    for l in B.lines(name):
        if l:
            cur.append(tuple(B.num(x) for x in l))
        elif cur:
            out.append(cur)
            cur = []
    return out + ([cur] if cur else [])


def box_edges(box):
    out = set()
    for d in range(3):
        if box[2 * d] < box[2 * d + 1]:
            rest = [e for e in range(3) if e != d]
            for v in itertools.product(*[(box[2 * e], box[2 * e + 1]) for e in rest]):
                a, b = [0] * 3, [0] * 3
                a[d], b[d] = box[2 * d], box[2 * d + 1]
                for e, x in zip(rest, v):
                    a[e] = b[e] = x
                out.add(frozenset([tuple(a), tuple(b)]))
    return out


def segments(polys):
    return set(frozenset([a, b]) for p in polys for a, b in zip(p, p[1:]) if a != b)


def points(polys):
    return set(p[0] for p in polys if len(set(p)) == 1)


def check_size(B, P, hi):
    B.check('problem size', len(P) >= 2 and P[0][0] == (0.0,) * 3 and P[1][0] == tuple(float(x) for x in hi))
    for p in P[1]:
        for d in range(3):
            B.near('problem size padding', p[d], float(hi[d]), scale=hi[d], tol=2e-4)
    return P[2:]


def outline(boxes):
    seg, pts = set(), set()
    for b in boxes:
        if size(b):
            seg |= box_edges(b)
        else:
            pts.add((b[0], b[2], b[4]))
    return seg, pts


def check_outline(B, what, P, boxes):
    seg, pts = outline(boxes)
    B.check('outlines of the ' + what, segments(P) == seg)
    B.check('points of the ' + what, points(P) == pts)


FILES = {'external': 'external', 'surface': 'TB', 'block': 'MB', 'wires': 'TW', 'source': 'EX', 'planewave': 'PW', 'observer': 'OP'}


def check_gnuplot(B, objs, outer):
    """Index coordinates."""
    hi = DM
    whole_ = [0, DM[0], 0, DM[1], 0, DM[2]]
    allp, arrows = {}, {}
    for f, kind in FILES.items():
        P = allp[f] = polylines(B, 'gnuplot-%s.dat' % f)
        P = check_size(B, P, hi)
        mine = [o for o in objs if o.kind == kind]
        if f == 'external':
            check_outline(B, 'outer faces', P, [face(whole_, k) for k in range(6)])
        elif f == 'observer':
            want = set(c for o in objs if o.kind == 'OP' for e in nodes(o.box, o.step) for c in e)
            B.check('points of the observers', points(P) == want and not segments(P))
        elif f == 'source':
            k = 0
            for o in mine:
                n = 2 if size(o.box) == 3 else 1
                check_outline(B, 'source', P[k:k + n], [o.box])
                d = 'XYZ'.index(o.comp[-1])
                k += n
                B.check('an arrow for each source', k < len(P))
                a, b = P[k][0], P[k][1]
                mid = [0.5 * (o.box[2 * e] + o.box[2 * e + 1]) for e in range(3)]
                B.check('arrow along the field through the middle of the source', all(a[e] == b[e] == mid[e] for e in range(3) if e != d))
                B.check('arrow points to the high side', a[d] == o.box[2 * d] and b[d] > a[d] and (b[d] == o.box[2 * d + 1] or o.box[2 * d] == o.box[2 * d + 1]))
                B.check('arrow head is at the end', P[k][-1] == b)
                arrows[f, k + 2] = o
                k += 1
            B.check('no other lines of sources', k == len(P))
        elif f == 'planewave':
            if all(o.mask == '111111' for o in mine):
                k = 0
                for o in mine:
                    check_outline(B, 'plane wave', P[k:k + 2], [o.box])
                    corner = set(p[0] for p in P[k + 2:k + 5])
                    B.check('three arrows from one corner', len(P) >= k + 5 and len(corner) == 1)
                    B.check('arrows at a corner of the box', all(x in (o.box[2 * d], o.box[2 * d + 1]) for x, d in zip(list(corner)[0], range(3))))
                    for q in range(3):
                        arrows[f, k + 4 + q] = o
                    k += 5
                B.check('no other lines of plane waves', k == len(P))
        else:
            check_outline(B, f, P, [o.box for o in mine])
    P = allp['lines'] = polylines(B, 'gnuplot-lines.dat')
    seg = segments(check_size(B, P, hi))
    want = set()
    for d, (u, ku) , (v, kv) in ((0, (1, 'all'), (2, 0)), (0, (2, 'all'), (1, 1)), (1, (0, 'all'), (2, 0)), (1, (2, 'all'), (0, 0)), (2, (0, 'all'), (1, 1)), (2, (1, 'all'), (0, 0))):
        for i in range(DM[d] + 1):
            a, b = [0] * 3, [0] * 3
            a[d] = b[d] = i
            a[u], b[u] = 0, DM[u]
            a[v] = b[v] = kv * DM[v]
            want.add(frozenset([tuple(a), tuple(b)]))
    B.check('every mesh line on three faces and no other', seg == want)
    check_script(B, objs, outer)
    return allp, arrows


def check_script(B, objs, outer):
    """Read the script as Gnuplot does: continued lines joined, comments dropped."""
    text, buf = [], ''
    for l in B.lines('mesh.gnp'):
        l = ' '.join(str(x) for x in l)
        if l.endswith('\\'):
            buf += l[:-1]
            continue
        text.append((buf + l))
        buf = ''
    plots = []
    for l in text:
        q, out = False, ''
        for ch in l:
            if ch in '\'"':
                q = not q
            if ch == '#' and not q:
                break
            out += ch
        if out.startswith('splot'):
            plots.append(out[5:])
    B.check('one plot', len(plots) == 1)
    items = [x.split() for x in plots[0].split(',')]
    B.check('plot is well formed', all(x and x[0].startswith("'") for x in items))
    want = {'lines'} | ({'external'} if outer else set()) | {f for f, k in FILES.items() if any(o.kind == k for o in objs)}
    B.check('plot shows every kind of object', set(x[0].strip("'") for x in items if x) == set('gnuplot-%s.dat' % f for f in want))


def check_physical(B, pics, lines):
    """The picture in metres is the picture in indices with every index replaced by its coordinate."""
    idx, arrows = pics
    for f in idx:
        P = polylines(B, 'gnuplot-%s.dat' % f)
        B.check('same picture in metres: ' + f, [len(p) for p in P] == [len(p) for p in idx[f]])
        for k, (p, q) in enumerate(zip(P, idx[f])):
            n = 1 if k < 2 else len(q)
            o = arrows.get((f, k))
            for a, b in list(zip(p, q))[:n if o is None else 2 if f == 'source' else 1]:
                for d in range(3):
                    lo, hi = int(math.floor(b[d])), int(math.ceil(b[d]))
                    if o is not None and f == 'source' and 'XYZ'.index(o.comp[-1]) != d:
                        lo, hi = o.box[2 * d], o.box[2 * d + 1]
                    if hi <= DM[d]:
                        B.near('%s of %s in metres' % ('xyz'[d], f), a[d], 0.5 * (lines[d][lo] + lines[d][hi]), scale=0.01)


# ---- cases ------------------------------------------------------------------------------------------------------

def document(B, objs, lines):
    cards = [o.card() for o in objs]
    if not any(o.kind in ('EX', 'PW') for o in objs):
        objs.append(Obj('EX', 'other', [0, 1, 1, 1, 1, 1]))
        cards.append(objs[-1].card())
    t = ['VM 1.0.0', 'CE a model', 'DM %d %d %d' % DM, 'GS'] + HEAD + cards + ['GE', 'NT 1']
    for n, l in zip(('XL', 'YL', 'ZL'), lines):
        t += [n] + [B.tok(x) for x in l]
    B.put_file('m.mesh', '\n'.join(t + ['EN']) + '\n')
    rank = ['TB', 'MB', 'TW', 'EX', 'PW', 'OP', 'FF']
    objs.sort(key=lambda o: rank.index(o.kind))


def render(B, objs, outer=True, gmsh=True, gnuplot=True, physical=True):
    lines = [[x + o for x in l] for o, l in zip((0.02, -0.03, 0.001), graded(B, DM, base=0.01))]
    document(B, objs, lines)
    no = [] if outer else ['-e']
    if gnuplot:
        B.check('exit status', B.main(no + ['m.mesh']) == 0)
        idx = check_gnuplot(B, objs, outer)
        if physical:
            B.check('exit status', B.main(no + ['-p', 'm.mesh']) == 0)
            check_physical(B, idx, lines)
    if gmsh:
        B.check('exit status', B.main(no + ['-m', 'm.mesh']) == 0)
        at = check_gmsh(B, objs, outer)
        if physical:
            B.check('exit status', B.main(no + ['-m', '-p', 'm.mesh']) == 0)
            check_gmsh(B, objs, outer, lines, at)


def any_box(B, tag='b', flat=True):
    b = []
    for d in range(3):
        lo, hi = B.int('%s_lo%d' % (tag, d), 0, DM[d]), B.int('%s_hi%d' % (tag, d), 0, DM[d])
        B.assume(hi >= lo if flat else hi > lo)
        b += [lo, hi]
    return [B.fork(x) for x in b]


def kind_box(B, kind):
    """Every box an object of this kind may have."""
    b = []
    flat = {'MB': 0, 'PW': 0, 'FF': 0, 'TB': 1, 'TW': 2}.get(kind)
    for d in range(3):
        lo, hi = B.int('lo%d' % d, 0, DM[d]), B.int('hi%d' % d, 0, DM[d])
        B.assume(hi >= lo)
        b += [lo, hi]
    if flat is not None:
        f = [b[2 * d] == b[2 * d + 1] for d in range(3)]
        for d in range(3):
            u, v = f[(d + 1) % 3], f[(d + 2) % 3]
            if flat == 0:
                B.assume(b[2 * d] < b[2 * d + 1])
            elif flat == 1:
                B.assume(lnot(land(u, v)))
            else:
                B.assume(lor(u, v))
        if flat:
            B.assume(lor(*f) if flat == 1 else lnot(land(*f)))
    return [B.fork(x) for x in b]


def at_size(dm, f):
    def h(B):
        global DM
        DM = dm
        f(B)
    return h


def one(kind, fmt, comp='EX', outer=True):
    def h(B):
        o = Obj(kind, {'MB': 'glass', 'TB': 'wall', 'TW': 'thin'}.get(kind, 'x'), kind_box(B, kind), comp=comp)
        render(B, [o], outer=outer, gmsh=fmt == 'gmsh', gnuplot=fmt == 'gnuplot')
    return h


def strides(fmt):
    def h(B):
        st = tuple(B.fork(B.int('step%d' % d, 1, 3)) for d in range(3))
        hi = [B.fork(B.int('end', 0, DM[0] - 1)), DM[1] - 1, DM[2] - 1]
        render(B, [Obj('OP', 'x', [1, 1 + hi[0], 0, hi[1], 1, 1 + hi[2]], step=st)], gmsh=fmt == 'gmsh', gnuplot=fmt == 'gnuplot')
    return h


def masks(B):
    m = ''.join(str(B.fork(B.int('m%d' % k, 0, 1))) for k in range(6))
    B.assume(m != '000000')
    render(B, [Obj('PW', 'x', [0, 2, 1, 2, 1, 3], mask=m), Obj('PW', 'y', [1, 3, 0, 2, 0, 2])], outer=False, gnuplot=False, physical=False)


CROWD = [lambda: [Obj('MB', 'glass', [0, 2, 0, 1, 0, 2]), Obj('MB', 'fog', [1, 3, 0, 2, 1, 2]), Obj('MB', 'glass', [2, 3, 1, 2, 0, 1]), Obj('MB', 'glass', [0, 2, 0, 1, 0, 2])],
         lambda: [Obj('TB', 'wall', [1, 1, 0, 2, 0, 2]), Obj('TB', 'hall', [0, 3, 1, 1, 0, 1]), Obj('TB', 'wall', [0, 2, 0, 2, 2, 2])],
         lambda: [Obj('TW', 'thin', [0, 3, 1, 1, 1, 1]), Obj('TW', 'thin', [1, 1, 0, 2, 2, 2])],
         lambda: [Obj('EX', 's', [1, 2, 0, 0, 1, 1], comp='EX'), Obj('EX', 't', [1, 1, 0, 1, 0, 2], comp='IY'), Obj('EX', 'u', [3, 3, 2, 2, 2, 2], comp='HZ'), Obj('EX', 'v', [1, 3, 0, 1, 0, 2], comp='JZ')],
         lambda: [Obj('PW', 'p', [0, 2, 0, 2, 0, 1]), Obj('PW', 'q', [1, 3, 1, 2, 0, 2])],
         lambda: [Obj('OP', 'o', [0, 3, 0, 1, 1, 2], step=(2, 1, 1)), Obj('OP', 'n', [3, 3, 2, 2, 2, 2]), Obj('FF', 'f', [0, 2, 0, 2, 0, 2])]]


def crowd(fmt, outer):
    def h(B):
        pick = [B.fork(B.int('with%d' % k, 0, 1)) for k in range(len(CROWD))]
        objs = [o for k, p in enumerate(pick) if p for o in CROWD[k]()]
        render(B, objs, outer=outer, gmsh=fmt == 'gmsh', gnuplot=fmt == 'gnuplot')
    return h


def cases(tier):
    deep = tier != 'quick'
    out = []
    for k in ('MB', 'TB', 'TW', 'OP', 'PW'):
        for fmt in ('gmsh', 'gnuplot'):
            dm = (4, 3, 2) if deep or k == 'PW' else (3, 2, 1) if k == 'OP' else (3, 2, 2)
            out.append(Case('%s %s' % (k, fmt), at_size(dm, one(k, fmt)), max_paths=5000, validate=1))
    out.append(Case('EX gmsh', at_size((3, 2, 2) if deep else (3, 2, 1), one('EX', 'gmsh')), max_paths=5000, validate=1))
    for n, c in enumerate(COMPS):
        dm = [1, 1, 1]
        dm[n % 3] = 3 if deep else 2
        out.append(Case('%s gnuplot' % c, at_size(tuple(dm), one('EX', 'gnuplot', comp=c)), max_paths=5000, validate=1))
    for fmt in ('gmsh', 'gnuplot'):
        out.append(Case('strides ' + fmt, at_size((4, 3, 2), strides(fmt)), max_paths=5000, validate=1))
        for outer in (True, False):
            out.append(Case('crowd %s%s' % (fmt, '' if outer else ' without outer faces'), at_size((3, 2, 2), crowd(fmt, outer)), max_paths=5000, validate=1))
    out.append(Case('faces of plane waves', at_size((4, 2, 3), masks), max_paths=5000, validate=1))
    return out
