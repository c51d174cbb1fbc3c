"""P34: Gauss's laws on the grid: no step makes magnetic charge, nor electric charge other than the currents carry."""
from checks.common import *
from checks.P02 import impose

BOUNDS = ('one and two steps from an arbitrary field state (symbolic samples on the whole padded grid) of graded meshes of 3 cells per axis: every mesh cell (magnetic) and every interior node (electric); '
          'walls of every type; masked dielectric, magnetic and conducting blocks with concrete and symbolic parameters, PEC surfaces, wires; electric sources of every kind with symbolic size')
OUTSIDE = 'cells and nodes inside absorbing layers; nodes on outer faces; nodes beside PEC, Debye media and impedance sheets; cells beside impedance sheets; cells and nodes touched by magnetic sources or plane wave faces'
DM = (3, 3, 3)


def run(ext='PEC', objs=(), cards=(), src=None, nt=1, sym=False, electric=True, dm=DM):
    """objs: (box, medium, mask) as painted by the cards."""
    def h(B):
        ob, cs = list(objs), list(cards)
        if sym:
            a = simple(B.real('e', 1.0, 10.0) if 'e' in sym else 3.0, B.real('s', 0.0, 2.0) if 's' in sym else 0.2, B.real('m', 1.0, 5.0) if 'm' in sym else 2.0)
            ob = [([0, 2, 0, 2, 1, 3], a, '101110')]
            cs = [mt_card(B, 'ma', a), 'MB 0 2 0 2 1 3 ma 101110']
        lines = mlines(dm)
        kind = src[1].lstrip('=').rstrip('XYZ') if src else None
        top_ = {'I': 1e-4, 'ID': 1e-6, 'J': 1e-1, 'V': 1e-2, 'IG': 1e-4, 'VR': 1e-2}.get(kind, 1.0)
        wf = ['WF w GAUSSIAN_PULSE 1.0 1e-11 2e-11']
        sc = []
        if src:
            sc = wf + ['EX %s src %s w %s' % (' '.join(map(str, src[0])), src[1], ' '.join([str(x) for x in src[2:]] + [B.tok(B.real('size', -top_, top_))]))]

        def body():
            g = Grid(B)
            types = [x.split()[0] for x in faces_of(ext)]
            S = {f: {c: 0.0 for c in g.cells()} for f in E3 + H3}
            for f in E3 + H3:
                k = 1.0 if f[0] == 'E' else 1.0 / ETA0
                for c in g.idx(f):
                    S[f][c] = B.real('%s_%d_%d_%d' % ((f,) + c), -k, k)
            impose(S, g.go, types)
            ghost_h(S, g.go, types)
            # no tangential electric field in perfect conductors
            m = paint(g, ob, [t if t == 'PEC' else 'PMC' for t in types])
            for f in E3:
                for c in g.idx(f):
                    if m[f, c] == PECM:
                        S[f][c] = 0.0
            for f in E3 + H3:
                for c in g.cells():
                    g.set(f, *c, S[f][c])
            dt = B.ld(B.g('dt'), 'f32')
            B.real_propagate()
            A = {f: {c: g.get(f, *c) for c in g.idx(f)} for f in E3 + H3}
            off = (g.gi[0], g.gi[2], g.gi[4])
            de = [[lines[d][i + 1] - lines[d][i] for i in range(dm[d])] for d in range(3)]
            seen = 0
            for c in itertools.product(*[range(dm[d]) for d in range(3)]):
                tot, top = 0.0, 0.0
                for d in range(3):
                    u, v = (d + 1) % 3, (d + 2) % 3
                    f = H3[d]
                    for s in (0, 1):
                        p = tuple(c[x] + off[x] + (s if x == d else 0) for x in range(3))
                        md = m[f, p]
                        mu = md[3] if md[0] == 'SIMPLE' else 1.0
                        w = mu * (de[u][c[u]] * de[v][c[v]] * 1e4)
                        tot = tot + (w if s else -w) * (A[f][p] - S[f][p])
                        top = max(top, de[u][c[u]] * de[v][c[v]] * 1e4)
                seen += 1
                B.near('magnetic flux out of cell %s' % (c,), tot, 0.0, scale=top / ETA0)
            if not electric:
                return
            for n in itertools.product(*[range(1, dm[d]) for d in range(3)]):
                tot, ok, top = 0.0, True, 0.0
                for d in range(3):
                    u, v = (d + 1) % 3, (d + 2) % 3
                    f = E3[d]
                    for s in (0, 1):
                        p = tuple(n[x] + off[x] - (1 - s if x == d else 0) for x in range(3))
                        md = m[f, p]
                        if md == PECM:
                            ok = False
                            break
                        e, sg = (md[1], md[2]) if md[0] == 'SIMPLE' else (1.0, 0.0)
                        ar = (de[u][n[u] - 1] + de[u][n[u]]) * (de[v][n[v] - 1] + de[v][n[v]]) / 4
                        if src and f[1].upper() == src[1][-1] and in_box(f, p, src[0], off=off):
                            if kind == 'I':
                                k, lo, hi = 'XYZ'.index(src[1][-1]), src[0][::2], src[0][1::2]
                                cur = B.real('size', -top_, top_) * math.exp(-0.5 * ((0.0 - 1e-11) / 2e-11) ** 2)
                                tot = tot + (cur if s else -cur) * (1.0 * dt * (1e4 / EPS0))
                            else:
                                ok = False
                                break
                        tot = tot + (1.0 if s else -1.0) * (ar * 1e4) * (e * (A[f][p] - S[f][p]) + sg * (dt * (0.5 / EPS0)) * (A[f][p] + S[f][p]))
                        top = max(top, ar * 1e4)
                if ok:
                    seen += 1
                    B.near('charge at node %s' % (n,), tot, 0.0, scale=top)
            B.check('nodes and cells judged', seen > dm[0] * dm[1] * dm[2])
            B.saved = seen
        run_mesh(B, mesh_text(B, dm, ext=ext, s2=cs + sc, nt=nt, lines=lines), body)
    return h


GLASS, MUD, IRON = simple(3.0, 0.02, 1.5), simple(6.0, 0.5, 1.0), simple(1.0, 0.0, 4.0)
BLOCKS = ([([0, 2, 0, 1, 1, 3], GLASS, '110110'), ([1, 3, 1, 3, 0, 2], MUD, '011011'), ([2, 3, 0, 2, 0, 2], IRON, '111111')],
          ['MT glass SIMPLE 3.0 0.02 1.5', 'MT mud SIMPLE 6.0 0.5 1.0', 'MT iron SIMPLE 1.0 0.0 4.0', 'MB 0 2 0 1 1 3 glass 110110', 'MB 1 3 1 3 0 2 mud 011011', 'MB 2 3 0 2 0 2 iron'])
METAL = ([([1, 1, 0, 2, 0, 1], PECM, '111111'), ([0, 2, 2, 2, 2, 2], PECM, '111111')], ['TB 1 1 0 2 0 1 PEC', 'TW 0 2 2 2 2 2 PEC'])
PML = 'PML 2 2 1.0 1e-3 2.0'
WALLS = {'PEC': 'PEC', 'PMC': 'PMC', 'PERIODIC': 'PERIODIC', 'MUR': 'MUR', 'PML': PML, 'mixed': ('PERIODIC', 'PERIODIC', 'MUR', 'PMC', 'PEC', PML), 'one layer': ('PML 1 3 1.0 1e-2 1.0', 'PEC', 'PMC', 'PML 1 2 1.0 1e-1 1.0', 'PML 3 2 1.0 1e-3 1.0', 'PMC')}


def cases(tier):
    out = []
    for n, w in WALLS.items():
        for nt in (1, 2):
            out.append(Case('empty, walls %s, %d steps' % (n, nt), run(w, nt=nt, electric=nt == 1), validate=1))
            out.append(Case('blocks, walls %s, %d steps' % (n, nt), run(w, *BLOCKS, nt=nt, electric=nt == 1), validate=1))
            out.append(Case('metal, walls %s, %d steps' % (n, nt), run(w, *METAL, nt=nt, electric=nt == 1), validate=1))
    for n, v in (('PEC', 'e'), ('mixed', 's'), ('PERIODIC', 'm'), ('MUR', 'e'), ('PMC', 'm')):
        out.append(Case('any %s, walls %s' % ({'e': 'permittivity', 's': 'conductivity', 'm': 'permeability'}[v], n), run(WALLS[n], sym=v), validate=1))
    for t in TAGS:
        k = t.lstrip('=').rstrip('XYZ')
        if 'M' in k or k == 'H' or k in ('JS', 'JMS') or t[0] == '=':
            continue
        a = 'XYZ'.index(t[-1])
        box = [v for d in range(3) for v in ((1, 2) if d == a else (1, 1))]
        par = (75.0,) if k in ('VR', 'IG') else ()
        out.append(Case('source %s' % t, run('PMC', *BLOCKS, src=(box, t) + par), validate=1))
    return out
