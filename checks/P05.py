"""P05: medium parameters give the documented update coefficients, and never a growing electric field."""
from checks.common import *

BOUNDS = ('relative permittivity and permeability in [1,100], conductivity in [0,1e5] S/m, cell size in [1e-4,1] m and Courant '
          'number in [0.05,0.9] symbolic; every card form (defaults left out, predefined names); a block covering part of a 2x2x2 mesh')
OUTSIDE = 'Debye media (P10); averaged and indexed media build options, which this build does not compile'


def med(form):
    def h(B):
        eps, mu = B.real('eps', 1.0, 100.0), B.real('mu', 1.0, 100.0)
        sg = B.real('sigma', 0.0, 1e5)
        d = B.real('d', 1e-4, 1.0)
        cn = B.real('cn', 0.05, 0.9)
        s1 = []
        md = {'FREE_SPACE': FREE, 'PEC': PECM, 'own free': FREE, 'own pec': PECM, 'no params': simple(), 'eps': simple(eps),
              'eps sigma': simple(eps, sg), 'eps sigma mu': simple(eps, sg, mu), 'two': simple(eps, sg, mu)}[form]
        name = 'stuff'
        n = 1 + ('eps', 'eps sigma', 'eps sigma mu').index(form) if form.startswith('eps') else 0
        if form in ('FREE_SPACE', 'PEC'):
            name = form
        elif form == 'own free':
            s1 = ['MT stuff FREE_SPACE']
        elif form == 'own pec':
            s1 = ['MT stuff PEC']
        elif form == 'two':
            s1 = ['MT other SIMPLE 3.0 0.5 2.0', mt_card(B, 'stuff', md), 'MT third SIMPLE 7.0']
        else:
            s1 = [' '.join(['MT stuff SIMPLE'] + [B.tok(x) for x in md[1:1 + n]])]
        box = [0, 1, 0, 2, 1, 2]

        def body():
            g = Grid(B)
            dt = B.ld(B.g('dt'), 'f32')
            B.near('time step', dt * dt * (3 * C0 * C0), cn * cn * d * d, scale=d * d)
            m = paint(g, [(box, md, '111111')])
            check_media(B, g, m, dt)
            for f in E3:
                for c in g.idx(f):
                    if m[f, c] == md:
                        al = g.get('alphaE' + f[1], *c)
                        B.check('decay %s%s' % (f, c), land(al <= 1.0 + 1e-5, al >= -1.0 - 1e-5))
                        B.check('drive %s%s' % (f, c), g.get('betaE' + f[1], *c) >= 0.0)
                        break
        run_mesh(B, mesh_text(B, (2, 2, 2), ext='PMC', s2=s1 + ['MB %s %s' % (box_str(B, box), name)], nt=1, ms=d, cn=cn), body)
    return h


def cases(tier):
    return [Case('medium ' + f, med(f)) for f in ('FREE_SPACE', 'PEC', 'own free', 'own pec', 'no params', 'eps', 'eps sigma', 'eps sigma mu', 'two')]
