"""Further properties: plots, plain fitters, bandpass objects, whole analyses,
documented defaults."""
import os

import numpy as np

from .plan import SFORMS
from .props import PROPS, QUICK, Replay, T, ask, groups, histories, plans, sample, varied_kc
from .universe import f32, f32m, f32s


# ---------------------------------------------------------------------------
def c26(e):
    rows = e.select('plots', 150, None)

    def build(p, rows):
        r = p.r
        for i, c in enumerate(rows):
            nt = {'one': 1, 'many': 4}[c['n']]
            n = int(r.choice([5, 12, 40]))
            if c['kind'] == 'template':
                p.tmpl('a', nt=nt, n=n, itp=(None, True, False)[i % 3], scale=10.**r.uniform(-12., 2.))
            else:
                p.ops.append(p.u.sed('a', nt=nt, n=n, flat=nt == 1 and i % 2 == 0, itp=(None, False)[i % 2],
                                     d=('f4', 'f8')[i % 2], scale=10.**r.uniform(-12., 2.)))
            op = p.ops[-1]
            flat = not isinstance(op['f'][0], list)
            f = np.atleast_2d(np.array(op['f']))
            keep = np.arange(n // 2 - 1, n // 2 + 2)       # some samples stay positive
            if c['data'] != 'positive':
                x = r.rand(*f.shape) < 0.4
                x[:, keep] = False
                f = np.where(x, 0. if c['data'] == 'zeros' else np.where(r.rand(*f.shape) < 0.5, -f, 0.), f)
            op['f'] = f32s(f[0]) if flat else f32m(f)
            z = 0.
            if c['z']:
                z = f32(r.uniform(0.1, 3.))
                p.add('SetZ', s='a', z=dict(a=z, d=str(r.choice(SFORMS))))
            kw = {}
            ix = list(range(nt))
            if c['indx'] == 'scalar':
                ix = [int(r.randint(nt))]
                kw['indx'] = dict(a=ix[0], d='i8')
            elif c['indx'] == 'array':
                ix = [int(x) for x in r.permutation(nt)[:1 + int(r.randint(nt))]]
                kw['indx'] = dict(a=ix, d=str(r.choice(['i8', 'list', 'tuple'])))
            elif c['indx'] == 'repeat':
                ix = [int(x) for x in r.randint(0, nt, 3)]
                kw['indx'] = dict(a=ix, d='i8')
            if c['lim'] != 'none':
                w = np.array(op['w']) * (1. + z)
                a = {'wide': w[0] * 0.5, 'part': 0.5 * (w[keep[0]] + w[keep[0] - 1]), 'left': w[0] * 0.7}[c['lim']]
                b = {'wide': w[-1] * 2., 'part': 0.5 * (w[keep[-1]] + w[keep[-1] + 1]),
                     'left': 0.5 * (w[keep[1]] + w[keep[2]])}[c['lim']]
                kw['wavelim'] = dict(a=[float(a), float(b)], d=str(r.choice(['list', 'tuple', 'f8', 'f8'])))
            p.add('Plot', s='a', **kw)
            if i % 4 == 0:
                p.add('CheckSed', s='a')
                p.add('Plot', s='a')
    e.run_plans(plans(e, 'plot', rows, build, T(e, 3, 6)))
    return ('spectra (one, several; positive, with zeros, with negative samples; at rest or redshifted) x indices (all, '
            'scalar, array, repeated) x wavelength limits (Cases!Plots; pairwise sample in quick)')


# ---------------------------------------------------------------------------
def c27(e):
    if e.tier == QUICK:
        e.model_check('MCSession', 'MCFitter', timeout=600, workers='4')
    else:
        e.model_check('MCSession', 'MCFitterDeep', timeout=3000, workers='8')
        e.model_check('MCSession', 'MCFitterLong', timeout=3000, workers='8')
    acts = ['NewFit', 'SetA', 'WriteFile', 'Load', 'Query']
    hs = e.histories('seds', acts, T(e, 5, 6), names=['n1'], seds=['s1'], kcs=['k1'], cfgs='CfgOne', contents=('B3',))
    hs = [h for h in hs if sum(a['a'] == 'SetA' for a in h) > 0 and h[0]['a'] != 'WriteFile']
    hs = sample(e, hs, T(e, 50, 800))
    hs += e.histories('seds', acts + ['SetZ', 'ProjectSed', 'NewKc', 'RemoveFile', 'Restart', 'NewSed'], 12, num=T(e, 24, 300),
                      cfgs='CfgSmall', contents=('B3', 'bad'))

    def extra(R, a):
        if a['a'] == 'NewFit' and R.r.rand() < 0.3:      # too early
            ask(R.p, a['k'], str(R.r.choice(['fit', 'recon'])), qid='')
        if a['a'] == 'SetA':
            ask(R.p, a['k'], 'fit')
            ask(R.p, a['k'], 'recon')
            R.p.add('CheckSed', s='s1')
        for k in R.plain:
            if R.r.rand() < 0.4:
                R.p.add('CheckFit', k=k)
    todo = histories(e, 'h', hs, 'seds', (None, False, True), T(e, 4, 12), extra=extra)

    def drawn(p, rows):
        r = p.r
        for i in rows:
            nb, nt = int(r.choice([1, 2, 4])), int(r.choice([1, 2, 5]))
            p.tmpl('t%d' % i, nt=nt, n=int(r.choice([8, 20])), itp=(None, True, False)[i % 3])
            s = 't%d' % i
            b = p.bands(nb, prefix='g%d-' % i)
            if i % 4 == 1:
                b = b + [b[0]]
            zlo = float(r.choice([0., 0.25, -0.125]))
            zhi = zlo + float(r.choice([0.5, 1.]))
            k = 'k%d' % i
            if i % 3 == 2:
                p.add('SetZ', s=s, z=dict(a=0.5, d='py'))
            p.add('NewFitter', k=k, s=s, resp=b, zlo=zlo, zhi=zhi, nz=int(r.choice([2, 3, 6])), ab=(None, True, False)[i % 3])
            p.add('CheckSed', s=s)
            p.kcs[k] = dict(nb=len(b), no=len(b), nt=nt, zlo=zlo, zhi=zhi, s=s)
            o = p.objects(k, 3, data='mixed')
            p.query(k, 'fit', o, qid='')
            p.query(k, 'recon', o, scalar=True)
            p.add('SetA', k=k)
            p.add('CheckSed', s=s)
            for q in ('fit', 'recon'):
                for sc in (True, False):
                    p.query(k, q, o, scalar=sc, qid='%s%d' % (q, sc) if q == 'fit' else '', opt=dict(band_shift=0.0625) if q == 'recon' and sc else {})
            o2 = p.objects(k, 3)
            o2['z'][1] = f32(zhi + 0.5)
            p.query(k, 'fit', o2, opt=dict(mc=2))
            o2['z'][2] = f32(zlo - 0.0625)
            p.query(k, 'recon', o2)
            # another matrix from another curve
            w, v = p.u.band(5200., n=8, width=0.3)
            p.add('WriteDat', p=b[0], w=w, v=v)
            p.add('SetA', k=k)                # not reloaded: nothing new
            p.query(k, 'fit', o, scalar=True, qid='')
            p.add('Load', n=b[0], reload=True)
            p.add('CheckFit', k=k)
            p.query(k, 'fit', o, scalar=True, qid='')
            p.add('SetZ', s=s, z=dict(a=1.25, d='py'))
            p.add('SetA', k=k)
            p.query(k, 'fit', o, qid='')
            p.query(k, 'recon', o, qid='')
            p.add('CheckSed', s=s)
        # nothing given: the range and grid documented
        p.tmpl('d', nt=1, n=8, itp=False)
        p.add('NewFitter', k='d', s='d', resp=p.bands(1, prefix='d'))
        p.kcs['d'] = dict(nb=1, no=1, nt=1, zlo=0., zhi=1., s='d')
        if p.i == 0:
            p.add('SetA', k='d')
            p.query('d', 'fit', p.objects('d', 3))
    todo += plans(e, 'drawn', list(range(T(e, 18, 150))), drawn, T(e, 3, 8))
    e.run_plans(todo)
    return ('histories of making plain fitters, computing and recomputing their matrices, changed and reloaded responses, '
            'redshifted templates and fits (exhaustive to that length, sampled in quick; random longer ones); drawn '
            'configurations; default range and grid')


# ---------------------------------------------------------------------------
def c28(e):
    e.model_check('MCSession', 'MCResponse' if e.tier == QUICK else 'MCResponseDeep', timeout=3000,
                  workers='4' if e.tier == QUICK else '8')
    acts = ['NewRsp', 'RspDat', 'SaveRsp', 'RspFits']
    hs = e.histories('seds', acts, 3, names=['n1'], seds=['s1'], contents=('B3',))
    hs = [h for h in hs if h[-1]['a'] != 'NewRsp']
    hs = sample(e, hs, T(e, 70, 1500))
    hs += e.histories('seds', acts + ['ProjectRsp', 'WriteFile', 'RemoveFile', 'Load', 'SetZ', 'SaveSed', 'Restart'], 11,
                      num=T(e, 24, 400), names=['n1', 'n2'], contents=('B3', 'bad'))

    def extra(R, a):
        for x in ('r1', 'r2'):
            if x in R.rsps and R.r.rand() < 0.4:
                R.p.add('CheckRsp', r=x)
        if R.r.rand() < 0.1:
            R.p.add('CheckReg', n=list(R.n.values()))
    todo = histories(e, 'h', hs, 'seds', (None, True), T(e, 5, 12), extra=extra)

    def drawn(p, rows):
        r = p.r
        for i in rows:
            p.ops.append(p.u.sed('s', nt=1 + i % 3, n=30))
            n = int(r.choice([4, 7, 25, 120]))
            at = float(r.choice([2500., 5500., 12000.]))
            w, v = p.u.band(at, n=n, width=float(r.uniform(0.1, 0.4)), shape=('hump', 'box', 'double')[i % 3])
            w, v = [float(x) for x in w], [x * float(r.choice([1., 1024., 2.**-8])) for x in v]
            o = [int(x) for x in (np.arange(len(w)), np.arange(len(w))[::-1], r.permutation(len(w)))[i % 3]]
            d = ('f4', 'f8', 'be4', 'f4s')[i % 4]
            w, v = [w[x] for x in o], [v[x] for x in o]
            if d != 'f8':
                w, v = f32s(w), f32s(v)
            p.add('NewRsp', r='a', w=dict(a=w, d=d), v=dict(a=v, d=d))
            p.add('ProjectRsp', s='s', r='a')
            f = p.path('r%d.fits' % i)
            ext = (None, 'X', 'BAND')[i % 3]
            p.add('SaveRsp', r='a', p=f, ext=ext)
            p.add('CheckRsp', r='a')
            p.add('RspFits', r='b', p=f, ext=ext if i % 2 else None)
            p.add('ProjectRsp', s='s', r='b')
            p.add('SaveRsp', r='b', p=f, ext=ext, clobber=False)      # refused
            p.add('SaveRsp', r='b', p=p.path('q%d.fits' % i), clobber=False)
            p.add('RspFits', r='a', p=p.path('q%d.fits' % i), into=True)
            p.add('ProjectRsp', s='s', r='a')
            # overwritten by another curve, the first object keeps its own
            b = p.bands(1, prefix='d%d-' % i)[0]
            p.add('RspDat', r='c', n=b)
            p.add('SaveRsp', r='c', p=f, clobber=(None, True)[i % 2])
            p.add('CheckRsp', r='b')
            p.add('RspFits', r='e', p=f)
            p.add('ProjectRsp', s='s', r='e')
            p.add('RspDat', r='b', n=b, into=True)
            p.add('ProjectRsp', s='s', r='b')
            p.add('RspDat', r='e', n=p.path('nosuch'), into=True)
            p.add('CheckRsp', r='e')
            p.add('RspFits', r='e', p=p.path('nosuch.fits'), into=True)
            p.add('CheckRsp', r='e')
            p.add('RspFits', r='g', p=f, ext='NOTTHERE')
            p.add('Load', n=b)                # the registry has its own
            ww, vv = p.u.band(6000., n=8)
            p.add('WriteDat', p=b, w=ww, v=vv)
            p.add('Load', n=b, reload=True)
            p.add('CheckRsp', r='c')
            p.add('CheckRsp', r='b')
            p.add('ProjectRsp', s='s', r='c')
            p.add('Project', via='sed', s='s', n=b)
    todo += plans(e, 'drawn', list(range(T(e, 15, 150))), drawn, T(e, 3, 8))
    e.run_plans(todo)
    return ('all histories of three calls (and random long ones) of making bandpass objects from arrays, .dat and FITS '
            'files, into new and existing objects, and of (un)clobbering writes; drawn curves through all of them')


# ---------------------------------------------------------------------------
def c29(e):
    def chain(p, k, r, i, packaged=False):
        """photometry made from coefficients, and back"""
        c = p.kcs[k]
        n = (0, 1, 3)[i % 3]
        sc = n == 0
        o = p.objects(k, max(n, 1))
        o['z'] = f32s(r.uniform(0.05, 0.4 if packaged else 0.7, max(n, 1)))
        recon, fit, am = p.new(), p.new(), p.new()
        p.query(k, 'recon', o, scalar=sc, id=recon)
        m = dict(of=recon)
        # weights: of the order of the maggies themselves
        big = 1e-9 if not packaged else 1.
        sn = r.uniform(10., 40., np.shape(o['m']))
        iv = dict(a=(f32s if sc else f32m)((sn / (big * 1.))[0] ** 2 if sc else (sn / big)**2), d='f4')
        A = dict(maggies=m, ivar=iv)
        p.query(k, 'fit', o, scalar=sc, id=fit, a=A, drop=('maggies', 'ivar'))
        back = p.new()
        p.query(k, 'recon', o, scalar=sc, id=back, a=dict(coeffs=dict(of=fit)), drop=('coeffs',))
        p.add('Same', what='the fit of what a spectrum shows reproduces it', x=dict(of=back), y=dict(of=recon), rtol=3e-3, atol=0.)
        # absolute magnitudes of modelled photometry are the model's
        p.query(k, 'absmag', o, scalar=sc, id=am, a=dict(A, coeffs=dict(of=fit)), drop=('maggies', 'ivar', 'coeffs'),
                opt=dict(reconstruct=True))
        p.add('Same', what='absolute magnitudes of modelled photometry are those of the model', x=dict(of=am, n=0),
              y=dict(of=am, n=1), rtol=0., atol=1e-2)

    def build(p, rows):
        r = p.r
        for i in rows:
            nt, nb = ((1, 3), (2, 4), (3, 5), (2, 2))[i % 4]
            varied_kc(p, 'k', 3 * i, nt=nt, nb=nb, zlo=-0.125, zhi=1., nz=7, cosmo=('flat', None, 'open')[i % 3])
            chain(p, 'k', r, i)
            scale(p, 'k', r, i)

    def scale(p, k, r, i):
        """s times as bright"""
        c = p.kcs[k]
        s = float(2.**int(r.choice([-20, -3, 4, 30])))
        n = (0, 1, 3)[i % 3]
        sc = n == 0
        o = p.objects(k, max(n, 1), data=('normal', 'masked')[i % 2])
        o['z'] = f32s(r.uniform(0.05, 0.7, max(n, 1)))
        t = {x: (f32m(np.array(v) * {'m': s, 'iv': s**-2, 'c': s}[x]) if x in ('m', 'iv', 'c') else list(v)) for x, v in o.items()}
        ids = []
        for x in (o, t):
            f = p.new()
            p.query(k, 'fit', x, scalar=sc, id=f, plain=True)
            cf = dict(coeffs=dict(of=f))
            g = {}
            for q in ('kcor', 'absmag', 'derived'):
                g[q] = p.new()
                p.query(k, q, x, scalar=sc, id=g[q], plain=True, a=cf, drop=('coeffs',), dist=q == 'derived' and i % 2 == 0,
                        opt=dict(reconstruct=True, limit=True) if q == 'absmag' else {})
            ids.append(dict(g, fit=f))
        a, b = ids
        p.add('Same', what='brighter by a factor: coefficients', x=dict(of=b['fit']), y=dict(of=a['fit']), rel='times', by=s,
              rtol=1e-3, atol=1e-4 * s)
        p.add('Same', what='brighter by a factor: K-corrections', x=dict(of=b['kcor']), y=dict(of=a['kcor']), atol=3e-3)
        for j in range(3):
            p.add('Same', what='brighter by a factor: absolute magnitudes', x=dict(of=b['absmag'], n=j),
                  y=dict(of=a['absmag'], n=j), rel='fainter', by=1. / s, atol=3e-3)
    def shifted(p, rows):
        """K-corrections compose; the bands of the survey at z are those of
        the source's frame shifted by z"""
        r = p.r
        for i in rows:
            varied_kc(p, 'k', 3 * i, zlo=-0.125, zhi=1., nz=7)
            n = (0, 1, 3)[i % 3]
            sc = n == 0
            o = p.objects('k', max(n, 1))
            z = f32(r.uniform(0.1, 0.5))
            o['z'] = [z] * max(n, 1)
            a, b = p.new(), p.new()
            p.query('k', 'kcor', o, scalar=sc, id=a)
            p.query('k', 'kcor', o, scalar=sc, id=b, opt=dict(band_shift=z))
            # distance: ten times farther, five magnitudes brighter
            x, y = p.new(), p.new()
            p.query('k', 'absmag', o, scalar=sc, id=x, dist=True, plain=True)
            far = dict(o, dist=f32s(np.array(o['dist']) * 16.))
            p.query('k', 'absmag', far, scalar=sc, id=y, dist=True, plain=True)
            p.add('Same', what='farther by a factor', x=dict(of=x), y=dict(of=y), rel='fainter', by=256., atol=1e-3)
            x, y = p.new(), p.new()
            p.query('k', 'derived', o, scalar=sc, id=x, dist=True, plain=True)
            p.query('k', 'derived', far, scalar=sc, id=y, dist=True, plain=True)

    def real(p, rows):
        names = ['sdss_%s0' % b for b in 'ugriz']
        for n in names:
            p.add('PkgDat', n=n)
        p.add('NewSed', s='d', kind='default')
        p.nt['d'] = 5
        p.kc('k', 'd', names, zlo=0., zhi=0.5, nz=3)
        for i in rows:
            chain(p, 'k', p.r, i, packaged=True)
    todo = plans(e, 'real', list(range(T(e, 6, 60))), real, 1)
    todo += plans(e, 'chain', list(range(T(e, 36, 300))), build, T(e, 4, 8))
    todo += plans(e, 'shifted', list(range(T(e, 12, 100))), shifted, T(e, 1, 4))
    e.run_plans(todo)
    return ('whole analyses: photometry reconstructed from drawn coefficients is fitted, K-corrected and turned into '
            'absolute magnitudes; the same data scaled in brightness and distance')


# ---------------------------------------------------------------------------
def c30(e):
    def base(p, rows):
        p.add('PkgDat', n='sdss_r0')
        p.add('NewSed', s='t', kind='default')
        p.nt['t'] = 5
        one(p, 'base', ['sdss_r0'])

    def one(p, cls, resp):
        r = p.r
        c = 2. / 3999.
        j = int(r.randint(200, 1500))
        z = [f32(c * j), f32(c * (j + 1))]
        p.add('NewDefault', k='k', s='t', cls=cls, resp=resp, z=[f32(0.), f32(2.)])
        p.add('NewSed', s='u', kind='default')
        p.nt['u'] = 5
        nb = {'base': 1, 'sdss': 5, 'gst': 10}[cls]
        p.kc('n', 'u', resp, cls=cls, zlo=z[0], zhi=z[1], nz=2)
        p.kcs['k'] = dict(p.kcs['n'])
        for i in range(3):
            n = (0, 1, 2)[i]
            o = p.objects('n', max(n, 1))
            o['z'] = f32s(np.linspace(z[0], z[1], max(n, 1) + 2)[1:-1])
            for q in ('fit', 'absmag', 'derived'):
                a, b = p.new(), p.new()
                if q == 'absmag':
                    continue
                if q == 'derived':
                    continue
                p.query('n', q, o, scalar=n == 0, id=a, plain=True)
                p.query('k', q, o, scalar=n == 0, id=b, plain=True)
                p.add('Same', what='default object answers as one with the defaults spelt out', x=dict(of=b), y=dict(of=a),
                      rtol=1e-3, atol=1e-4)

    def sdss(p, rows):
        for n in ['sdss_%s0' % b for b in 'ugriz']:
            p.add('PkgDat', n=n)
        p.add('NewSed', s='t', kind='default')
        one(p, 'sdss', None)

    def gst(p, rows):
        for n in ['galex_FUV', 'galex_NUV'] + ['sdss_%s0' % b for b in 'ugriz'] + ['twomass_J', 'twomass_H', 'twomass_Ks']:
            p.add('PkgDat', n=n)
        p.add('NewSed', s='t', kind='default')
        one(p, 'gst', None)
    e.run_plans(plans(e, 'base', [0], base, 1) + plans(e, 'sdss', [0], sdss, 1) + plans(e, 'gst', [0], gst, 1))
    return 'objects of the three classes with everything left out'


PROPS.update({'C26': c26, 'C27': c27, 'C28': c28, 'C29': c29, 'C30': c30})
