"""One function per property: what is explored, as plans for the driver.
Every plan is validated, line by line, against the specification."""
import os

import numpy as np

from .plan import AFORMS, MCFORMS, Plan, SFORMS, ZFORMS, shard
from .universe import f32, f32m, f32s

QUICK = 'quick'


def plans(e, name, rows, build, shards=6):
    """shards of a case list, each built by build(plan, rows)"""
    out = []
    for i, part in enumerate(shard(rows, shards)):
        def mk(d, i=i, part=part):
            p = Plan(e.rng('%s/%d' % (name, i)), d)
            p.i = i
            build(p, part)
            return p.ops
        out.append(('%s-%d' % (name, i), mk))
    return out


def groups(p, rows, size):
    """numbered groups of a shard's rows; the numbers differ between shards"""
    parts = shard(rows, max(2, len(rows) // size))
    return [(p.i * len(parts) + j, x) for j, x in enumerate(parts)]


def T(e, quick, thorough):
    return quick if e.tier == QUICK else thorough


def form_of(p, z):
    return 'scalar' if z == 'scalar' else int(z[1:])


BS = {'0': 0., '+': 0.125, '-': -0.125}


# ---------------------------------------------------------------------------
def c01(e):
    cases = e.select('proj', 150, None)

    def build(p, rows):
        u = p.u
        for i, c in enumerate(rows):
            n = 'b%d' % i
            centre = float(np.round(p.r.uniform(3500., 9000.)))
            if c['band'] == 'open':          # response not zero at its ends
                k = max(c['nb'], 5)
                w = np.round(np.linspace(centre * 0.85, centre * 1.15, k))
                v = np.round(p.r.uniform(0.2, 1., k), 3)
                p.add('WriteDat', p=p.path(n), w=[float(x) for x in w], v=[float(x) for x in v])
            else:
                p.ops.append(u.write(p.d, n, centre, n=c['nb'], width=float(p.r.uniform(0.1, 0.5)), shape=c['band'],
                                     peak=float(10.**p.r.uniform(-3., 1.))))
            wr = p.ops[-1]
            lo, hi = wr['w'][0], wr['w'][-1]
            p.add('Load', n=wr['p'])
            z = 0. if c['via'] != 'sedz' else f32(p.r.uniform(0.05, 2.))
            g = c['grid']
            dw = hi - lo
            if g == 'fine':
                w = np.linspace(lo - 0.5 * dw, hi + 0.5 * dw, 60)
            elif g == 'coarse':
                w = np.linspace(lo - 2.2 * dw, hi + 2.1 * dw, 9)
            elif g == 'straddle':            # no sample inside the band
                w = np.array([lo - 3. * dw, lo - 1.5 * dw, lo - 0.2 * dw, hi + 0.25 * dw, hi + 1.5 * dw, hi + 2. * dw])
            elif g == 'left':                # spectrum starts inside the band
                w = np.linspace(lo + 0.31 * dw, hi + dw, 12)
            elif g == 'right':
                w = np.linspace(max(lo - dw, 200.), hi - 0.37 * dw, 12)
            elif g == 'inside':
                w = np.linspace(lo + 0.22 * dw, hi - 0.27 * dw, 8)
            elif g == 'offleft':
                w = np.linspace(hi + 0.1 * dw, hi + dw, 8)
            elif g == 'offright':
                w = np.linspace(max(lo - dw, 100.), lo - 0.1 * dw, 8)
            else:
                w = np.array(wr['w'])
            w = w[w > 10.]
            if g != 'same':
                w = w * (1. + 0.3 * np.concatenate([[0.], p.r.uniform(-1., 1., len(w) - 2), [0.]]) *
                         np.min(np.diff(w)) / w)
            if g == 'same' and c['band'] == 'open':
                z = 0.
            if z != 0. and g == 'same':
                g = 'samez'
            w = np.array(f32s(w / (1. + z)))
            if g == 'same':
                w = np.array(wr['w'])
            if c['band'] == 'open' and g != 'same':
                # no sample within rounding error of an end of the band
                ww = w * (1. + z)
                w = w[(np.abs(ww - lo) > 1.) & (np.abs(ww - hi) > 1.)]
                if len(w) < 4:
                    continue
            f = u.flux(w, c['k'], scale=10.**p.r.uniform(-17., -3.))
            if i % 7 == 3:                   # the AB source gives 1
                f[0] = f32s(3.631e-2 * 2.99792 / w**2)
            if i % 5 == 4:
                f[0] = [-x for x in f[0]]
            d = 'f8' if g == 'same' else str(p.r.choice(['f4', 'f8']))
            if c['via'] in ('sed', 'sedz'):
                p.add('NewSed', s='s', kind='arrays', w=f32s(w) if d == 'f4' else [float(x) for x in w],
                      f=f[0] if c['k'] == 1 and i % 2 else f, d=d)
                if z != 0.:
                    p.add('SetZ', s='s', z=dict(a=z, d=str(p.r.choice(SFORMS))))
                p.add('Project', via='sed', s='s', n=wr['p'])
            else:
                flat = c['via'] == 'rawflat'
                p.add('Project', via='raw', n=wr['p'], w=dict(a=[float(x) for x in w], d=d),
                      f=dict(a=f[0] if flat else f, d=str(p.r.choice(['f4', 'f8', 'f4ro', 'f4F', 'be4']))))
    e.run_plans(plans(e, 'proj', cases, build))

    def real(p, rows):
        for n in rows:
            p.add('PkgDat', n=n)
            p.add('Load', n=n)
            p.add('NewSed', s='r', kind='lrg1')
            p.add('SetInterp', s='r')
            for z in [0.] + f32s(p.r.uniform(0.05, 1.5, T(e, 1, 4))):
                p.add('SetZ', s='r', z=dict(a=z, d='py'))
                p.add('Project', via='sed', s='r', n=n)
    names = ['sdss_g0', 'galex_NUV', 'twomass_Ks', 'wise_w1', 'bessell_V', 'hsc_z', 'decam_r', 'jwst_f200w']
    names = [n for n in names if os.path.exists('/repo/src/kcorrect/data/responses/%s.dat' % n)]
    e.run_plans(plans(e, 'packaged', names[:T(e, 2, 8)], real, T(e, 2, 6)))
    return ('every combination of bandpass shape and sampling, spectrum grid relative to the band, number of spectra '
            'and calling form (Cases!Proj), with drawn numbers; non-trivial: the recorded value is judged against '
            'Photometry!Project')


# ---------------------------------------------------------------------------
# histories of the session model, replayed
class Replay(object):
    """concrete counterparts of the objects of GenSession"""

    def __init__(self, p, i, start, itp=None, same_rest=False, extra=None, derived=True, ab=None):
        self.p, self.start, self.itp, self.extra, self.derived = p, start, itp, extra, derived
        self.tag = 'h%d-' % i
        self.r = p.r
        self.n = {}
        self.on = {}
        self.files = {}               # fitters saved
        self.plain = set()
        self.rsps = set()
        for j, n in enumerate(('n1', 'n2')):
            p.ops.append(p.u.write(p.d, self.tag + n, (4800., 6300.)[j], n=7 + 2 * j, width=0.3))
            self.n[n] = p.ops[-1]['p']
        self.ab = ab
        if start != 'empty':
            for s in ('s1', 's2'):
                self.sed(s)
        if start == 'kcs':
            n1, n2 = self.n['n1'], self.n['n2']
            self.kc('k1', 's1', [n1, n2], [n2, n2], [n2, n1])
            self.kc('k2', 's1', [n1], [n2], [n1])

    Z = (0., 0.25, 0.75)

    def sed(self, s):
        p = self.p
        if not hasattr(p, 'rest'):
            p.rest = {}
        if s not in p.rest:          # one rest frame per handle
            p.rest[s] = p.u.template(s, p.path(s + '.fits'), nt=2, n=9, lo=1900., hi=11000.)
        t = dict(p.rest[s])
        if self.itp is not None:
            t['itp'] = self.itp
        p.ops.append(t)
        p.nt[s] = 2
        self.on[s] = bool(self.itp)

    def interp(self, s):
        """a set without interpolator gets one before it is needed"""
        if not self.on.get(s):
            self.p.add('SetInterp', s=s)
            self.on[s] = True

    def kc(self, k, s, resp, out=None, map=None):
        kw = {} if self.ab is None else dict(ab=self.ab)
        self.p.kc(k, s, resp, out=out, map=map, zlo=0., zhi=0.75, nz=4, **kw)

    def file(self, f):
        return self.p.path(self.tag + f)

    def run(self, h):
        p, r = self.p, self.r
        pick = lambda *v: v[int(r.randint(len(v)))]
        for a in h:
            k = a['a']
            if k == 'WriteFile':
                if a['c'] == 'bad':
                    p.add('BadDat', p=self.n[a['p']], how=pick('garbage', 'empty', 'columns', 'text', 'header'))
                else:
                    w, v = p.u.band(5600., n=8, width=0.4, shape='double')
                    p.add('WriteDat', p=self.n[a['p']], w=w, v=v)
            elif k == 'RemoveFile':
                p.add('RmFile', p=self.n[a['p']])
            elif k == 'Load':
                p.add('Load', n=self.n[a['n']], reload=True if a['r'] else pick(None, False))
            elif k == 'NewSed':
                self.sed(a['s'])
            elif k == 'SetZ':
                p.add('SetZ', s=a['s'], z=dict(a=self.Z[a['z']], d=pick(*SFORMS)), kw=pick(True, False))
            elif k == 'ProjectSed':
                self.interp(a['s'])
                p.add('Project', via='sed', s=a['s'], n=self.n[a['n']])
            elif k == 'NewKc':
                c = a['c']
                nm = lambda v: [self.n[x] for x in v]
                self.kc(a['k'], a['s'], nm(c['resp']),
                        nm(c['out']) if c['out'] != c['resp'] or r.rand() < 0.5 else None,
                        nm(c['map']) if c['map'] != c['resp'] or r.rand() < 0.5 else None)
            elif k == 'Query':
                q = a['q']['k']
                if a['k'] in self.plain:
                    q = pick('fit', 'recon')
                elif q == 'derived' and not self.derived:
                    q = 'absmag'
                if q == 'kcor':
                    q = pick('kcor', 'recon', 'recon_out', 'fit')
                ask(p, a['k'], q)
            elif k == 'SaveSed':
                p.add('SaveSed', s=a['s'], p=self.file(a['p']), clobber=True if a['b'] else False)
                if a['b'] or a['p'] not in self.files:
                    self.files[a['p']] = None
            elif k == 'LoadSed':
                self.on[a['s']] = bool(self.itp)
                p.add('LoadSed', s=a['s'], p=self.file(a['p']), tmpl=True,
                      itp=self.itp)
                p.nt[a['s']] = 2
            elif k == 'SaveKc':
                p.add('SaveKc', k=a['k'], p=self.file(a['p']))
                self.files[a['p']] = p.kcs.get(a['k'])
            elif k == 'LoadKc':
                p.add('LoadKc', k=a['k'], s=a['s'], p=self.file(a['p']))
                self.on[a['s']] = False
                p.kcs[a['k']] = self.files.get(a['p'])
                p.nt[a['s']] = 2
            elif k == 'NewFit':
                b = [self.n[x] for x in a['c']['resp']]
                p.add('NewFitter', k=a['k'], s=a['s'], resp=b, zlo=0., zhi=0.75, nz=4)
                p.kcs[a['k']] = dict(nb=len(b), no=len(b), nt=2, zlo=0., zhi=0.75, s=a['s'])
                self.plain.add(a['k'])
            elif k == 'SetA':
                p.add('SetA', k=a['k'])
            elif k == 'NewRsp':
                w, v = p.u.band(5300., n=int(pick(6, 9, 14)), width=0.35, shape=pick('hump', 'box', 'double'))
                o = [int(x) for x in (r.permutation(len(w)) if r.rand() < 0.3 else np.arange(len(w)))]
                d = pick('f4', 'f8', 'f4ro')
                p.add('NewRsp', r=a['r'], w=dict(a=[w[x] for x in o], d=d), v=dict(a=[v[x] for x in o], d=d))
                self.rsps.add(a['r'])
            elif k == 'RspDat':
                p.add('RspDat', r=a['r'], n=self.n[a['n']], into=a['r'] in self.rsps and pick(True, False))
                self.rsps.add(a['r'])
            elif k == 'SaveRsp':
                p.add('SaveRsp', r=a['r'], p=self.file(a['p']), ext='X' if a['x'] == 'X' else pick(None, 'FLUX'),
                      clobber=pick(None, True) if a['b'] else False)
            elif k == 'RspFits':
                p.add('RspFits', r=a['r'], p=self.file(a['p']), ext='X' if a['x'] == 'X' else pick(None, 1),
                      into=a['r'] in self.rsps and pick(True, False))
                self.rsps.add(a['r'])
            elif k == 'ProjectRsp':
                self.interp(a['s'])
                p.add('ProjectRsp', s=a['s'], r=a['r'])
            elif k == 'Restart':
                p.add('Restart')
                self.rsps = set()
            if self.extra:
                self.extra(self, a)


def ask(p, k, q, qid=None, opt=None):
    """a question that is the same each time it is asked (its data fit any
    fitter with the number of bands, which the driver checks)"""
    which = None
    if q == 'recon_out':
        q, which = 'recon', 'out'
    if not hasattr(p, 'asked'):
        p.asked = {}
    c = p.kcs.get(k)
    nb = c['nb'] if c else None
    if nb is None:
        nb = 2
    if nb not in p.asked:
        p.kcs['?'] = dict(nb=nb, no=nb, nt=2, zlo=0., zhi=0.75)
        o = p.objects('?', 2)
        o['z'] = f32s([0.1, 0.6])
        p.asked[nb] = o
    dist = q in ('derived', 'absmag')
    kw = {}
    if which:
        kw['which'] = which
        kw['a'] = dict(redshift=dict(a=f32s([0., 0.5]), d='f4'))
    return p.query(k, q, p.asked[nb], plain=True, qid=qid or '%s%s%d' % (q, which or '', nb), dist=dist, opt=opt or {}, **kw)


def histories(e, name, hs, start, itps=(None,), shards=6, **kw):
    """one plan per shard of histories; files and objects are new for each"""
    def build(p, rows):
        for i, h in enumerate(rows):
            Replay(p, i, start, itp=itps[i % len(itps)], **kw).run(h)
    return plans(e, name, hs, build, shards)


def sample(e, hs, k, salt=''):
    if k is None or len(hs) <= k:
        return hs
    idx = e.rng('hist' + salt).permutation(len(hs))[:k]
    return [hs[i] for i in sorted(idx)]


def session_model(e):
    e.model_check('MCSession', 'MCSession' if e.tier == QUICK else 'MCSessionDeep',
                  timeout=600 if e.tier == QUICK else 3000, workers='4' if e.tier == QUICK else '8')


# ---------------------------------------------------------------------------
def c02(e):
    session_model(e)
    hs = e.histories('seds', ['SetZ', 'ProjectSed', 'Load'], T(e, 4, 5), names=['n1'], seds=['s1', 's2'],
                     zs=(0, 1, 2))
    # one spectrum set: all its histories; two: a sample
    def single(h):
        return all(a.get('s', 's1') == 's1' and not a.get('r') for a in h)
    one = [h for h in hs if single(h)]
    hs = sample(e, one, T(e, 160, None), '1') + sample(e, [h for h in hs if not single(h)], T(e, 60, 1500), '2')

    def extra(R, a):
        if a['a'] == 'SetZ' and R.r.rand() < 0.4:
            z = R.Z[a['z']]
            w = np.sort(R.r.uniform(1500. * (1 + z), 12000. * (1 + z), 6))
            R.interp(a['s'])
            R.p.add('Interp', s=a['s'], w=[float(x) for x in w])
        if R.r.rand() < 0.15:
            R.p.add('CheckSed', s='s1')
    e.run_plans(histories(e, 'z', hs, 'seds', (None, False, True), T(e, 6, 16), extra=extra))

    def arrays(p, rows):
        for i in rows:
            p.ops.append(p.u.sed('a', nt=1 + i % 3, n=int(p.r.choice([4, 7, 25])), d=('f4', 'f8')[i % 2],
                                 flat=(i % 3 == 0), itp=(None, True, False)[i % 3], scale=10.**p.r.uniform(-20., 2.)))
            n = p.ops[-1]
            for z in p.r.uniform(-0.5, 6., 3):
                p.add('SetZ', s='a', z=dict(a=f32(z), d=str(p.r.choice(SFORMS))))
                if n.get('itp') is not False:
                    w = np.array(n['w']) * (1. + f32(z))
                    p.add('Interp', s='a', w=[float(x) for x in np.concatenate(
                        [p.r.uniform(w[0] * 1.001, w[-1] * 0.999, 4), [w[0] * 0.9, w[-1] * 1.1]])])
            z = float(p.r.uniform(0., 2.))    # small steps
            for x in p.r.permutation([1e-4, 3e-4, -1e-4, 1e-3, 3e-3])[:3]:
                z = z + float(x)
                p.add('SetZ', s='a', z=dict(a=f32(z), d=str(p.r.choice(SFORMS))))
                if n.get('itp') is not False:
                    w = np.array(n['w']) * (1. + f32(z))
                    p.add('Interp', s='a', w=[float(x) for x in p.r.uniform(w[0] * 1.001, w[-1] * 0.999, 3)])
            p.add('SetZ', s='a', z=dict(a=0., d='py'))
    e.run_plans(plans(e, 'arrays', list(range(T(e, 24, 200))), arrays, T(e, 2, 8)))
    return ('all histories of redshift settings and projections of that length (GenSession) on one and a sample on two '
            'spectrum sets, with and without interpolator; drawn spectra and redshifts')


# ---------------------------------------------------------------------------
def c03(e):
    session_model(e)
    acts = ['SetZ', 'NewKc', 'Load', 'ProjectSed', 'WriteFile']
    hs = e.histories('seds', acts, 3, seds=['s1', 's2'], kcs=['k1', 'k2'], zs=(0, 2), contents=('B3',))
    hs = [h for h in hs if h[-1]['a'] == 'NewKc' or h[-2]['a'] == 'NewKc']
    hs = sample(e, hs, T(e, 60, 1200))
    hs += e.histories('seds', acts + ['Query'], 9, num=T(e, 12, 300), zs=(0, 1, 2), contents=('B3', 'bad'))

    def extra(R, a):
        if a['a'] == 'NewKc' and R.r.rand() < 0.7:
            R.p.add('CheckSed', s=a['s'])
    hplans = histories(e, 'h', hs, 'seds', (None, False, True), T(e, 6, 16), extra=extra)

    def grids(p, rows):
        r = p.r
        for i in rows:
            nt = int(r.choice([1, 2, 4]))
            nb = int(r.choice([1, 2, 3]))
            zlo = float(r.choice([0., 0.25, 0.125, 1.]))
            nz = int(r.choice([2, 3, 5, 9]))
            zhi = zlo + float(r.choice([0.5, 1., 0.25]))
            p.tmpl('t', nt=nt, n=int(r.choice([8, 20])), itp=(True, False, None)[i % 3],
                   lo=float(r.choice([900., 1500., 3900.])))
            b = p.bands(nb, prefix='g%d-' % i)
            if i % 4 == 1:
                b = b + [b[0]]
            kw = {}
            if i % 3 == 1:
                kw = dict(out=p.bands(2, prefix='o%d-' % i), map=[b[0], b[-1]])
            if i % 5 == 2:                    # left at another redshift, and shared
                p.add('SetZ', s='t', z=dict(a=0.5, d='py'))
            p.kc('k', 't', b, zlo=zlo, zhi=zhi, nz=nz, **kw)
            p.add('CheckSed', s='t')
            p.add('CheckKc', k='k')
            g = [zlo + (zhi - zlo) * j / (nz - 1) for j in range(nz)]
            for which in ('in', 'out'):
                z = f32s(r.uniform(zlo, zhi, 3))
                z[0] = g[int(r.randint(nz))]
                p.add('Amat', k='k', which=which, z=dict(a=z, d='f8'))
                p.add('Amat', k='k', which=which, z=dict(a=z[1], d=str(r.choice(SFORMS))))
                p.add('Amat', k='k', which=which, z=dict(a=f32(zhi + 0.0625), d='np4'))
                p.add('Amat', k='k', which=which, z=dict(a=[z[0], f32(zlo - 0.0625)], d='f4'))
            if i % 4 == 3:
                p.add('SetZ', s='t', z=dict(a=1.5, d='py'))
                p.add('CheckKc', k='k')
            # another fitter alike but for one thing that changed
            how = ('file', 'reload', 'grid', 'order')[i % 4]
            z2 = zlo
            if how == 'file':                 # other templates, same file
                p.tmpl('t', nt=nt, n=9, itp=(True, False, None)[i % 3], lo=1500.)
            elif how == 'reload':
                w, v = p.u.band(5200., n=8, width=0.3)
                p.add('WriteDat', p=b[0], w=w, v=v)
                p.add('Load', n=b[0], reload=True)
            elif how == 'grid':
                z2 = zlo + 0.0625
            else:
                b = b[::-1]
                kw = {}
            p.kc('k2', 't', b, zlo=z2, zhi=zhi, nz=nz, **kw)
            p.add('CheckKc', k='k')
            p.add('CheckSed', s='t')

    def many(p, rows):
        for nt in rows:                       # more templates than one chunk
            p.tmpl('t', nt=nt, n=6, itp=False)
            b = p.bands(1)
            p.kc('k', 't', b, zlo=0., zhi=0.5, nz=2)

    def fine(p, rows):
        """a fine redshift grid"""
        for nz in rows:
            p.tmpl('t', nt=1, n=8, itp=None)
            p.kc('k', 't', p.bands(1), zlo=0., zhi=0.125, nz=nz)

    def packaged(p, rows):
        for n in ('sdss_r0', 'galex_NUV')[:T(e, 1, 2)]:
            p.add('PkgDat', n=n)
        p.add('NewSed', s='d', kind='default')
        p.nt['d'] = 5
        p.kc('k', 'd', ['sdss_r0', 'galex_NUV'][:T(e, 1, 2)], zlo=0., zhi=0.5, nz=T(e, 2, 4), tdefault=True)
    todo = plans(e, 'packaged', [0], packaged, 1)
    todo += plans(e, 'many', T(e, [1003, 1000], [999, 1000, 1001, 2000, 2500]), many, T(e, 2, 5))
    todo += plans(e, 'fine', T(e, [1100], [1000, 4000, 2001]), fine, T(e, 1, 3))
    todo += plans(e, 'grid', list(range(T(e, 30, 200))), grids, T(e, 4, 8)) + hplans
    e.run_plans(todo)
    return ('histories of the session model ending in a construction (exhaustive to length 3, sampled in quick; random '
            'long ones); drawn grids, ranges, numbers of templates (also more than one chunk of 1000) and bands')


# ---------------------------------------------------------------------------
def c04(e):
    def build(p, rows):
        r = p.r
        for i in rows:
            nt, nb = int(r.choice([1, 2, 3, 4, 6])), int(r.choice([1, 2, 3, 5, 7]))
            p.tmpl('t', nt=nt, n=12, scale=10.**float(r.choice([-9., -15.])))
            p.kc('k', 't', p.bands(nb, prefix='f%d-' % i), nz=3)
            sc = float(r.choice([1., 1e-9, 1e3])) 
            for how in ('noise', 'exact', 'negative', 'weights', 'pinned', 'sparse', 'big'):
                n = int(r.choice([0, 1, 2, 4]))
                o = p.objects('k', max(n, 1))
                m, iv = np.array(o['m']), np.array(o['iv'])
                if how == 'negative':
                    m[r.rand(*m.shape) < 0.5] *= -1.
                elif how == 'weights':
                    iv = 10.**r.uniform(-6., 8., iv.shape)
                elif how == 'pinned':         # one bright band, others faint
                    m[:, int(r.randint(nb))] *= 1000.
                elif how == 'sparse':
                    iv[r.rand(*iv.shape) < 0.4] = 0.
                elif how == 'big':
                    m *= 1e4
                elif how == 'exact':
                    iv[:] = 1e6
                m, iv = m * sc, iv / sc**2
                o['m'], o['iv'] = f32m(m), f32m(iv)
                if how == 'exact':
                    o['m'] = f32m(m[:1].repeat(len(m), 0))
                p.query('k', 'fit', o, scalar=(n == 0))
    e.model_check('KKT', workers='2')
    e.run_plans(plans(e, 'fit', list(range(T(e, 66, 600))), build, T(e, 6, 16)))

    def realistic(p, rows):
        names = ['sdss_%s0' % b for b in 'ugriz']
        for n in names:
            p.add('PkgDat', n=n)
        for i in rows:
            p.tmpl('t', nt=5, n=60, lo=700., hi=30000., scale=1e-8)
            p.kc('k', 't', None, cls='sdss', zlo=0., zhi=0.5, nz=3, ab=bool(i % 2))
            for j in range(4):
                o = p.objects('k', 5, scale=10.**p.r.uniform(-10., -7.))
                p.query('k', 'fit', o, scalar=(j == 0))
    e.run_plans(plans(e, 'sdss', list(range(T(e, 2, 12))), realistic, T(e, 1, 4)))
    return ('drawn objects of seven kinds (noise, exact, negative, extreme weights, pinned, sparse, large) for 1-6 '
            'templates and 1-7 bands; each fit is judged by the optimality conditions (Answers!Optimal), whose '
            'equivalence to being the minimum is checked by the KKT model')


# ---------------------------------------------------------------------------
def c05(e):
    rows = e.select('masks', 240, None)

    def build(p, rows):
        r = p.r
        for g, part in groups(p, rows, 24):
            zlo, zhi = ((0.25, 0.75), (0., 1.), (0.5, 1.))[g % 3]
            p.tmpl('t', nt=int(r.choice([2, 3, 5])), n=12)
            p.kc('k', 't', p.bands(4, prefix='m%d-' % g), zlo=zlo, zhi=zhi, nz=5)
            for c in part:
                arr = c['pos'][0] == 'a'
                pos = c['pos'][1:]
                n = len(pos)
                o = p.objects('k', n)
                for i, w in enumerate(pos):
                    if w == 'lo':
                        o['z'][i] = f32(zlo - r.choice([0.0625, 0.01, 0.24]))
                    elif w == 'hi':
                        o['z'][i] = f32(zhi + r.choice([0.0625, 0.01, 10.]))
                    elif r.rand() < 0.2:
                        o['z'][i] = float(r.choice([zlo, zhi]))
                alt = {k: [list(x) if isinstance(x, list) else x for x in v] for k, v in o.items()}
                for i in range(n):
                    for b in range(4):
                        if c['mask'][b]:
                            o['iv'][i][b] = alt['iv'][i][b] = 0.
                            alt['m'][i][b] = f32(float(r.choice([0., -5., 1e6, 1e20, -1e-20, -9999.])))
                kw = dict(opt=dict(mc=c['mc'])) if c['mc'] else {}
                a, b = p.new(), p.new()
                sd = int(r.randint(1, 2**31 - 1))
                p.add('Seed', seed=sd)
                p.query('k', 'fit', o, scalar=not arr, id=a, **kw)
                p.add('Seed', seed=sd)
                p.query('k', 'fit', alt, scalar=not arr, id=b, **kw)
                for x in range(2 if c['mc'] else 1):
                    p.add('Same', what='masked values have no influence', x=dict(of=b, n=x), y=dict(of=a, n=x),
                          rtol=1e-6, atol=1e-30)
                if arr and n > 1 and not c['mc']:
                    for i in range(n):        # alone
                        s = p.new()
                        p.query('k', 'fit', o, scalar=True, rows=i, id=s)
                        p.add('Same', what='other objects have no influence', x=dict(of=a, n=0, row=i),
                              y=dict(of=s), rtol=1e-6, atol=1e-30)
    e.run_plans(plans(e, 'masks', rows, build, T(e, 6, 16)))
    return ('masks of four bands x positions of up to three objects in, below and above the redshift range x Monte '
            'Carlo or not (Cases!Masks; pairwise sample in quick); masked bands carry ordinary and extreme values')


# ---------------------------------------------------------------------------
OPTS = [dict(), dict(reconstruct=True), dict(limit=True), dict(kcorrect=True), dict(reconstruct=True, limit=True),
        dict(reconstruct=True, limit=True, kcorrect=True)]


def varied_kc(p, k, i, zlo=0., zhi=1., nz=5, cls='base', ab=None, nb=None, nt=None, cosmo=None):
    """a fitter with drawn numbers of bands, templates and output bands"""
    r = p.r
    nb = nb or {'sdss': 5, 'gst': 10}.get(cls) or int(r.choice([1, 2, 3, 5]))
    nt = nt or int(r.choice([1, 2, 3, 5]))
    p.tmpl('t' + k, nt=nt, n=12, itp=(None, True, False)[i % 3])
    b = p.bands(nb, prefix='%s%d-' % (k, i))
    kw = {}
    if i % 3 == 1:
        no = int(r.choice([1, 2, 4]))
        x = p.bands(no, prefix='%so%d-' % (k, i), lo=4000., hi=8000.)
        kw = dict(out=x, map=[b[int(j)] for j in r.randint(0, nb, no)])
    elif i % 3 == 2:
        o = [b[int(j)] for j in r.permutation(nb)]
        m = [b[int(j)] for j in r.permutation(nb)]
        if (i // 3) % 2:                      # a subset, mapped to itself
            o = m = o[:1 + int(r.randint(nb))]
        kw = dict(out=o, map=m)
    if ab is not None:
        kw['ab'] = ab
    if cosmo:
        kw['cosmo'] = cosmo
    p.kc(k, 't' + k, b, zlo=zlo, zhi=zhi, nz=nz, cls=cls, **kw)


def c06(e):
    def build(p, rows):
        r = p.r
        for i in rows:
            varied_kc(p, 'k', i, cls=('base', 'base', 'sdss')[i % 3])
            for q in ('fit', 'recon', 'kcor', 'absmag', 'derived'):
                n = int(r.choice([1, 2, 3, 4]))
                o = p.objects('k', n, data='mixed' if i % 2 else 'normal')
                if n > 1 and i % 2 and q == 'fit':
                    o['z'][int(r.randint(n))] = 1.5
                bs = float(r.choice([0., 0.125]))
                o['z'] = f32s([min(z, 0.7) if z <= 1. else z for z in o['z']])
                kw = {}
                if q != 'fit':
                    kw['opt'] = dict(band_shift=bs)
                if q == 'recon' and i % 2:
                    kw['which'] = 'out'
                nres = 1
                if q == 'absmag':
                    x = OPTS[int(r.randint(len(OPTS)))]
                    kw['opt'].update(x)
                    nres = 1 + len(x)
                dist = q in ('absmag', 'derived') and bool(r.randint(2))
                a = p.new()
                p.query('k', q, o, id=a, dist=dist, **kw)
                perm = [int(j) for j in r.permutation(n)]
                b = p.new()
                p.query('k', q, o, id=b, dist=dist, rows=perm, **kw)
                for j in range(n):
                    s, t = p.new(), p.new()
                    p.query('k', q, o, id=s, dist=dist, scalar=True, rows=j, **kw)
                    p.query('k', q, o, id=t, dist=dist, rows=[j], **kw)
                    if q == 'derived':
                        continue              # judged row by row as well
                    for m in range(nres):
                        p.add('Same', what='row equals the scalar call', x=dict(of=a, n=m, row=j), y=dict(of=s, n=m), rtol=2e-5, atol=2e-5 if q in ('kcor', 'absmag') else 1e-12)
                        p.add('Same', what='row equals the call of one object', x=dict(of=a, n=m, row=j), y=dict(of=t, n=m, row=0), rtol=2e-5, atol=2e-5 if q in ('kcor', 'absmag') else 1e-12)
                        p.add('Same', what='row equals the row in another order', x=dict(of=b, n=m, row=perm.index(j)), y=dict(of=a, n=m, row=j), rtol=2e-5, atol=2e-5 if q in ('kcor', 'absmag') else 1e-12)
    e.run_plans(plans(e, 'rows', list(range(T(e, 30, 240))), build, T(e, 6, 16)))
    return ('for each method, drawn batches of one to four differing objects asked together, permuted, one by one as '
            'scalars and as one-element arrays; each answer is judged against the specification and the rows compared')


# ---------------------------------------------------------------------------
def distort(v, how, mc=False):
    a = np.array(v)
    if mc and how == 'dim-':
        return a.reshape(-1, a.shape[-1]).tolist() if a.ndim > 2 else a[0].tolist()
    if how == 'dim-':
        return a.ravel().tolist() if a.ndim > 1 else (float(a.ravel()[0]))
    if how == 'dim+':
        return a[np.newaxis].tolist()
    if how == 'T':
        return a.T.tolist()
    ax = {'n': 0, 'len': -2 if mc else -1}[how[:-1]]
    if how.endswith('-'):
        return np.delete(a, -1, axis=ax).tolist()
    return np.append(a, np.take(a, [0], axis=ax), axis=ax).tolist()


ANAME = dict(maggies='m', ivar='iv', coeffs='c', distance='dist')


def c07(e):
    rows = e.select('shapes', None, None)

    def build(p, rows):
        r = p.r
        dims = ((3, 2), (2, 3), (4, 4), (1, 1), (1, 2), (2, 1))
        for g in range(T(e, 3, 6)):
            nb, nt = dims[(g + int(r.randint(6))) % 6]
            varied_kc(p, 'k', g + p.i, nb=nb, nt=nt)
            for c in rows:
                n = {'none': 1, 'scalar': 1, 'a1': 1, 'a3': 3, '2d': 2, 'col': 2, 'row': 2, '1x1': 1, '3d': 2}[c['z']]
                o = p.objects('k', n)
                q, which = (c['m'], None) if c['m'] != 'recon_out' else ('recon', 'out')
                opt = {}
                if q == 'fitmc':
                    q, opt = 'fit', dict(mc=2)
                scalar = c['z'] == 'scalar'
                zs = {'2d': [o['z'], o['z']], 'col': [[x] for x in o['z']], 'row': [o['z']], '1x1': [o['z'][:1]],
                      '3d': [[[x] for x in o['z']]]}
                a = {}
                if c['z'] in zs:
                    a['redshift'] = dict(a=zs[c['z']], d=str(r.choice(['f4', 'list', 'f8'])))
                mcq = q.endswith('_mc')
                if mcq:
                    for f in ('maggies_mc', 'coeffs_mc')[q != 'absmag_mc':]:
                        v = np.array(o[ANAME[f[:-3]]])
                        v = v[..., np.newaxis] * r.uniform(0.9, 1.1, v.shape + (2,))
                        o[f] = np.float32(v).astype(float).tolist()
                        a[f] = dict(a=o[f][0] if scalar else o[f], d='f4')
                todo = [c['f']] if c['f'] not in ('', '*') else {'fit': ['maggies', 'ivar'], 'absmag': ['maggies', 'ivar', 'coeffs'],
                        'absmag_mc': ['maggies_mc', 'ivar', 'coeffs_mc']}[q] if c['f'] == '*' else []
                changed = not todo
                for f in todo:
                    v = o[f if f in o else ANAME[f]]
                    v = v[0] if scalar else v
                    if c['how'] == 'dim-' and np.ndim(v) == 0:
                        continue
                    x = distort(v, c['how'], mc=f.endswith('_mc'))
                    if f.endswith('_mc') and np.size(x) == 0:
                        continue
                    a[f] = dict(a=x, d='f4' if f.endswith('_mc') else str(r.choice(['f4', 'list', 'f8'])))
                    changed = changed or np.shape(x) != np.shape(v)
                if not changed:
                    continue
                kw = dict(which=which) if which else {}
                drop = ('redshift',) if c['z'] == 'none' else ()
                if mcq:
                    drop, q, kw['mcq'] = drop + ('maggies', 'coeffs'), q[:-3], True
                p.query('k', q, o, scalar=scalar, dist=(c['f'] == 'distance'), drop=drop, a=a, opt=opt, **kw)
            # consistent calls in every accepted form
            for q in ('fit', 'recon', 'kcor', 'absmag', 'derived'):
                for scalar in (True, False):
                    o = p.objects('k', 3)
                    p.query('k', q, o, scalar=scalar, dist=q in ('absmag', 'derived') and bool(r.randint(2)),
                            opt=dict(mc=2) if q == 'fit' and r.rand() < 0.5 else {})
            ob = p.objects('k', 2)
            p.query('k', 'kcor', ob, a=dict(redshift=dict(a=[1, 1], d='i8'), coeffs=dict(a=np.ceil(ob['c']).astype(int).tolist(), d='i8')))

    def proj(p, rows):
        b = p.bands(1)
        p.add('Load', n=b[0])
        w = f32s(np.linspace(3000., 9000., 8))
        f = p.u.flux(np.array(w), 2)
        ok = lambda a: dict(a=a, d='f4')
        bad = [(w, [r[:-1] for r in f]), (w, f[0][:-1]), (w[:-1], f), (w[:-1], f[0]), (w, [f]), ([w], f),
               (None, f), (w, None), (w, [f[0] + [1.], f[1] + [1.]])]
        for ww, ff in bad:
            op = p.add('ProjectBad', n=b[0])
            if ww is not None:
                op['w'] = ok(ww)
            if ff is not None:
                op['f'] = ok(ff)
    e.run_plans(plans(e, 'shapes', rows, build, T(e, 6, 12)) + plans(e, 'project', [0], proj, 1))
    return ('every method x redshift form x one argument distorted in dimension, number of objects, bands or templates '
            '(Cases!Shapes, all of them), for several numbers of bands and templates; well-formed calls in all forms')


# ---------------------------------------------------------------------------
def place_z(p, k, n, where, bs, zlo, zhi):
    """redshifts for which the matrix is asked inside, at or beyond its ends"""
    r = p.r
    f = 1. + bs
    lo, hi = (1. + zlo) / f - 1., (1. + zhi) / f - 1.
    m = 0.03 * (hi - lo)
    z = r.uniform(lo + m, hi - m, n)
    if where == 'top':
        z[-1] = hi if bs == 0. else hi - m
    elif where == 'bottom':
        z[0] = lo if bs == 0. else lo + m
    elif where == 'above':
        z[:] = hi + r.uniform(0.01, 0.5, n)
    elif where == 'below':
        z[:] = lo - r.uniform(0.01, 0.2, n)
    elif where == 'one-out':
        z[int(r.randint(n))] = hi + 0.03125
    return f32s(z)


def c08(e):
    rows = e.select('kcor', None, None, where=lambda c: c['bs'] != 'z')

    def build(p, rows):
        r = p.r
        for g, part in groups(p, rows, 12):
            zlo, zhi = ((0., 1.), (0.25, 0.75), (0.5, 2.))[g % 3]
            varied_kc(p, 'k', g, zlo=zlo, zhi=zhi, nz=(5, 3, 7)[g % 3])
            for c in part:
                n = 1 if c['z'] != 'a3' else 3
                bs = {'0': 0., '+': float(r.choice([0.125, 0.1, 0.3])), '-': -0.125}[c['bs']]
                for which in ('in', 'out'):
                    o = p.objects('k', n, data=c['data'])
                    o['z'] = place_z(p, 'k', n, c['zz'], bs, zlo, zhi)
                    if c['data'] == 'mixed':
                        o['c'] = f32m(np.array(o['c']) * 10.**r.uniform(-8, 8))
                    kw = {} if which == 'in' else dict(which='out')
                    p.query('k', 'recon', o, scalar=c['z'] == 'scalar', opt=dict(band_shift=bs) if c['bs'] != '0' or r.rand() < 0.5 else {}, **kw)
    e.run_plans(plans(e, 'recon', rows, build, T(e, 6, 12)))
    return ('scalar and array calls x band shift x coefficients x position of the (shifted) redshifts relative to the '
            'grid (Cases!Kcor, all of them), for input and output bands')


def c09(e):
    rows = e.select('kcor', None, None)

    def build(p, rows):
        r = p.r
        for g, part in groups(p, rows, 12):
            zlo, zhi = ((0., 1.), (0., 0.5), (-0.125, 1.))[g % 3]
            varied_kc(p, 'k', g, zlo=zlo, zhi=zhi, nz=(9, 5, 10)[g % 3])
            for c in part:
                n = 1 if c['z'] != 'a3' else 3
                z = place_z(p, 'k', n, c['zz'], 0., zlo, zhi)
                if c['bs'] == 'z':
                    bs = z[0] if z[0] > 0. else 0.25
                elif c['bs'] == '-':
                    bs = -0.0625
                else:
                    bs = {'0': 0., '+': float(r.choice([0.125, 0.1, 0.3]))}[c['bs']]
                o = p.objects('k', n, data=c['data'])
                o['z'] = z
                if r.rand() < 0.6:            # any size of coefficients
                    o['c'] = f32m(np.array(o['c']) * 10.**r.uniform(-25., 12., (n, 1)))
                p.query('k', 'kcor', o, scalar=c['z'] == 'scalar', opt=dict(band_shift=bs) if bs else {})
    e.run_plans(plans(e, 'kcor', rows, build, T(e, 6, 12)))
    return ('scalar and array calls x band shift (none, positive, negative, to the redshift) x coefficients (also zero) '
            'x position of the redshifts relative to the grid (Cases!Kcor, all of them), with various output bands')


# ---------------------------------------------------------------------------
def absmags(e, name, rows, force=None, classes=('base', 'base', 'sdss', 'gst')):
    def build(p, rows):
        r = p.r
        for g, part in groups(p, rows, 12):
            cls = classes[g % len(classes)]
            varied_kc(p, 'k', g, cls=cls, ab=None if cls == 'base' else bool(g % 3), nt=int(r.choice([1, 3])),
                      zlo=-0.25, zhi=1., nz=6, cosmo=(None, 'flat', 'open')[g % 3])
            for c in part:
                c = dict(c, **(force or {}))
                n = 1 if c['z'] != 'a3' else 3
                o = p.objects('k', n, data=c['data'], scale=float(r.choice([1., 1e-9, 1e-13, 1e3])))
                o['z'] = f32s(10.**r.uniform(-2., -0.05, n))
                if r.rand() < 0.5:            # any signal-to-noise
                    iv = np.array(o['iv']) * 10.**r.uniform(-16., 8., np.shape(o['iv']))
                    o['iv'] = f32m(np.where(np.array(o['iv']) > 0., np.clip(iv, 1e-30, 1e36), 0.))
                opt = dict(reconstruct=c['rec'] or None, limit=c['lim'] or None, kcorrect=c['k'] or None,
                           band_shift=BS[c['bs']] or None)
                p.query('k', 'absmag', o, scalar=c['z'] == 'scalar', dist=c['dist'], opt=opt)
    e.run_plans(plans(e, name, rows, build, T(e, 6, 16)))


def c10(e):
    rows = e.select('opts', 150, None, where=lambda c: not (c['rec'] or c['lim'] or c['k']))
    absmags(e, 'absmag', rows)
    absmags(e, 'again', rows)
    return ('scalar and array calls x distance or cosmology x band shift x data (masked, zero, negative, zero '
            'coefficients) (Cases!Opts, all without options), with and without AB correction, three cosmologies')


def c11(e):
    rows = e.select('opts', 200, None, where=lambda c: c['rec'] or c['lim'] or c['k'])
    absmags(e, 'options', rows)
    return ('option combinations x scalar and array calls x distance x band shift x data (Cases!Opts; pairwise sample '
            'in quick), with and without AB correction')


def derived_bands(p, k, g):
    """a fitter some of whose output bands have no solar magnitude"""
    r = p.r
    nt = int(r.choice([1, 2, 4]))
    w = np.concatenate([p.u.grid(9, 1500., 16000.), np.geomspace(2.2e4, 6e6, 40)])
    pr = p.u.props(nt)
    if g % 4 == 3:
        del pr['m50']
    if nt > 1 and g % 4 == 2:
        pr['mremain'][0] = 0.
        pr['mremain'][1] = 0.
    p.tmpl('t' + k, nt=nt, w=w, props=pr, scale=1e-9)
    b = p.bands(2, prefix='%s%d-' % (k, g))
    p.ops.append(p.u.write(p.d, 'far%d' % g, 2.5e6, n=9, width=0.3))
    far = p.ops[-1]['p']
    outs = ([b[0], b[1]], [far, b[1], b[0]], [far], None)[g % 4]
    if outs is None:
        p.kc(k, 't' + k, b, zlo=-0.25, zhi=1., nz=6)
    else:
        p.kc(k, 't' + k, b, out=outs, map=[b[int(x)] for x in r.randint(0, 2, len(outs))], zlo=-0.25, zhi=1., nz=6,
             cosmo=('default', 'flat', 'open')[g % 3])


def c12(e):
    rows = e.select('opts', None, None, where=lambda c: not (c['rec'] or c['lim'] or c['k']) and
                    c['data'] in ('normal', 'zeroc', 'mixed'))

    def build(p, rows):
        r = p.r
        for g, part in groups(p, rows, 7):
            derived_bands(p, 'k', g)
            for c in part:
                n = 1 if c['z'] != 'a3' else 3
                o = p.objects('k', n, data=c['data'])
                o['z'] = f32s(10.**r.uniform(-2., -0.05, n))
                p.query('k', 'derived', o, scalar=c['z'] == 'scalar', dist=c['dist'],
                        opt=dict(band_shift=BS[c['bs']] or None))
    for i in range(T(e, 1, 4)):
        e.run_plans(plans(e, 'derived%d' % i, rows, build, T(e, 6, 12)))
    return ('scalar and array calls x distance or cosmology x band shift x coefficients (also zero) (Cases!Opts), output '
            'bands with and without a solar magnitude, more or fewer than input bands')


# ---------------------------------------------------------------------------
def c13(e):
    def build(p, rows):
        r = p.r
        for i in rows:
            varied_kc(p, 'k', i, cls=('base', 'sdss', 'base', 'gst')[i % 4], ab=(None, True, None, True)[i % 4], nz=3)
            for j in range(3):
                n = (0, 1, 2, 3)[(i + j) % 4]
                o = p.objects('k', max(n, 1), data=('normal', 'masked', 'negm')[j])
                if j == 1 and n != 2:
                    o['z'][0] = 1.25
                a, b = p.new(), p.new()
                mc = int(r.choice([1, 2, 5]))
                p.seed()
                p.query('k', 'fit', o, scalar=(n == 0), opt=dict(mc=mc), id=a)
                p.query('k', 'fit', o, scalar=(n == 0), id=b)
                p.add('Same', what='Monte Carlo leaves the base coefficients', x=dict(of=a, n=0), y=dict(of=b), rtol=1e-6, atol=1e-30)

    def stats(p, rows):
        r = p.r
        for i in rows:
            nb = 3
            p.tmpl('t', nt=1 + i % 2, n=8)
            p.kc('k', 't', p.bands(nb, prefix='s%d-' % i), nz=2)
            n = (0, 2, 1)[i % 3]
            o = p.objects('k', max(n, 1))
            m, iv = np.array(o['m']), np.array(o['iv'])
            sn = 10.**r.uniform(0.7, 1.7, m.shape)
            iv = (sn / m)**2
            if i % 2:
                iv[:, 0] = 0.
            o['iv'] = f32m(iv)
            a, b = p.new(), p.new()
            p.seed()
            opt = dict(mc=T(e, 6000, 40000))
            p.query('k', 'fit', o, scalar=(n == 0), opt=opt, id=a, quiet=True)
            p.query('k', 'fit', o, scalar=(n == 0), opt=opt, id=b, quiet=True)
            p.add('Stats', of=[a, b], m=o['m'] if n else o['m'][0], iv=o['iv'] if n else o['iv'][0])
    e.run_plans(plans(e, 'mc', list(range(T(e, 24, 200))), build, T(e, 5, 12)) +
                plans(e, 'stats', list(range(T(e, 4, 16))), stats, T(e, 4, 8)))
    return ('drawn objects (masked, negative, out of range), batch sizes and numbers of draws; each draw is judged '
            'against the maggies returned for it; moments and correlations of standardised deviates of thousands of '
            'draws of two successive calls within six standard errors')


# ---------------------------------------------------------------------------
def c14(e):
    rows = e.select('opts', 110, 700)

    def build(p, rows):
        r = p.r
        for g, part in groups(p, rows, 10):
            if g % 3 == 2:
                derived_bands(p, 'k', g)
            else:
                cls = ('base', 'sdss', 'gst', 'base')[g % 4]
                varied_kc(p, 'k', g, cls=cls, ab=None if cls == 'base' else True, nt=int(r.choice([1, 3])),
                          zlo=-0.25, zhi=1., nz=6, cosmo=(None, 'flat', 'open')[g % 3])
            for c in part:
                n = 1 if c['z'] != 'a3' else 2
                scalar = c['z'] == 'scalar'
                mc = int(r.choice([1, 2, 4]))
                o = p.objects('k', n, data=c['data'])
                o['z'] = f32s(10.**r.uniform(-2., -0.05, n))
                if r.rand() < 0.5:            # draws made up here
                    os_ = [p.objects('k', n, data=c['data']) for i in range(mc)]
                    mm = np.stack([np.array(x['m']) for x in os_], -1)
                    cm = np.stack([np.array(x['c']) for x in os_], -1)
                    if scalar:
                        mm, cm = mm[0], cm[0]
                    A = dict(maggies_mc=dict(a=mm.tolist(), d=str(r.choice(MCFORMS))),
                             coeffs_mc=dict(a=cm.tolist(), d=str(r.choice(MCFORMS))))
                else:                         # those of a fit
                    f = p.new()
                    p.seed()
                    p.query('k', 'fit', o, scalar=scalar, opt=dict(mc=mc), id=f)
                    A = dict(maggies_mc=dict(of=f, n=2), coeffs_mc=dict(of=f, n=1))
                opt = dict(reconstruct=c['rec'] or None, limit=c['lim'] or None, kcorrect=c['k'] or None,
                           band_shift=BS[c['bs']] or None)
                opt['limit'] = None           # (no such option here)
                p.query('k', 'absmag', o, scalar=scalar, dist=c['dist'], drop=('maggies', 'coeffs'), a=A, opt=opt, mcq=True)
                p.query('k', 'derived', o, scalar=scalar, dist=c['dist'], drop=('coeffs',),
                        a=dict(coeffs_mc=A['coeffs_mc']), opt=dict(band_shift=BS[c['bs']] or None), mcq=True)
    e.run_plans(plans(e, 'mc', rows, build, T(e, 6, 16)))
    return ('options x calls x distance x band shift x data (Cases!Opts; pairwise sample in quick), draws made up and '
            'draws of Monte Carlo fits, with and without AB correction')


# ---------------------------------------------------------------------------
def c15(e):
    session_model(e)
    acts = ['SaveKc', 'LoadKc', 'Query', 'SetZ', 'Restart']
    hs = e.histories('kcs', ['SaveKc', 'LoadKc', 'SetZ', 'Restart'], T(e, 3, 4), seds=['s1', 's2', 's3', 's4'],
                     kcs=['k1', 'k2', 'k3', 'k4'], zs=(1,))
    hs = [h for h in hs if any(a['a'] == 'SaveKc' for a in h) and h[-1]['a'] == 'LoadKc']
    noR = [h for h in hs if not any(a['a'] == 'Restart' for a in h)]
    withR = [h for h in hs if any(a['a'] == 'Restart' for a in h)]

    def extra(R, a):
        if a['a'] in ('SaveKc', 'LoadKc'):
            for q in ('kcor', 'fit', 'recon', 'recon_out', 'absmag'):
                ask(R.p, a['k'], q)
            R.p.add('CheckKc', k=a['k'])
            ask(R.p, a['k'], 'derived')
    todo = histories(e, 'save', sample(e, noR, T(e, 24, None), 'n'), 'kcs', (None,), T(e, 3, 8), extra=extra)
    todo += histories(e, 'restart', sample(e, withR, T(e, 6, 80), 'r'), 'kcs', (None,), T(e, 3, 8), extra=extra)

    def config(p, rows):
        r = p.r
        for i in rows:
            cls = ('base', 'base', 'sdss', 'gst', 'base')[i % 5]
            zlo = float(r.choice([0., -0.125, 0.]))
            varied_kc(p, 'k', i, cls=cls, ab=(None, True, True, True, None)[i % 5], zlo=zlo,
                      zhi=float(r.choice([1., 0.7, 1.1])), nz=int(r.choice([3, 5, 6])))
            f = p.path('k%d.fits' % i)
            o = p.objects('k', 2)
            o['z'] = f32s([0.1, 0.55])

            def qs(k):
                for q in ('fit', 'recon', 'kcor', 'absmag', 'derived'):
                    p.query(k, q, o, plain=True, dist=q in ('absmag', 'derived'), qid=q)
                p.query(k, 'recon', o, plain=True, which='out', qid='recon_out')
                p.query(k, 'kcor', o, plain=True, opt=dict(band_shift=0.125), qid='kcorbs')
            qs('k')
            p.add('SaveKc', k='k', p=f)
            qs('k')
            p.add('CheckKc', k='k')
            if i % 6 == 5:
                p.add('Restart')
            else:
                p.add('SetZ', s='tk', z=dict(a=0.5, d='py'))
            p.add('LoadKc', k='l', s='ls', p=f, cosmo=('default', 'flat')[i % 2])
            p.kcs['l'] = p.kcs['k']
            qs('l') if cls == 'base' or i % 6 == 5 else p.add('CheckKc', k='l')
            if cls != 'base' and i % 6 != 5:
                # read back into an object of the same class
                varied_kc(p, 'm', i + 1, cls=cls, ab=False)
                p.add('LoadKc', k='m', s='ms', p=f, into='m', cls=cls)
                p.kcs['m'] = p.kcs['k']
                qs('m')
            g = p.path('k%d-again.fits' % i)
            p.add('SaveKc', k='l', p=g)
            p.add('LoadKc', k='l2', s='ls2', p=g)
            p.kcs['l2'] = p.kcs['k']
            qs('l2')
            p.add('LoadSed', s='x', p=g, tmpl=True)
    todo += plans(e, 'config', list(range(T(e, 18, 120))), config, T(e, 6, 12))
    e.run_plans(todo)
    return ('histories of save, overwrite, restore, redshifting and process restart of the session model (exhaustive to '
            'that length, sampled in quick) and drawn configurations; restored objects are asked the same questions')


def c16(e):
    session_model(e)
    hs = e.histories('seds', ['SaveSed', 'LoadSed', 'SetZ', 'Restart'], T(e, 3, 4), seds=['s1', 's2', 's3', 's4'], zs=(0, 2))
    hs = [h for h in hs if any(a['a'] == 'SaveSed' for a in h) and h[-1]['a'] in ('LoadSed', 'SaveSed')]
    noR = [h for h in hs if not any(a['a'] == 'Restart' for a in h)]
    withR = [h for h in hs if any(a['a'] == 'Restart' for a in h)]

    def extra(R, a):
        if a['a'] == 'LoadSed' and R.r.rand() < 0.3:
            R.p.add('SetZ', s=a['s'], z=dict(a=0.5, d='py'))
            R.p.add('SetZ', s=a['s'], z=dict(a=0., d='py'))
    todo = histories(e, 'save', sample(e, noR, T(e, 120, None), 'n'), 'seds', (None, False), T(e, 3, 8), extra=extra)
    todo += histories(e, 'restart', sample(e, withR, T(e, 4, 60), 'r'), 'seds', (None, False), T(e, 2, 8), extra=extra)

    def sets(p, rows):
        r = p.r
        for i in rows:
            f = p.path('s%d.fits' % i)
            nt = 1 + i % 4
            tm = i % 3 != 0
            itp = (None, True, False)[i % 3]
            if tm:
                pr = p.u.props(nt)
                if i % 4 == 1:
                    del pr['m50']
                p.tmpl('a', nt=nt, n=int(r.choice([5, 9, 30])), props=pr, layout=('table', 'binimage')[i % 5 == 2], itp=itp,
                       scale=10.**r.uniform(-18., -5.))
            else:
                p.ops.append(p.u.sed('a', nt=nt, n=int(r.choice([5, 9])), flat=(nt == 1 and i % 2), itp=itp,
                                     d=('f4', 'f8')[i % 2]))
            if i % 2:
                p.add('SetZ', s='a', z=dict(a=f32(r.uniform(0., 2.)), d='py'))
            ext = (None, 'SPEC')[i % 7 == 3 and not tm]
            kw = dict(ext=ext) if ext else {}
            p.add('SaveSed', s='a', p=f, bin=(None, True, False)[int(r.randint(3))], **kw)
            p.add('CheckSed', s='a')
            p.add('LoadSed', s='b', p=f, tmpl=tm, itp=itp, **kw)
            p.add('SetZ', s='b', z=dict(a=0.5, d='py'))
            p.add('SaveSed', s='b', p=f, clobber=False, **kw)
            p.add('LoadSed', s='c', p=f, tmpl=tm, itp=(None, True, False)[(i + 1) % 3], **kw)
            p.add('SaveSed', s='b', p=f, bin=(True, False)[i % 2], **dict(kw, **(dict(clobber=True) if i % 2 else {})))
            p.add('LoadSed', s='d', p=f, tmpl=tm, **kw)
            p.ops.append(p.u.sed('e', nt=1 + (i + 1) % 3, n=6))
            p.add('SaveSed', s='e', p=f, clobber=False)
            p.add('LoadSed', s='d', p=f, tmpl=tm, **kw)
            p.add('LoadSed', s='f', p=p.path('missing.fits'), tmpl=tm)
            p.add('CheckSed', s='a')
    todo += plans(e, 'sets', list(range(T(e, 36, 300))), sets, T(e, 4, 12))
    e.run_plans(todo)
    return ('histories of redshifting, (un)clobbering saves, restores and process restart (exhaustive to that length, '
            'sampled in quick) and drawn spectrum sets in both layouts, with and without all template properties')


# ---------------------------------------------------------------------------
def c17(e):
    rows = e.select('descr', 170, 2592)

    def build(p, rows):
        r = p.r
        for i, c in enumerate(rows):
            at = {'uv': 1600., 'optical': 5500., 'ir': 30000., 'beyond': 2.5e6}[c['at']] * float(r.uniform(0.8, 1.2))
            n = c['n']
            sh = c['shape']
            if sh in ('hump', 'box', 'double'):
                w, v = p.u.band(at, n=n, width=float(r.uniform(0.1, 0.4)), shape=sh)
            else:
                w = np.linspace(at * 0.85, at * 1.15, n)
                t = np.linspace(-1., 1., n)
                v = {'cutleft': np.exp(-(t + 1.)**2 * 2.), 'cutright': np.exp(-(t - 1.)**2 * 2.),
                     'flat': 0.7 + 0.25 * np.cos(2.5 * t)}[sh]
                w, v = [float(x) for x in w], [float(x) for x in v]
            if c['src'] == 'dat':
                w, v = [round(x, 2) for x in w], [round(x, 6) for x in v]
            s = {'1': 1., 'big': 2.**12, 'small': 2.**-10}[c['scale']]
            v = [x * s for x in v]
            if c['src'] == 'dat' and s != 1.:
                v = [float('%.8g' % x) for x in v]
            o = list(range(n))
            if c['order'] == 'down':
                o = o[::-1]
            elif c['order'] == 'shuffled':
                o = [int(x) for x in r.permutation(n)]
            d = str(r.choice(['f4', 'f8'])) if c['src'] in ('arrays', 'fits') else 'f8'
            w, v = [w[j] for j in o], [v[j] for j in o]
            if c['src'] in ('fits', 'fitsraw') or d == 'f4':
                w, v = f32s(w), f32s(v)
            p.add('Func', f='descr', src=c['src'], p=p.path('d%d.%s' % (i, 'dat' if c['src'] == 'dat' else 'fits')), a=dict(wave=dict(a=w, d=d), response=dict(a=v, d=d)))
    e.run_plans(plans(e, 'descr', rows, build, T(e, 6, 12)))

    def packaged(p, rows):
        for n in rows:
            p.add('PkgDat', n=n)
            p.add('Load', n=n)
            p.add('Func', f='descr', src='reg', n=n, a={})
    import glob
    names = sorted(os.path.basename(x)[:-4] for x in glob.glob('/repo/src/kcorrect/data/responses/*.dat'))
    names = [n for n in names if n not in ('blah', 'test')]
    names = [n for n in names if os.path.getsize('/repo/src/kcorrect/data/responses/%s.dat' % n) < 60000]
    names = [names[int(i)] for i in e.rng('pkg').permutation(len(names))[:T(e, 4, len(names))]]
    e.run_plans(plans(e, 'packaged', names, packaged, T(e, 2, 8)))
    return ('curve shape x order of samples x scale x wavelength region x source (arrays, .dat, FITS round trip, unsorted '
            'FITS) x sampling (Cases!Descr; pairwise sample in quick); packaged responses')


# ---------------------------------------------------------------------------
def c18(e):
    session_model(e)
    acts = ['WriteFile', 'RemoveFile', 'Load']
    hs = e.histories('empty', acts, T(e, 4, 5), names=['n1'], contents=('B3', 'bad'))
    two = e.histories('empty', acts + ['Restart', 'NewSed', 'NewKc', 'SetZ', 'ProjectSed'], 10, num=T(e, 14, 300),
                      contents=('B3', 'bad'))

    def extra(R, a):
        if R.r.rand() < 0.2:
            R.p.add('CheckReg', n=list(R.n.values()))
    todo = histories(e, 'all', sample(e, hs, T(e, 180, None)), 'empty', (None,), T(e, 9, 40), extra=extra)
    todo += histories(e, 'random', two, 'empty', (None,), T(e, 3, 16), extra=extra)

    def listing(p, rows):
        r = p.r
        for i in rows:
            d = p.path('dir%d' % i)
            os.makedirs(d, exist_ok=True)
            names = ['%s%d' % (x, i) for x in ('alpha', 'b_1.5', 'gamma', 'x', 'alpha.dat', 'dat')]
            kinds = [('ok', 'bad', 'none')[int(r.randint(3))] for n in names]
            for n, k in zip(names, kinds):
                q = os.path.join(d, n)
                if k == 'ok':
                    p.ops.append(p.u.write(d, n, float(r.uniform(4000., 8000.))))
                elif k == 'bad':
                    p.add('BadDat', p=q, how=str(r.choice(['garbage', 'empty', 'columns', 'text', 'header'])))
            p.add('Other', d=d)
            for c in ((None, True), (True, False), (False, True))[i % 3]:
                p.add('List', d=d, check=c)
            k = int(r.randint(len(names)))
            if kinds[k] == 'ok' and i % 2:
                p.add('RmFile', p=os.path.join(d, names[k]))
            elif kinds[k] == 'bad':
                w, v = p.u.band(5000.)
                p.add('WriteDat', p=os.path.join(d, names[k]), w=w, v=v)
            p.add('List', d=d, check=bool(i % 2))
            for n in names:
                if r.rand() < 0.5:
                    p.add('Load', n=os.path.join(d, n), reload=None)
            p.add('List', d=d, check=not i % 2)
    todo += plans(e, 'list', list(range(T(e, 18, 120))), listing, T(e, 2, 6))
    e.run_plans(todo)
    return ('all histories of that length of writing, corrupting, removing, loading and reloading a response file, random '
            'longer ones with fitters and restarts, and listings of directories of valid, invalid and other files')


# ---------------------------------------------------------------------------
def c19(e):
    rows = e.select('ab', 312, None)

    def build(p, rows):
        r = p.r
        for cls in ('base', 'sdss', 'gst'):
            for ab in (False, True):
                p.tmpl('t', nt=2, n=10)
                nb = {'base': 5, 'sdss': 5, 'gst': 10}[cls]
                p.kc('%s%d' % (cls, ab), 't', p.bands(nb, prefix='%s%d-' % (cls, ab)), cls=cls, ab=ab, nz=3)
        for c in rows:
            fn = c['fn'].split()
            n = {'vec': 1, 'row': 1, 'arr': 3}[c['dim']]
            vec = c['dim'] == 'vec'
            if fn[0] in ('sdss_ab', 'sdss_ab_fix', 'to_ab'):
                cls = fn[1] if len(fn) > 1 else 'sdss'
                k = '%s1' % cls
                o = p.objects(k, n, data=c['data'])
                d = lambda x: dict(a=o[x][0] if vec else o[x], d=str(r.choice(['f4', 'f8', 'f4ro', 'f4F', 'f4s'])))
                a = dict(maggies=d('m'))
                if c['iv']:
                    a['ivar'] = d('iv')
                if fn[0] == 'to_ab':
                    p.add('Func', f='to_ab', k='%s%d' % (cls, c['ab']), cls=cls, a=a)
                else:
                    if fn[0] == 'sdss_ab_fix':
                        a['abfix'] = dict(a=f32s(r.uniform(-0.3, 0.3, 5)), d='f8')
                    elif c['ab']:             # wrong number of bands
                        for x in a:
                            v = np.array(a[x]['a'])
                            v = (v[..., :4] if r.rand() < 0.5 else
                                 v.T if not vec and n != 5 else np.concatenate([v, v[..., :1]], -1))
                            a[x]['a'] = v.tolist()
                    p.add('Func', f='sdss_ab', a=a)
            else:
                k = '%s%d' % (fn[1], c['ab'])
                o = p.objects(k, n, data=c['data'])
                o['z'] = f32s(r.uniform(0.05, 0.9, n))
                if fn[0] == 'fit':
                    p.query(k, 'fit', o, scalar=vec)
                    if fn[1] == 'sdss':       # as asinh magnitudes
                        dd = lambda x: dict(a=f32s(x[0]) if vec else f32m(x), d='f8')
                        p.add('Query', k=k, q='asinhfit', a=dict(
                            mag=dd(r.uniform(14., 23., (n, 5))), mag_err=dd(10.**r.uniform(-2., 0., (n, 5))),
                            redshift=dict(a=o['z'][0] if vec else o['z'], d='f4'),
                            **(dict(extinction=dd(r.uniform(0., 0.5, (n, 5)))) if c['iv'] else {})))
                elif fn[0] == 'absmag':
                    p.query(k, 'absmag', o, scalar=vec, dist=True, opt=dict(limit=c['iv'] or None))
                else:
                    f = p.new()
                    p.seed()
                    p.query(k, 'fit', o, scalar=vec, opt=dict(mc=2), id=f)
                    p.query(k, 'absmag', o, scalar=vec, dist=True, drop=('maggies', 'coeffs'), mcq=True,
                            a=dict(maggies_mc=dict(of=f, n=2), coeffs_mc=dict(of=f, n=1)), opt=dict(kcorrect=c['iv'] or None))
                    # and the object still corrects ordinary calls
                    p.query(k, 'absmag', o, scalar=vec, dist=True)
    e.run_plans(plans(e, 'ab', rows, build, T(e, 5, 6)))

    def defaults(p, rows):
        for cls in ('sdss', 'gst'):
            names = ['sdss_%s0' % b for b in 'ugriz']
            if cls == 'gst':
                names = ['galex_FUV', 'galex_NUV'] + names + ['twomass_J', 'twomass_H', 'twomass_Ks']
            for n in names:
                p.add('PkgDat', n=n)
            p.tmpl('t', nt=2, n=14, lo=400., hi=40000.)
            for ab in (None, True, False):
                p.kc('d', 't', None, cls=cls, zlo=0., zhi=0.5, nz=2, **({} if ab is None else dict(ab=ab)))
                o = p.objects('d', 2)
                p.query('d', 'fit', o)
                p.query('d', 'absmag', o, scalar=True, dist=True)
                p.add('Func', f='to_ab', k='d', cls=cls, a=dict(maggies=dict(a=o['m'], d='f4'), ivar=dict(a=o['iv'], d='f4')))
    e.run_plans(plans(e, 'default', [0], defaults, 1))
    return ('conversion functions and the fit, absolute magnitude and Monte Carlo paths x class of object x flag on or '
            'off x ivar x dimension x mask (Cases!AB, all of them); default objects with packaged responses')


def c20(e):
    rows = e.select('asinh', None, None)
    bs = [1.4e-10, 0.9e-10, 1.2e-10, 1.8e-10, 7.4e-10]

    def mags(r, n, what):
        m = np.zeros((n, 5))
        for i in range(n):
            for b in range(5):
                w = what if what != 'mix' else ('bright', 'faint', 'zero', 'negative')[int(r.randint(4))]
                zp = -np.log(bs[b]) / (0.4 * np.log(10.))
                m[i, b] = {'bright': r.uniform(10., 20.), 'faint': r.uniform(21., 24.), 'zero': zp,
                           'negative': zp + r.uniform(0.1, 2.)}[w]
        return m

    def build(p, rows):
        r = p.r
        for ab in (False, True):
            p.tmpl('t', nt=3, n=10, scale=1e-16)
            p.kc('k%d' % ab, 't', p.bands(5, prefix='a%d-' % ab), cls='sdss', ab=ab, nz=3)
        for i, c in enumerate(rows):
            n = {'vec': 1, 'row': 1, 'arr': 3}[c['dim']]
            vec = c['dim'] == 'vec'
            d = lambda x, forms=('f4', 'f8', 'f4ro', 'f4F', 'f4s'): dict(a=f32s(x[0]) if vec else f32m(x), d=str(r.choice(forms)))
            m = mags(r, n, c['m'])
            if c['fit'] and c['m'] == 'zero':     # not all numerical noise
                m = m + r.choice([-0.02, 0.02], m.shape)
            a = dict(mag=d(m))
            err = 10.**r.uniform(-2., 0., (n, 5))
            ext = r.uniform(0.01, 0.6, (n, 5)) if c['ext'] == 'some' else np.zeros((n, 5))
            if c['ext'] != 'none':
                a['extinction'] = d(ext)
            if c['fit']:
                a['mag_err'] = d(err)
                k = 'k%d' % int(r.randint(2))
                z = p.zs(k, n)
                f = p.new()
                p.add('Query', k=k, q='asinhfit', id=f,
                      a=dict(a, redshift=dict(a=z[0] if vec else z, d=str(r.choice(SFORMS if vec else ZFORMS)))))
            else:
                if c['err']:
                    a['mag_err'] = d(err)
                p.add('Func', f='asinh', a=a)
    e.run_plans(plans(e, 'asinh', rows, build, T(e, 3, 3)))
    if e.tier != QUICK:
        for i in range(8):
            e.run_plans(plans(e, 'asinh%d' % i, rows, build, 6))
    return ('magnitudes (bright, faint, zero flux, negative flux) x errors x extinction x dimension x conversion or fit '
            '(Cases!Asinh, all of them)')


def c21(e):
    rows = e.select('floors', None, None)

    def build(p, rows):
        r = p.r
        for c in rows:
            nb = int(r.choice([1, 2, 5]))
            n = {'vec': 1, 'row': 1, 'arr': 3}[c['dim']]
            vec = c['dim'] == 'vec'
            m = 10.**r.uniform(-3., 1., (n, nb))
            if c['m'] == 'tiny':
                m = m * 1e-9
            elif c['m'] == '-':
                m = -m
            fl = {'zero': np.zeros(nb), 'small': r.uniform(0.01, 0.05, nb), 'big': r.uniform(0.2, 2., nb)}[c['fl']]
            f0 = np.where(fl > 0., fl, 0.02)
            lim = 1. / (np.abs(m) * f0)**2
            iv = {'zero': 0. * m, 'low': lim * r.uniform(0.01, 0.9, m.shape), 'high': lim * r.uniform(1.1, 1000., m.shape),
                  'equal': lim}[c['iv']]
            if c['form'] == 'mix':
                fl = np.where(r.rand(nb) < 0.4, 0., fl)
                iv = np.where(r.rand(*iv.shape) < 0.3, 0., iv)
                m = np.where(r.rand(*m.shape) < 0.3, -m, m)
            g = lambda x: dict(a=f32s(x[0]) if vec else f32m(x), d=str(r.choice(['f4', 'f8', 'f4ro', 'f4F', 'f4s'])))
            fl = f32s(fl)
            # the floor has to be the same number as seen by the code and here
            a = p.new()
            M = g(m)
            p.add('Func', f='floor', id=a, a=dict(maggies=M, ivar=g(iv), floor=dict(a=fl, d=str(r.choice(['f4', 'f8', 'f4ro'])))))
            b = p.new()
            p.add('Func', f='floor', id=b, a=dict(maggies=M, ivar=dict(of=a), floor=dict(a=fl, d='f8')))
            p.add('Same', what='floors applied twice change nothing more', x=dict(of=b), y=dict(of=a), rtol=1e-6)
    for i in range(T(e, 2, 12)):
        e.run_plans(plans(e, 'floor%d' % i, rows, build, T(e, 3, 6)))
    return ('signs and sizes of maggies x inverse variances (masked, low, high, equal to the floor) x floors (also zero) x '
            'dimension (Cases!Floors, all of them)')


def c22(e):
    rows = e.select('m2f', None, None)

    def build(p, rows):
        r = p.r
        for i, c in enumerate(rows):
            b = p.bands(c['k'], prefix='m%d-' % i)
            b = [b[int(x)] for x in r.permutation(len(b))]
            if c['rep']:
                b = b + [b[0]]
            if c['pre']:
                p.add('Load', n=b[-1])
            n = {'vec': 1, 'row': 1, 'arr': 3}[c['dim']]
            m = r.uniform(-1., 1., (n, len(b))) * 10.**r.uniform(-9., 2.)
            iv = 10.**r.uniform(-2., 18., m.shape)
            iv[r.rand(*iv.shape) < 0.2] = 0.
            d = lambda x: dict(a=f32s(x[0]) if c['dim'] == 'vec' else f32m(x), d=str(r.choice(['f4', 'f8', 'f4ro', 'f4F'])))
            a = dict(maggies=d(m))
            if c['iv']:
                a['ivar'] = d(iv)
            p.add('M2F', names=b, a=a)
            p.add('M2F', names=b[::-1], a=a)
            w = f32s(10.**r.uniform(2., 7., int(r.choice([1, 4]))))
            p.add('Func', f='sed_ab', a=dict(wave=dict(a=w, d=str(r.choice(['f4', 'f8', 'f4ro'])))))
            p.add('Func', f='sed_ab', a=dict(wave=dict(a=w[0], d=str(r.choice(['py', 'np4', 'np8'])))))
            if i % 9 == 0:                    # a response that cannot be loaded
                p.add('M2F', names=[b[0], p.path('nosuch')], a=dict(maggies=dict(a=[1., 2.], d='f4')))
    for i in range(T(e, 1, 8)):
        e.run_plans(plans(e, 'm2f%d' % i, rows, build, T(e, 6, 6)))
    return ('numbers of bands x repeats x dimension x ivar x loaded before or not (Cases!M2F, all of them), names in any '
            'order; AB flux density of scalars and arrays')


# ---------------------------------------------------------------------------
def c23(e):
    session_model(e)
    hs = e.histories('kcs', ['Query', 'SetZ', 'ProjectSed', 'NewKc', 'SaveKc', 'LoadKc', 'SaveSed', 'Load'], 10,
                     num=T(e, 30, 400), seds=['s1', 's2', 's3'], kcs=['k1', 'k2', 'k3', 'k4'], cfgs='CfgSmall', zs=(0, 1, 2))
    hs = [[a for a in h if not (a['a'] == 'Load' and a['r'])] for h in hs]

    def extra(R, a):
        if R.r.rand() < 0.6:
            for k in ('k1', 'k2'):
                R.p.ops and ask(R.p, k, str(R.r.choice(['kcor', 'fit', 'recon', 'recon_out', 'absmag', 'derived'])))
    todo = histories(e, 'mix', hs, 'kcs', (None, False), T(e, 4, 12), extra=extra)

    def shared(p, rows):
        """the same caller arrays used over and over, by several objects"""
        r = p.r
        for i in rows:
            cls = ('base', 'sdss', 'gst')[i % 3]
            nt = 3
            varied_kc(p, 'k', i, cls=cls, ab=None if cls == 'base' else True, nt=nt, nb={'base': 3, 'sdss': 5, 'gst': 10}[cls])
            b = next(x['resp'] for x in reversed(p.ops) if x['op'] == 'NewKc')
            p.kc('k2', 'tk', b[::-1], cls=cls, ab=not i % 2, nz=5)
            n = (1, 3)[i % 2]
            o = p.objects('k', n, data=('normal', 'masked')[i % 2])
            o['z'] = f32s(r.uniform(0.05, 0.8, n))
            scalar = n == 1 and i % 4 < 2
            for nm, key in (('z', 'z'), ('m', 'm'), ('iv', 'iv'), ('c', 'c'), ('d', 'dist')):
                v = o[key][0] if scalar else o[key]
                fm = SFORMS if scalar and nm in 'zd' else (('f4', 'list', 'f8') if i % 3 else ('f4', 'f4ro'))
                p.add('Arr', id='%s%d' % (nm, i), a=dict(a=v, d=str(r.choice(fm))))
            ref = lambda **kw: {k: dict(ref='%s%d' % (v, i)) for k, v in kw.items()}
            calls = [('fit', ref(redshift='z', maggies='m', ivar='iv'), {}),
                     ('recon', ref(redshift='z', coeffs='c'), dict(band_shift=0.125)),
                     ('recon', ref(redshift='z', coeffs='c'), {}),
                     ('recon_out', ref(redshift='z', coeffs='c'), {}),
                     ('recon_out', ref(redshift='z', coeffs='c'), dict(band_shift=0.125)),
                     ('kcor', ref(redshift='z', coeffs='c'), {}),
                     ('kcor', ref(redshift='z', coeffs='c'), dict(band_shift=0.125)),
                     ('absmag', ref(redshift='z', maggies='m', ivar='iv', coeffs='c'), dict(reconstruct=True, limit=True, kcorrect=True)),
                     ('absmag', ref(redshift='z', maggies='m', ivar='iv', coeffs='c', distance='d'), {}),
                     ('derived', ref(redshift='z', coeffs='c'), {}),
                     ('derived', ref(redshift='z', coeffs='c', distance='d'), dict(band_shift=0.125))]
            order = list(range(len(calls))) * 2
            for j in r.permutation(len(order)):
                q, a, opt = calls[order[int(j)]]
                for k in (('k', 'k2') if r.rand() < 0.5 else ('k2', 'k')):
                    p.add('Query', k=k, q=q.split('_')[0], a=a, opt=opt, qid='%s%d' % (q, order[int(j)]),
                          **(dict(which='out') if q == 'recon_out' else {}))
            f = 'mc%d' % i
            p.seed()
            p.add('Query', k='k', q='fit', a=calls[0][1], opt=dict(mc=2), id=f)
            am = dict(ref(redshift='z', ivar='iv'), maggies_mc=dict(of=f, n=2), coeffs_mc=dict(of=f, n=1))
            dm = dict(ref(redshift='z'), coeffs_mc=dict(of=f, n=1))
            for x in range(2):
                p.add('Query', k='k', q='absmag_mc', a=am, opt=dict(reconstruct=True, kcorrect=True), qid='amc')
                p.add('Query', k='k', q='derived_mc', a=dm, opt={}, qid='dmc')
            q, a, opt = calls[-3]
            p.add('Query', k='k', q=q, a=a, opt=opt, qid='absmag%d' % (len(calls) - 3))
            # functions
            nb = p.kcs['k']['nb']
            g = ref(maggies='m', ivar='iv')
            for x in range(2):
                if cls == 'sdss' and not _is_list(p, 'm%d' % i) and not _is_list(p, 'iv%d' % i):
                    p.add('Func', f='sdss_ab', a=g, qid='ab%d' % i)
            p.add('CheckSed', s='tk')
            p.add('CheckKc', k='k')
            p.add('CheckKc', k='k2')
    todo += plans(e, 'shared', list(range(T(e, 12, 90))), shared, T(e, 4, 12))
    e.run_plans(todo)
    return ('random histories of queries, redshifting, constructions, saves and restores on several objects sharing '
            'templates, with fixed questions asked in between; every query on shared (also read-only) caller arrays in '
            'random orders, twice each')


def _is_list(p, i):
    return next(x for x in p.ops if x['op'] == 'Arr' and x['id'] == i)['a']['d'] == 'list'


def c24(e):
    session_model(e)
    rows = e.select('maps', 110, 1500)
    bad = e.select('badmaps', 60, None)

    def build(p, rows):
        r = p.r
        p.tmpl('t', nt=3, n=10)
        b = p.bands(5)
        for i, c in enumerate(rows):
            kw = {}
            if not c['dout']:
                kw['out'] = [b[x - 1] for x in c['out']]
            if not c['dmap']:
                kw['map'] = [b[x - 1] for x in c['map']]
            p.kc('k', 't', b[:3], nz=2, zlo=0., zhi=1., **kw)
            if c in good:
                p.kcs['k']['no'] = len(c['out'])
                o = p.objects('k', 2, data=('normal', 'masked', 'negm')[i % 3])
                sc = i % 2 == 0
                bs = float(r.choice([0., 0.25]))
                p.query('k', 'kcor', o, scalar=sc, opt=dict(band_shift=bs))
                p.query('k', 'absmag', o, scalar=sc, dist=True, opt=dict(band_shift=bs, **OPTS[i % len(OPTS)]))
                if i % 3 == 0:
                    p.query('k', 'derived', o, scalar=sc, dist=True)
                    p.query('k', 'recon', o, scalar=sc, which='out')
                if i % 5 == 0:
                    f = p.new()
                    p.query('k', 'fit', o, scalar=sc, id=f, opt=dict(mc=2))
                    p.query('k', 'absmag', o, scalar=sc, dist=True, drop=('maggies', 'coeffs'), mcq=True,
                            a=dict(maggies_mc=dict(of=f, n=2), coeffs_mc=dict(of=f, n=1)), opt=dict(OPTS[i % len(OPTS)], limit=None))
    good = rows
    e.run_plans(plans(e, 'maps', rows, build, T(e, 5, 16)) + plans(e, 'bad', bad, build, T(e, 1, 2)))
    return ('output bands and mappings over three inputs and two other bands (Cases!Maps; pairwise sample in quick), and '
            'mappings of wrong length or to other bands (Cases!BadMaps)')


def c25(e):
    def build(p, rows):
        r = p.r
        for i in rows:
            nm = int(r.choice([1, 2, 3, 5])) if i else 100
            words = ['%.2f' % x for x in np.cumsum(r.uniform(0.5, 3., 1221)) + 9.]
            for u in range(nm):
                words += ['%d' % (u + 1 + int(r.randint(5))), '%d' % r.randint(2000, 50000), '%.2f' % r.uniform(-1., 5.),
                          '%.1f' % r.uniform(-5., 1.), '%.1f' % r.uniform(1., 4.), '%.5f' % r.uniform(0., 1.)]
                words += ['%.4E' % x for x in 10.**r.uniform(-20., -2., 1221)]
            lay = ('fixed', 'long', 'one', 'random', 'blank')[i % 5]
            lines, j = [], 0
            while j < len(words):
                k = {'fixed': 8, 'long': 50, 'one': 1, 'random': int(r.randint(1, 12)), 'blank': 8}[lay]
                lines.append(' ' * int(r.randint(0, 4)) + (' ' * int(r.randint(1, 4))).join(words[j:j + k]))
                if lay == 'blank' and r.rand() < 0.1:
                    lines.append('')
                j += k
            f = p.path('basel%d' % i)
            open(f, 'w').write('\n'.join(lines) + ('\n' if i % 3 else ''))
            p.add('Func', f='basel', p=f, a={})

    def packaged(p, rows):
        for n in rows:
            p.add('Func', f='basel', p='/repo/src/kcorrect/data/basel/' + n, a={})
    e.run_plans(plans(e, 'basel', list(range(T(e, 20, 120))), build, T(e, 5, 8)) +
                plans(e, 'packaged', ['lcbsun.ori', 'lcbvega.ori'], packaged, 1))
    return ('files of one to five and of a hundred models with drawn numbers in five line layouts (fixed, long, one word a line, random, '
            'blank lines); packaged files')


PROPS = {'C%02d' % (i + 1): f for i, f in enumerate(
    (c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23,
     c24, c25))}
