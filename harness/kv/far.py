"""Values that realistic use has and drawn examples hardly ever: gaps in
curves, spectra with lines or the wrong way round, weights and brightnesses
over decades, matrices the caller keeps, objects of the same shape read over
one another.  Each function returns further plans for one property."""
import numpy as np

from .plan import AFORMS, SFORMS
from .props import OPTS, T, derived_bands, plans, varied_kc
from .universe import f32, f32m, f32s


def comb(r, n, lo, hi, kind):
    """a finely sampled curve: (wavelengths, response)"""
    w = np.round(np.linspace(lo, hi, n), 3)
    t = np.linspace(0., 1., n)
    if kind == 'lobes':                       # two lobes with a long gap
        a, b, c, d = np.sort(r.uniform(0.03, 0.97, 4))
        v = np.where((t > a) & (t < b), r.uniform(0.2, 1.), 0.) + np.where((t > c) & (t < d), r.uniform(0.2, 1.), 0.)
    elif kind == 'steps':
        v = r.uniform(0., 1., 8)[np.minimum((t * 8).astype(int), 7)]
    elif kind == 'wings':                     # zeros at both ends
        v = np.where((t > 0.35) & (t < 0.6), np.sin(np.pi * (t - 0.35) / 0.25)**2, 0.)
    elif kind == 'spikes':
        v = np.where(r.rand(n) < 0.06, r.uniform(0.3, 1., n), 0.)
        v[n // 2:n // 2 + 3] = 0.7
    elif kind == 'plateau':
        v = np.clip(1.6 * np.sin(np.pi * t), 0., 1.)
    elif kind == 'noise':                     # measured, with noise around zero
        v = np.sin(np.pi * t)**4 + 1e-3 * r.randn(n)
    else:
        v = np.sin(np.pi * t)**2 * (1. + 0.3 * np.sin(40. * t))
    v = np.round(v, 6)
    v[0] = v[-1] = 0.
    if kind == 'cut':
        v = np.round(0.3 + 0.5 * t + 0.1 * np.sin(25. * t), 6)
    return [float(x) for x in w], [float(x) for x in v]


COMBS = ('lobes', 'steps', 'wings', 'spikes', 'plateau', 'noise', 'ripple', 'cut')


def lines(r, w, k, scale=1e-9):
    """continua with breaks and emission lines of good sampling"""
    out = []
    w = np.array(w)
    for j in range(k):
        f = (w / 5000.)**r.uniform(-3., 1.) * (1. + 3. * (w > r.uniform(3000., 6000.)))
        for x in range(3):
            c = r.uniform(w[len(w) // 8], w[-len(w) // 8])
            f = f + 10.**r.uniform(0., 2.) * np.exp(-0.5 * ((w - c) / r.uniform(150., 400.))**2)
        out.append(f32s(f * scale))
    return out


def clear(x, *at):
    """no sample within rounding of a band's edge"""
    x = np.array(x)
    for a in at:
        x = x[np.abs(x - a) > max(2e-4 * a, 0.5)]
    return x


def f01(e):
    def fine(p, rows):
        r = p.r
        for i in rows:
            n = int(r.choice([161, 240, 601, 64]))
            lo = float(np.round(r.uniform(3500., 6000.)))
            hi = float(np.round(lo * r.uniform(1.2, 2.2)))
            w, v = comb(r, n, lo, hi, COMBS[i % len(COMBS)])
            f = p.path('f%d' % i)
            p.add('WriteDat', p=f, w=w, v=v)
            p.add('Load', n=f)
            for m in ((61, 400)[i % 2], 9):
                x = clear(f32s(np.linspace(lo * r.uniform(0.6, 0.9), hi * r.uniform(1.1, 1.6), m)), lo, hi)
                fl = lines(r, x, 2)
                if i % 3 == 0:
                    x, fl = x[::-1], [y[::-1] for y in fl]
                if i % 2:
                    z = f32(r.uniform(0.05, 1.5)) if i % 4 == 1 else 0.
                    p.add('NewSed', s='s', kind='arrays', w=f32s(x / (1. + z)), f=fl, d='f4')
                    if z:
                        p.add('SetZ', s='s', z=dict(a=z, d=str(r.choice(SFORMS))))
                    p.add('Project', via='sed', s='s', n=f)
                else:
                    p.add('Project', via='raw', n=f, w=dict(a=f32s(x), d=('f4', 'f8')[i % 4 == 0]), f=dict(a=fl, d=str(r.choice(['f4', 'f8', 'f4F', 'be4']))))

    def down(p, rows):
        """spectra on a grid of decreasing wavelengths"""
        r = p.r
        for i in rows:
            w, v = p.u.band(float(r.uniform(4000., 8000.)), n=(9, 30)[i % 2], width=float(r.uniform(0.1, 0.4)), shape=('hump', 'double')[i % 2])
            f = p.path('d%d' % i)
            p.add('WriteDat', p=f, w=w, v=v)
            p.add('Load', n=f)
            lo, hi = w[0], w[-1]
            dw = hi - lo
            x = {0: np.linspace(lo - dw, hi + dw, 40), 1: np.array([lo - 3. * dw, lo - dw, lo - 0.3 * dw, hi + 0.2 * dw, hi + 2. * dw]),
                 2: np.linspace(lo + 0.3 * dw, hi + dw, 10), 3: np.linspace(lo - 0.8 * dw, hi - 0.3 * dw, 10),
                 4: np.linspace(hi + 0.1 * dw, hi + dw, 8), 5: np.linspace(lo - 0.9 * dw, lo - 0.1 * dw, 8),
                 6: np.array([lo - 0.5 * dw, lo + 0.4 * dw, hi + 0.3 * dw, hi + 0.6 * dw])}[i % 7]
            x = clear(f32s(x[x > 50.]), lo, hi)
            if len(x) < 4:
                continue
            fl = p.u.flux(x, 2)
            x, fl = x[::-1], [y[::-1] for y in fl]
            p.add('Project', via='raw', n=f, w=dict(a=f32s(x), d='f8'), f=dict(a=fl, d='f8'))
            z = f32(r.uniform(0.1, 1.))
            p.add('NewSed', s='s', kind='arrays', w=f32s(x / (1. + z)), f=fl, d='f4')
            p.add('SetZ', s='s', z=dict(a=z, d=str(r.choice(SFORMS))))
            p.add('Project', via='sed', s='s', n=f)
    return plans(e, 'fine', list(range(T(e, 24, 160))), fine, T(e, 3, 8)) + plans(e, 'down', list(range(T(e, 14, 70))), down, T(e, 1, 4))


def f02(e):
    def long(p, rows):
        """spectra of many samples, either way round"""
        r = p.r
        for i in rows:
            n = (64, 128, 700, 2500, 30)[i % 5]
            w = f32s(p.u.grid(n))
            f = p.u.flux(np.array(w), 2)
            if i % 3 == 2:
                w, f = w[::-1], [x[::-1] for x in f]
            itp = (None, False, True)[i % 3]
            if i % 2:
                p.add('NewSed', s='a', kind='arrays', w=w, f=f, d=('f4', 'f8')[i % 4 == 1], **({} if itp is None else dict(itp=itp)))
            else:
                p.tmpl('a', nt=2, w=w, itp=itp)
            lo, hi = min(w), max(w)
            for z in (float(r.choice([0.5, 1.25])), None, f32(r.uniform(0.1, 2.)), None, 0., 3.):
                if z is None:
                    p.add('SetInterp', s='a')
                else:
                    p.add('SetZ', s='a', z=dict(a=z, d=str(r.choice(SFORMS))))
                    at = z
                if itp or z is None or (i % 2 and itp is not False):
                    p.add('Interp', s='a', w=[float(x) for x in np.exp(r.uniform(np.log(lo * (1. + at) * 0.9), np.log(hi * (1. + at) * 1.1), 6))])
            p.add('CheckSed', s='a')
    return plans(e, 'long', list(range(T(e, 15, 90))), long, T(e, 2, 6))


def f03(e):
    def narrow(p, rows):
        r = p.r
        for i in rows:
            p.tmpl('t', nt=2, n=(12, 60)[i % 2], lo=1500., itp=(None, True, False)[i % 3])
            if i % 3 == 0:                    # the other way round
                t = p.ops[-1]
                t['w'], t['f'] = t['w'][::-1], [x[::-1] for x in t['f']]
            zlo = float(r.choice([0., 0.25, 0.5]))
            d = (2.**-10, 2.**-7, 2.**-14, 0.125, 2.)[i % 5]
            b = p.bands(2, prefix='n%d-' % i)
            p.kc('k', 't', b, zlo=zlo, zhi=zlo + d, nz=(9, 17, 5, 33, 40)[i % 5], out=b[::-1] if i % 2 else None)
            p.add('CheckKc', k='k')
            p.add('CheckSed', s='t')
            p.add('Amat', k='k', which=('in', 'out')[i % 2], z=dict(a=[float(zlo + d * x) for x in (0., 0.25, 0.625, 1.)], d='f8'))

    def curves(p, rows):
        """real curves: finely sampled, with gaps"""
        r = p.r
        for i in rows:
            p.tmpl('t', nt=2, n=200, lo=1500.)
            t = p.ops[-1]
            t['f'] = lines(r, t['w'], 2)
            b = []
            for j in range(3):
                lo = float(np.round(r.uniform(3500., 7000.)))
                w, v = comb(r, int(r.choice([80, 200])), lo, float(np.round(lo * r.uniform(1.2, 1.6))), COMBS[(i + j) % 7])
                b.append(p.path('c%d-%d' % (i, j)))
                p.add('WriteDat', p=b[-1], w=w, v=v)
            p.kc('k', 't', b, zlo=0., zhi=0.5, nz=4)
            p.add('CheckKc', k='k')
    return plans(e, 'narrow', list(range(T(e, 10, 60))), narrow, T(e, 3, 6)) + plans(e, 'curves', list(range(T(e, 3, 20))), curves, T(e, 1, 4))


def f04(e):
    def weights(p, rows):
        """weights over decades: the bands of little weight still count where
        the others leave the fit undecided"""
        r = p.r
        for i in rows:
            nt = (2, 3, 4, 1)[i % 4]
            nb = nt + (i // 4) % 2
            p.tmpl('t', nt=nt, n=14)
            p.kc('k', 't', p.bands(nb, prefix='w%d-' % i, lo=3200., hi=11000.), zlo=0., zhi=0.5, nz=3)
            n = 6
            o = p.objects('k', n)
            a = p.new()
            p.query('k', 'recon', o, id=a, plain=True)
            for j in range(3):
                sp = (2., 4., 6.)[j]
                iv = 10.**r.uniform(-sp, sp, (n, nb))
                q = dict(o, iv=f32m(iv))
                if j == 2:
                    p.query('k', 'fit', q, plain=True)     # drawn maggies
                p.query('k', 'fit', q, drop=('maggies',), a=dict(maggies=dict(of=a)), plain=True)
                for x in range(2):
                    p.query('k', 'fit', q, drop=('maggies',), a=dict(maggies=dict(of=a, row=x)), scalar=True, rows=x, plain=True)

    def units(p, rows):
        """maggies and weights in any unit"""
        r = p.r
        for i in rows:
            s = 10.**((-24., -16., -9., 0., 8., 15.)[i % 6] + float(r.uniform(-0.5, 0.5)))
            nt = 1 + i % 4
            p.tmpl('t', nt=nt, n=14, scale=10.**float(r.uniform(-20., 5.)))
            p.kc('k', 't', p.bands(nt + 1, prefix='u%d-' % i), nz=2)
            o = p.objects('k', 4, data='mixed')
            m, iv = np.array(o['m']), np.array(o['iv'])
            s = 10.**np.clip(np.log10(s), -16., 15.)
            o.update(m=f32m(m * s), iv=f32m(iv / s**2))
            p.query('k', 'fit', o)
            p.query('k', 'fit', o, scalar=True)
    return plans(e, 'weights', list(range(T(e, 16, 120))), weights, T(e, 3, 8)) + plans(e, 'units', list(range(T(e, 12, 60))), units, T(e, 1, 4))


def steep(p, k, i, cls='base', nt=None):
    """a fitter whose templates are so steep that bands differ by many
    magnitudes, the output bands far from those they are mapped to"""
    r = p.r
    nt = nt or 1 + i % 3
    w = f32s(np.geomspace(1200., 20000., 150))
    x = np.array(w) / 5000.
    f = []
    for j in range(nt):
        s = (1, -1)[(i + j) % 2] * r.uniform(4., 16.)
        y = x**s
        f.append(f32s(y / np.max(y) * 10.**r.uniform(-12., -6.)))
    p.tmpl('t' + k, nt=nt, w=w)
    p.ops[-1]['f'] = f
    b = p.bands(3, prefix='%s%d-' % (k, i), lo=3000., hi=11000.)
    o = p.bands(2, prefix='%so%d-' % (k, i), lo=3500., hi=9000.)
    o = [o[1], o[0]] if i % 2 else [b[2], b[0], o[0]]
    m = [b[(0, 2, 1)[(i + j) % 3]] for j in range(len(o))]
    p.kc(k, 't' + k, b, out=o, map=m, zlo=0., zhi=0.5, nz=4, cls=cls)


def fsteep(e, qs, rows=9, opts=({},)):
    def build(p, rows):
        r = p.r
        for i in rows:
            steep(p, 'k', i)
            for n in (0, 3, 1):
                o = p.objects('k', max(n, 1), data=('normal', 'mixed')[i % 2], scale=10.**float(r.uniform(-14., 2.)))
                if n == 3:
                    o['c'] = f32m(np.array(o['c']) * 10.**r.uniform(-8., 8., (n, 1)))
                o['z'] = f32s(r.uniform(0.03, 0.3, max(n, 1)))
                for q in qs:
                    kw = dict(opt=dict(opts[int(r.randint(len(opts)))] if q == 'absmag' else {}))
                    if q == 'recon' and r.rand() < 0.5:
                        kw['which'] = 'out'
                    if r.rand() < 0.4:
                        kw['opt']['band_shift'] = 0.0625
                    p.query('k', q, o, scalar=n == 0, dist=q in ('absmag', 'derived') and r.rand() < 0.5, **kw)
    return plans(e, 'steep', list(range(T(e, rows, 6 * rows))), build, T(e, 2, 6))


def fbright(e):
    """fluxes of any brightness and significance, positive and not"""
    def build(p, rows):
        r = p.r
        for i in rows:
            cls = ('base', 'sdss', 'gst')[i % 3]
            varied_kc(p, 'k', i, cls=cls, ab=None if cls == 'base' else True, zlo=0., zhi=1.25)
            nb = p.kcs['k']['nb']
            for n in (0, 4, 1, 7):
                o = p.objects('k', max(n, 1))
                k = max(n, 1)
                o['z'] = f32s(np.clip(o['z'], 0.05, 0.9))
                m = 10.**r.uniform(-30., 10., (k, nb)) * np.where(r.rand(k, nb) < 0.35, -1., 1.)
                sn = 10.**r.uniform(-2., 3., (k, nb))
                iv = np.minimum((sn / m)**2, 1e36)
                if i % 2:
                    iv[r.rand(k, nb) < 0.15] = 0.
                    m[r.rand(k, nb) < 0.1] = 0.
                o.update(m=f32m(m), iv=f32m(iv))
                for j in r.permutation(len(OPTS))[:3]:
                    opt = dict(OPTS[int(j)])
                    p.query('k', 'absmag', o, scalar=n == 0, dist=bool(r.randint(2)), opt=opt)
                p.query('k', 'absmag', o, scalar=n == 0, opt=OPTS[5])
                a = dict(coeffs_mc=dict(a=np.moveaxis(np.array([o['c'], o['c']]), 0, -1).tolist(), d='f4'),
                         maggies_mc=dict(a=np.moveaxis(np.array([o['m'], (np.array(o['m']) * -0.5).tolist()]), 0, -1).tolist(), d='f4'))
                if n:
                    p.query('k', 'absmag', o, drop=('maggies', 'coeffs'), mcq=True, a=a)
    return plans(e, 'bright', list(range(T(e, 9, 60))), build, T(e, 3, 6))


def f12(e):
    def build(p, rows):
        """properties of the templates over decades"""
        r = p.r
        for i in rows:
            derived_bands(p, 'k', i)
            t = [x for x in p.ops if x['op'] == 'NewSed' and x['s'] == 'tk'][-1]
            nt = len(t['f'])
            pr = t['props']
            isf = 10.**r.uniform(-3., 12., nt)
            if i % 3 == 0:
                isf[:] = isf[0]
            pr['intsfh'] = f32s(isf)
            pr['mremain'] = f32s(isf * 10.**r.uniform(-3., 0.5, nt))
            pr['mets'] = f32s(10.**r.uniform(-4., 1., nt))
            for x in ('m50', 'm300', 'm1000'):
                if x in pr:
                    pr[x] = f32s(isf * 10.**r.uniform(-6., 0., nt) * (r.rand(nt) > 0.3))
            for n in (0, 4, 1):
                k = max(n, 1)
                o = p.objects('k', k)
                o['c'] = f32m(np.array(o['c']) * 10.**r.uniform(-18., 2., (k, 1)))
                o['z'] = f32s(10.**r.uniform(-2., -0.05, k))
                p.query('k', 'derived', o, scalar=n == 0, dist=bool(r.randint(2)))
                a = dict(coeffs_mc=dict(a=np.moveaxis(np.array([o['c'], o['c'][::-1]]), 0, -1).tolist(), d='f4'))
                if n:
                    p.query('k', 'derived', o, drop=('coeffs',), mcq=True, a=a)
    return plans(e, 'decades', list(range(T(e, 12, 80))), build, T(e, 3, 6))


def f13(e):
    def faint(p, rows):
        """draws of faint, negative, zero and very bright fluxes"""
        r = p.r
        for i in rows:
            nb = 4
            p.tmpl('t', nt=1 + i % 3, n=8)
            p.kc('k', 't', p.bands(nb, prefix='s%d-' % i), nz=2)
            n = (0, 2, 1)[i % 3]
            k = max(n, 1)
            o = p.objects('k', k)
            m = np.array(o['m'])
            sn = 10.**r.uniform(-0.7, 0.4, m.shape)
            sn[:, i % nb] = (0.1, 300., 1., 0.5)[i % 4]
            iv = (sn / m)**2
            m[:, (i + 1) % nb] *= -1.
            if i % 2:
                m[:, (i + 2) % nb] = 0.
            s = 10.**((-12., 0., 6.)[i % 3])
            o.update(m=f32m(m * s), iv=f32m(iv / s**2))
            a, b = p.new(), p.new()
            p.seed()
            opt = dict(mc=T(e, 6000, 40000))
            p.query('k', 'fit', o, scalar=(n == 0), opt=opt, id=a, quiet=True)
            p.query('k', 'fit', o, scalar=(n == 0), opt=opt, id=b, quiet=True)
            p.add('Stats', of=[a, b], m=o['m'] if n else o['m'][0], iv=o['iv'] if n else o['iv'][0])
            p.query('k', 'fit', o, scalar=(n == 0), opt=dict(mc=3))
            # an ordinary fit in between leaves the numbers drawn as they are
            sd = int(r.randint(1, 2**31 - 1))
            ids = [p.new(), p.new()]
            for j in range(2):
                p.add('Seed', seed=sd)
                if j:
                    p.query('k', 'fit', o, plain=True)
                    p.query('k', 'recon', o, plain=True)
                p.query('k', 'fit', o, scalar=n == 0, opt=dict(mc=2), id=ids[j], plain=True)
            p.add('Same', what='draws follow the seed', x=dict(of=ids[1], n=2), y=dict(of=ids[0], n=2), rtol=1e-6, atol=1e-30)
    return plans(e, 'faint', list(range(T(e, 6, 24))), faint, T(e, 3, 6))


def f15(e):
    def over(p, rows):
        """read over an object of the same shape"""
        r = p.r
        for i in rows:
            zhi = 0.75
            fs = []
            nb, nt, nz = int(r.choice([1, 2, 3])), int(r.choice([1, 2])), 4
            out = i % 2 == 0
            cls = ('base', 'sdss')[i % 4 == 3]
            nb = 5 if cls == 'sdss' else nb
            for j in range(3):
                s = 's%d' % j
                p.tmpl(s, nt=nt, n=9)
                b = p.bands(nb, prefix='v%d-%d-' % (i, j), lo=3600. + 200. * j)
                if i % 3 == 1 and j:          # the same bands, other templates
                    b = b0
                b0 = b
                o = b[::-1] if out else None
                p.kc('k%d' % j, s, b, out=o, zlo=0., zhi=zhi, nz=nz, cls=cls, ab=None if cls == 'base' else bool(j % 2))
                fs.append(p.path('v%d-%d.fits' % (i, j)))
                p.add('SaveKc', k='k%d' % j, p=fs[-1])
            t = p.kcs['k0']
            for j in (1, 0, 2, 1):
                o = p.objects('k0', 2)
                o['z'] = f32s(np.clip(o['z'], 0.05, 0.7))
                p.add('LoadKc', k='k0', s='s%d' % j, p=fs[j], into='k0', cls=cls)
                p.add('CheckKc', k='k0')
                for q in ('fit', 'recon', 'kcor', 'absmag', 'derived'):
                    p.query('k0', q, o, scalar=q == 'kcor')
                p.add('Amat', k='k0', which='in', z=dict(a=[0.1, 0.6], d='f8'))
            p.add('CheckKc', k='k1')
            p.add('CheckKc', k='k2')
    return plans(e, 'over', list(range(T(e, 6, 40))), over, T(e, 3, 6))


def f16(e):
    def down(p, rows):
        """spectra the other way round, faint and bright"""
        r = p.r
        for i in rows:
            n = (9, 40)[i % 2]
            nt = 1 + i % 3
            w = f32s(p.u.grid(n))[::-1]
            tm = i % 2 == 0
            lay = i // 2 % 2
            s = 10.**((-20., -9., 0., 9.)[i % 4])
            f = [x[::-1] for x in p.u.flux(np.array(w[::-1]), nt, scale=s)]
            if tm:
                p.tmpl('a', nt=nt, w=w, layout=('table', 'binimage')[lay])
                p.ops[-1]['f'] = f
            else:
                p.add('NewSed', s='a', kind='arrays', w=w, f=f, d='f4')
            at = [float(x) for x in r.uniform(1600., 15000., 5)]
            g = p.path('w%d.fits' % i)
            p.add('SaveSed', s='a', p=g, bin=(None, True)[lay])
            for s in 'bc':
                p.add('LoadSed', s=s, p=g, tmpl=tm)
                p.add('SetInterp', s=s)
                p.add('Interp', s=s, w=at)
                p.add('SetZ', s=s, z=dict(a=0.5, d='py'))
                p.add('CheckSed', s=s)
                p.add('SetInterp', s=s)
                p.add('Interp', s=s, w=[1.5 * x for x in at])
                g = p.path('w%d%s.fits' % (i, s))
                p.add('SaveSed', s=s, p=g, bin=(True, None)[lay])
            p.add('LoadSed', s='b', p=g, tmpl=tm, into=True)
            p.add('CheckSed', s='b')
    return plans(e, 'down', list(range(T(e, 12, 60))), down, T(e, 2, 6))


def f17(e):
    def build(p, rows):
        """bands where the reference spectra are faint, or barely there"""
        r = p.r
        at = (950., 1000., 1050., 1120., 1200., 1300., 1450., 2.e4, 6.e4, 1.e5, 9e4, 750., 820., 400., 5500.)
        for i, j in enumerate(rows):
            c = at[j % len(at)] * float(r.uniform(0.99, 1.01))
            n = int(r.choice([9, 15, 80]))
            wd = float(r.uniform(0.04, 0.1 if c < 2000. else 0.4))
            if j % 3 == 0:
                w, v = comb(r, max(n, 60), c * (1. - wd / 2.), c * (1. + wd / 2.), ('lobes', 'steps', 'wings', 'plateau', 'ripple')[j % 5])
            else:
                w, v = p.u.band(c, n=n, width=wd)
            src = ('arrays', 'dat', 'fits')[j % 3]
            if src == 'fits':
                w, v = f32s(w), f32s(v)
            p.add('Func', f='descr', src=src, p=p.path('d%d.%s' % (i, 'dat' if src == 'dat' else 'fits')),
                  a=dict(wave=dict(a=w, d='f8'), response=dict(a=v, d='f8')))
    return plans(e, 'faint', list(range(T(e, 30, 150))), build, T(e, 3, 6))


def f20(e):
    def build(p, rows):
        """extinction in some of the bands only"""
        r = p.r
        for i in rows:
            n = (0, 1, 3, 6)[i % 4]
            k = max(n, 1)
            d = lambda x: dict(a=f32m(x) if n else f32s(x[0]), d=str(r.choice(['f4', 'f8', 'list'] if n else ['f4', 'f8'])))
            ext = r.uniform(0., 1.5, (k, 5))
            ext[:, r.rand(5) < 0.5] = 0.
            if i % 5 == 0:
                ext[:, 0] = 0.
            if i % 7 == 1:
                ext[:] = 0.
            if i % 3 == 0 and n:
                ext[r.rand(k, 5) < 0.4] = 0.
            a = dict(mag=d(r.uniform(12., 28., (k, 5))), extinction=d(ext))
            if i % 2:
                a['mag_err'] = d(10.**r.uniform(-3., 0., (k, 5)))
            p.add('Func', f='asinh', a={x: dict(y, d='f4') if y['d'] == 'list' else y for x, y in a.items()})
    return plans(e, 'some', list(range(T(e, 40, 200))), build, 1)


def f21(e):
    def build(p, rows):
        """whole columns below or above the floor; integers"""
        r = p.r
        for i in rows:
            n, nb = int(r.choice([1, 2, 9, 10, 25, 40])), int(r.choice([1, 2, 5]))
            whole = i % 3 == 0
            m = r.uniform(0.2, 5., (n, nb)) * np.where(r.rand(n, nb) < 0.3, -1., 1.)
            if whole:
                m = np.round(m * 20.)
                m[m == 0.] = 1.
            fl = 10.**r.uniform(-2.5, -0.5, nb)
            lim = 1. / (np.abs(m) * fl)**2
            side = np.where(r.rand(nb) < 0.7, 1., -1.)             # of each column
            iv = lim * 10.**(side * r.uniform(0.3, 3., (n, nb)))
            if whole:
                iv = np.ceil(np.minimum(iv, 1e6))
                # nothing near the floor
                ferr = 1. / (np.sqrt(iv) * np.abs(m))
                iv = np.where(np.abs(ferr / fl - 1.) < 0.05, 0., iv)
            d = ('f8', 'f4')[i % 2]
            for form in ((('i8', 'f8') if whole else (d, d)), (d, ('i8' if whole else d))):
                mm = m if n > 1 or i % 2 else m[0]
                vv = iv if n > 1 or i % 2 else iv[0]
                p.add('Func', f='floor', a=dict(maggies=dict(a=np.float32(mm).astype(float).tolist(), d=form[0]),
                                                ivar=dict(a=np.float32(vv).astype(float).tolist(), d=form[1]),
                                                floor=dict(a=f32s(fl), d=str(r.choice(['f4', 'list', 'f8'])))))
    return plans(e, 'columns', list(range(T(e, 36, 200))), build, T(e, 1, 3))


def f22(e):
    def build(p, rows):
        """units in which weights are very large or small"""
        r = p.r
        for i in rows:
            nb = (1, 2, 5, 7, 3)[i % 5]
            b = p.bands(nb, prefix='m%d-' % i, lo=(1500., 3600.)[i % 2], hi=(9000., 60000.)[i % 2])
            for n in (nb, 1, 2, nb + 1):
                s = 10.**((-10., -12., 0., 5., -9., -7.)[i % 6])
                m = r.uniform(-1., 1., (n, nb)) * s
                iv = np.minimum((10.**r.uniform(0., 2.5, (n, nb)) / m)**2, 1e28)
                iv[r.rand(n, nb) < 0.1] = 0.
                d = ('f4', 'f8')[i % 2]
                p.add('M2F', names=b, a=dict(maggies=dict(a=f32m(m), d=d), ivar=dict(a=f32m(iv), d=d)))
                p.add('M2F', names=b, a=dict(maggies=dict(a=f32m(m), d=d)))
    return plans(e, 'units', list(range(T(e, 12, 60))), build, 1)


def f23(e):
    def build(p, rows):
        """a seed, any other calls, then the draws"""
        r = p.r
        for i in rows:
            cls = ('base', 'sdss', 'gst')[i % 3]
            varied_kc(p, 'k', i, cls=cls, ab=None if cls == 'base' else True, nt=2)
            o = p.objects('k', 2, data='mixed')
            o['z'] = f32s(np.clip(o['z'], 0.05, 0.8))
            ids = []
            sd = int(r.randint(1, 2**31 - 1))
            for j in range(4):
                p.add('Seed', seed=sd)
                if j:
                    q = ('fit', 'recon', 'kcor', 'absmag', 'derived')[(i + j) % 5]
                    p.query('k', q, o, plain=True)
                    p.query('k', q, o, plain=True, scalar=True)
                    if j == 2:
                        p.add('CheckKc', k='k')
                        p.add('CheckSed', s='tk')
                ids.append(p.new())
                p.query('k', 'fit', o, opt=dict(mc=2), id=ids[-1], plain=True)
            for j in ids[1:]:
                p.add('Same', what='draws follow the seed', x=dict(of=j, n=2), y=dict(of=ids[0], n=2), rtol=1e-6, atol=1e-30)
    return plans(e, 'seed', list(range(T(e, 6, 40))), build, T(e, 1, 4))


def f25(e):
    def alike(p, rows):
        """models that are alike in what describes them"""
        r = p.r
        for i in rows:
            words = ['%.2f' % x for x in np.cumsum(r.uniform(0.5, 3., 1221)) + 9.]
            flux = None
            one = None
            for u in range((3, 4, 6)[i % 3]):
                if one is None or (i + u) % 2 == 0:
                    one = ['%d' % (u + 1), '%d' % r.randint(2000, 50000), '%.2f' % r.uniform(-1., 5.), '%.1f' % r.uniform(-5., 1.),
                           '%.1f' % r.uniform(1., 4.), '%.5f' % r.uniform(0., 1.)]
                elif i % 3:                   # one of the numbers differs
                    one = list(one)
                    one[(i // 3 + u) % 6] = '%d' % (u + 7)
                if flux is None or (i % 3 == 1 and u != 2):
                    flux = ['%.4E' % x for x in 10.**r.uniform(-20., -2., 1221)]
                words += one + flux
            f = p.path('a%d' % i)
            with open(f, 'w') as fp:
                fp.write('\n'.join(' '.join(words[j:j + 8]) for j in range(0, len(words), 8)) + '\n')
            p.add('Func', f='basel', p=f, a={})
    return plans(e, 'alike', list(range(T(e, 9, 36))), alike, T(e, 2, 4))


def f26(e):
    def build(p, rows):
        """spectra of very different brightness; single positive samples"""
        r = p.r
        for i in rows:
            nt = 2 + i % 3
            n = 12
            p.ops.append(p.u.sed('a', nt=nt, n=n, itp=(None, False)[i % 2]))
            f = np.array(p.ops[-1]['f']) * 10.**np.linspace(-14., 12., nt)[:, np.newaxis]
            if i % 2:
                f = f * 10.**r.uniform(-10., 0., f.shape)
            if i % 3 == 0:
                f[r.rand(*f.shape) < 0.3] = 0.
                f[:, 5] = 1e-9
            p.ops[-1]['f'] = f32m(f)
            if i % 4 == 1:                    # the other way round
                p.ops[-1]['w'] = p.ops[-1]['w'][::-1]
            p.add('Plot', s='a')
            p.add('Plot', s='a', indx=dict(a=[int(x) for x in r.permutation(nt)], d='i8'))
            p.add('Plot', s='a', indx=dict(a=int(r.randint(nt)), d='i8'))
    return plans(e, 'brightness', list(range(T(e, 16, 100))), build, T(e, 1, 4))


def f27(e):
    def held(p, rows):
        """matrices kept from before they are computed anew"""
        r = p.r
        for i in rows:
            b = p.bands(2, prefix='h%d-' % i)
            p.tmpl('t', nt=1 + i % 3, n=9, itp=(None, True, False)[i % 3])
            k, nz = 'k%d' % i, int(r.choice([2, 3, 6]))
            p.add('NewFitter', k=k, s='t', resp=b, zlo=0., zhi=0.5, nz=nz)
            p.kcs[k] = dict(nb=2, no=2, nt=1 + i % 3, zlo=0., zhi=0.5, s='t')
            p.add('SetA', k=k)
            at = dict(a=[f32(x) for x in r.uniform(0.01, 0.49, 3)], d='f4')
            p.add('Amat', k=k, z=at)
            for j in range(3):
                h = 'h%d-%d' % (i, j)
                p.add('Hold', k=k, h=h)
                if j != 1:
                    w, v = p.u.band(float(r.uniform(4500., 7000.)), n=8, width=0.3)
                    p.add('WriteDat', p=b[j % 2], w=w, v=v)
                    p.add('Load', n=b[j % 2], reload=True)
                else:
                    p.add('SetZ', s='t', z=dict(a=0.5, d='py'))
                p.add('SetA', k=k)
                p.add('Amat', k=k, z=at)
                for x in range(j + 1):
                    p.add('Amat', k='h%d-%d' % (i, x), z=at)
            p.query(k, 'fit', p.objects(k, 2), qid='')
            # another fitter of the same bands
            p.add('NewFitter', k='o%d' % i, s='t', resp=b, zlo=0., zhi=0.5, nz=nz)
            p.add('SetA', k='o%d' % i)
            p.add('CheckFit', k=k)
            p.add('Amat', k=k, z=at)
            p.add('Amat', k='h%d-2' % i, z=at)
    return plans(e, 'held', list(range(T(e, 9, 60))), held, T(e, 2, 6))


def f30(e):
    def apart(p, rows):
        """default templates are one's own"""
        for i in rows:
            p.add('PkgDat', n='sdss_r0')
            ops = [('intsfh', 2.), ('mremain', 0.5), ('mets', 3.)]
            for j, h in enumerate('ab'):
                p.add('NewSed', s='t' + h, kind='default')
                p.nt['t' + h] = 5
                p.kc('k' + h, 't' + h, ['sdss_r0'], zlo=0.25, zhi=0.5, nz=2, tdefault=True)
                if j == 0:
                    for key, by in ops:
                        p.add('PokeT', s='t' + h, key=key, by=by)
                    p.add('SetZ', s='t' + h, z=dict(a=1.5, d='py'))
            p.add('CheckSed', s='tb')
            p.add('CheckKc', k='kb')
            o = p.objects('kb', 2)
            a, b = p.new(), p.new()
            p.query('kb', 'derived', o, id=a)
            p.query('ka', 'derived', o, id=b)
    return plans(e, 'apart', list(range(T(e, 1, 3))), apart, T(e, 1, 3))


FAR = {'C01': f01, 'C02': f02, 'C03': f03, 'C04': f04,
       'C08': lambda e: fsteep(e, ('recon',), 6),
       'C09': lambda e: fsteep(e, ('kcor',)),
       'C10': lambda e: fsteep(e, ('absmag',)) + fbright(e),
       'C11': lambda e: fbright(e),
       'C12': f12, 'C13': f13,
       'C14': lambda e: fbright(e),
       'C15': f15, 'C16': f16, 'C17': f17, 'C20': f20, 'C21': f21, 'C22': f22, 'C23': f23,
       'C24': lambda e: fsteep(e, ('recon', 'kcor', 'absmag', 'derived'), 6, ({}, dict(reconstruct=True), OPTS[5])),
       'C25': f25, 'C26': f26, 'C27': f27, 'C30': f30}
