"""Wider exploration: sizes, names, ranges and repetitions beyond the ordinary.
Each function returns further plans for one property."""
import os

import numpy as np

from .plan import SFORMS, ZFORMS
from .props import OPTS, T, ask, derived_bands, plans, varied_kc
from .universe import f32, f32m, f32s


def like(p, d, name, centre, **kw):
    """a response file in its own directory"""
    d = p.path(d)
    os.makedirs(d, exist_ok=True)
    p.ops.append(p.u.write(d, name, centre, **kw))
    return p.ops[-1]['p']


def namesakes(p, i):
    """names that are easily taken for one another"""
    r = p.r
    c = [float(x) for x in r.permutation(np.geomspace(3700., 8500., 8))]
    return [like(p, 'A%d' % i, 'b', c[0]), like(p, 'B%d' % i, 'b', c[1]), like(p, 'A%d' % i, 'b1', c[2]),
            like(p, 'A%d' % i, 'b1.dat', c[3]), like(p, 'A%d' % i, 'B', c[4]), like(p, 'A%d/b' % i, 'b', c[5]),
            like(p, 'A%d' % i, 'b 1', c[6]), like(p, 'A%d' % i, 'sdss_r0', c[7])]


def w01(e):
    def names(p, rows):
        for i in rows:
            n = namesakes(p, i)
            p.ops.append(p.u.sed('s', nt=2, n=14))
            for x in p.r.permutation(len(n)):
                p.add('Load', n=n[int(x)])
            for x in p.r.permutation(len(n)):
                p.add('Project', via='sed', s='s', n=n[int(x)])

    def sizes(p, rows):
        b = p.bands(2)
        for n in b:
            p.add('Load', n=n)
        for k, n, itp in rows:
            p.ops.append(p.u.sed('s', nt=k, n=n, itp=itp))
            op = p.ops[-1]
            if itp is not False:
                for x in b:
                    p.add('Project', via='sed', s='s', n=x)
                p.add('SetZ', s='s', z=dict(a=0.5, d='py'))
                p.add('Project', via='sed', s='s', n=b[0])
            p.add('Project', via='raw', n=b[1], w=dict(a=op['w'], d='f4'), f=dict(a=op['f'], d='f4'))

    def ends(p, rows):
        """at the ends of the spectrum of light, and very faint or bright"""
        r = p.r
        for i in rows:
            at = float((8., 400., 1e5, 1e7)[i % 4] * r.uniform(0.8, 1.2))
            k = 10
            w = [float('%.7g' % x) for x in np.linspace(at * 0.8, at * 1.2, k)]
            v = [round(float(x), 5) for x in np.sin(np.linspace(0., np.pi, k))**2]
            p.add('WriteDat', p=p.path('e%d' % i), w=w, v=v)
            p.add('Load', n=p.path('e%d' % i))
            g = np.sort(r.uniform(at * 0.5, at * 1.6, 17))
            f = f32m(r.uniform(0.5, 1.5, (3, 17)) * 10.**r.uniform(-28., 10.))
            p.add('Project', via='raw', n=p.path('e%d' % i), w=dict(a=f32s(g), d='f8'), f=dict(a=f, d='f8'))

    def same(p, rows):
        """the caller's own arrays, changed in place between calls"""
        r = p.r
        b = p.bands(2)
        for n in b:
            p.add('Load', n=n)
        for i in rows:
            n = 12
            d = ('f4', 'f8')[i % 2]
            w = [f32s(p.u.grid(n)) for j in range(2)]
            f = [p.u.flux(np.array(x), 2) for x in w]
            p.add('Arr', id='w', a=dict(a=w[0], d=d))
            p.add('Arr', id='f', a=dict(a=f[0], d=d))
            for j in range(4):
                p.add('Project', via='raw', n=b[j % 2], w=dict(ref='w'), f=dict(ref='f'))
                p.add('Poke', id='f', a=p.u.flux(np.array(w[0]), 2)) if j % 2 else p.add('Poke', id='w', a=w[(j + 1) % 2])
                if not j % 2:
                    w = w[::-1]
    return (plans(e, 'names', list(range(T(e, 4, 20))), names, T(e, 1, 2)) +
            plans(e, 'sizes', [(12, 9, None), (1, 900, None), (40, 6, None), (1003, 5, False)] * T(e, 1, 4), sizes, 2) +
            plans(e, 'ends', list(range(T(e, 8, 60))), ends, 1) + plans(e, 'inplace', list(range(T(e, 4, 20))), same, 1))


def w02(e):
    def far(p, rows):
        r = p.r
        for i in rows:
            p.ops.append(p.u.sed('a', nt=1 + i % 2, n=9, itp=(None, True, False)[i % 3], d=('f4', 'f8')[i % 2]))
            for z, d in ((20., 'py'), (1100., 'np4'), (-0.875, 'np8'), (3, 'int'), (0, 'int'), (1, 'i8'), (1e-5, 'f8'), (0., 'f4'),
                         (6.5, 'f8')):
                p.add('SetZ', s='a', z=dict(a=z, d=d))
            p.add('CheckSed', s='a')

    def long(p, rows):
        """thousands of settings"""
        r = p.r
        for n in rows:
            p.tmpl('a', nt=2, n=9, itp=(True, False)[n % 2])
            b = p.bands(1)
            p.add('Load', n=b[0])
            for j in range(3):
                pre = f32s(r.uniform(0., 2., n))
                p.add('SetZ', s='a', z=dict(a=(0.5, 0., pre[-1])[j], d='py'), pre=pre)
                p.add('CheckSed', s='a')
                if not n % 2:
                    p.add('Project', via='sed', s='a', n=b[0])

    def together(p, rows):
        """many sets at once, some alike"""
        r = p.r
        for i in rows:
            p.ops.append(p.u.sed('s0', nt=2, n=8))
            o = p.ops[-1]
            for j in range(1, 6):
                p.ops.append(dict(o, s='s%d' % j) if j % 2 else p.u.sed('s%d' % j, nt=2, n=8))
            for j in r.randint(0, 6, 14):
                p.add('SetZ', s='s%d' % j, z=dict(a=f32(r.uniform(0., 3.)), d=str(r.choice(SFORMS))))
                p.add('CheckSed', s='s%d' % ((j + int(r.randint(6))) % 6))
    return (plans(e, 'far', list(range(T(e, 6, 30))), far, 1) + plans(e, 'long', T(e, [1500, 3001], [10000, 5001, 700]), long, 2) +
            plans(e, 'together', list(range(T(e, 3, 20))), together, 1))


def w03(e):
    def wide(p, rows):
        r = p.r
        for i in rows:
            p.tmpl('t', nt=(2, 12)[i % 2], n=10, itp=(None, True, False)[i % 3])
            b = namesakes(p, i) if i % 2 == 0 else p.bands(12, prefix='w%d-' % i)
            b = [b[int(x)] for x in r.permutation(len(b))]
            far = like(p, 'far%d' % i, 'far', (900., 4e4)[i % 2])     # sees nothing, at least at some redshifts
            zlo, zhi = ((0., 0.7), (0.1, 1.), (-0.5, 2.), (2., 7.))[i % 4]
            p.kc('k', 't', b + [far], zlo=zlo, zhi=zhi, nz=(3, 4, 6, 2)[i % 4], out=b[:3] if i % 3 else [far] + b[-2:], map=b[:3])
            p.add('CheckKc', k='k')
            p.add('CheckSed', s='t')
            for z in (zlo, zhi):
                p.add('Amat', k='k', which='in', z=dict(a=f32(z), d='np4'))
                p.add('Amat', k='k', which='out', z=dict(a=[f32(z), f32(0.5 * (zlo + zhi))], d='f4'))
                p.add('Amat', k='k', which='in', z=dict(a=f32(z + (2e-4 if z == zhi else -2e-4)), d='np4'))

    def more(p, rows):
        """many templates at once with an interpolator"""
        for nt in rows:
            p.tmpl('t', nt=nt, n=6, itp=True)
            p.kc('k', 't', p.bands(1), zlo=0., zhi=0.25, nz=2)
    return (plans(e, 'wide', list(range(T(e, 8, 40))), wide, T(e, 4, 8)) + plans(e, 'more', T(e, [1002], [1000, 1001, 2001]), more, T(e, 1, 3)))


def w04(e):
    def hard(p, rows):
        r = p.r
        for i in rows:
            nt, nb = ((12, 14), (8, 9), (10, 4), (3, 15), (5, 5), (20, 10))[i % 6]
            p.tmpl('t', nt=nt, n=14)
            t = p.ops[-1]
            f = np.array(t['f'])
            if i % 3 == 1:                    # the same spectrum twice, or nearly
                f[1] = f[0]
                f[2] = f[0] * 3.
            elif i % 3 == 2:
                f[1] = f[0] * (1. + 1e-3 * r.uniform(-1., 1., f.shape[1]))
            f = f * 10.**r.uniform(-2., 2., (nt, 1)) if i % 2 else f
            t['f'] = f32m(f)
            p.kc('k', 't', p.bands(nb, prefix='h%d-' % i), nz=2)
            for n in (0, 1, 6):
                o = p.objects('k', max(n, 1), data='mixed')
                if n == 6:
                    m = np.array(o['m'])
                    m[1] = -m[1]               # nothing positive
                    m[2] *= 1e-6
                    o['m'] = f32m(m)
                    iv = np.array(o['iv'])
                    iv[2] *= 1e12
                    iv[3] = 0.                # nothing known
                    iv[4, 1:] = 0.            # one band
                    o['iv'] = f32m(iv)
                p.query('k', 'fit', o, scalar=n == 0)

    def solver(p, rows):
        """a solver that runs out of iterations"""
        for i in rows:
            varied_kc(p, 'k', i, nt=2 + i % 3, nb=3)
            for how in ('tight', 'broken', 'none'):
                p.add('Solver', how=how)
                for n in (0, 1, 3):
                    o = p.objects('k', max(n, 1), data=('normal', 'masked')[i % 2])
                    if n == 3 and i % 2:
                        o['z'][1] = 1.5
                    p.query('k', 'fit', o, scalar=n == 0)
                    p.query('k', 'fit', o, scalar=n == 0, opt=dict(mc=2))
            o = p.objects('k', 3)
            p.query('k', 'fit', o)

    def many(p, rows):
        for n in rows:
            varied_kc(p, 'k', n, nt=3, nb=4)
            p.query('k', 'fit', p.objects('k', n, data='mixed'))
    return (plans(e, 'hard', list(range(T(e, 12, 80))), hard, T(e, 3, 8)) + plans(e, 'solver', list(range(T(e, 4, 20))), solver, 1) +
            plans(e, 'many', T(e, [150, 520], [150, 1100, 3000]), many, 1))


def w05(e):
    def build(p, rows):
        r = p.r
        for i in rows:
            zlo, zhi, nz = ((0., 0.7, 100), (0., 0.7, 10), (-0.1, 2., 7), (0.1, 1., 10), (0.3, 0.9, 7), (0., 1.1, 12))[i % 6]
            p.tmpl('t', nt=2, n=9)
            p.kc('k', 't', p.bands(3, prefix='x%d-' % i), zlo=zlo, zhi=zhi, nz=min(nz, 100))
            n = 8
            o = p.objects('k', n)
            for j, z in enumerate((-9999., 1e10, zhi, zlo, zhi + 3e-4, zlo - 3e-4)):
                o['z'][int(j)] = f32(z)
            perm = [int(x) for x in r.permutation(n)]
            for k in ('z', 'm', 'iv', 'c', 'dist'):
                o[k] = [o[k][x] for x in perm]
            alt = {k: [list(x) if isinstance(x, list) else x for x in v] for k, v in o.items()}
            for j in range(n):
                b = int(r.randint(3))
                o['iv'][j][b] = alt['iv'][j][b] = 0.
                alt['m'][j][b] = f32(float(r.choice([1e30, -1e30, 1e37, -9999., 1e-38, -0.])))
            for mc in (0, 2):
                kw = dict(opt=dict(mc=mc)) if mc else {}
                ids = [p.new(), p.new()]
                sd = int(r.randint(1, 2**31 - 1))
                for x, y in zip(ids, (o, alt)):
                    p.add('Seed', seed=sd)
                    p.query('k', 'fit', y, id=x, **kw)
                for x in range(2 if mc else 1):
                    p.add('Same', what='masked values have no influence', x=dict(of=ids[1], n=x), y=dict(of=ids[0], n=x),
                          rtol=1e-6, atol=1e-30)
            for j in range(n):
                p.query('k', 'fit', alt, scalar=True, rows=j)

    def long(p, rows):
        """one bad object among many"""
        for n in rows:
            varied_kc(p, 'k', n, nt=2, nb=3)
            o = p.objects('k', n, data='normal')
            for j in p.r.permutation(n)[:4]:
                o['z'][int(j)] = float(p.r.choice([1.5, -0.5]))
            p.query('k', 'fit', o)
    return (plans(e, 'range', list(range(T(e, 6, 40))), build, T(e, 2, 6)) + plans(e, 'among', T(e, [40, 257], [40, 257, 1025]), long, 1))


def w06(e):
    def big(p, rows):
        r = p.r
        for n, nb, nt in rows:
            cls = ('base', 'sdss')[nb == 5]
            varied_kc(p, 'k', 3 * n + nb % 3, nb=nb, nt=nt, cls=cls, cosmo='flat')
            o = p.objects('k', n, data='mixed')
            o['z'] = f32s(np.clip(o['z'], 0.05, 0.8))
            for q in ('fit', 'recon', 'kcor', 'absmag', 'derived'):
                kw = {}
                if q == 'absmag':
                    kw['opt'] = OPTS[5]
                if q == 'recon':
                    kw = dict(which='out', opt=dict(band_shift=0.125))
                d = q in ('absmag', 'derived') and bool(r.randint(2))
                p.query('k', q, o, dist=d, **kw)
                # sorted, and alike
                if n < 200:
                    p.query('k', q, o, dist=d, rows=[int(x) for x in np.argsort(o['z'])], **kw)
                    p.query('k', q, o, dist=d, rows=[0] * 5 + [1] * 3, **kw)
                    p.query('k', q, o, dist=d, rows=[int(x) for x in np.argsort(o['z'])[::-1]], **kw)

    def square(p, rows):
        """as many objects as bands and templates"""
        for n in rows:
            varied_kc(p, 'k', n, nb=n, nt=n)
            o = p.objects('k', n, data='mixed')
            o['z'] = f32s(np.clip(o['z'], 0.05, 0.8))
            for q in ('fit', 'recon', 'kcor', 'absmag', 'derived'):
                p.query('k', q, o, dist=q == 'derived', **(dict(opt=OPTS[5]) if q == 'absmag' else {}))
    return (plans(e, 'big', T(e, [(130, 2, 2), (300, 3, 1), (1050, 5, 2), (70, 1, 3)],
                              [(130, 2, 2), (300, 3, 1), (1100, 5, 2), (70, 1, 3), (2100, 2, 2), (513, 3, 4), (4100, 1, 1)]), big, 4) +
            plans(e, 'square', [1, 2, 3, 4, 5], square, 1))


def w07(e):
    def none(p, rows):
        """no objects"""
        for i in rows:
            cls = ('base', 'sdss', 'base')[i % 3]
            varied_kc(p, 'k', i, cls=cls, ab=None if cls == 'base' else bool(i % 2))
            c = p.kcs['k']
            nb, nt = c['nb'], c['nt']
            E = lambda *s: dict(a=[], d=('f4', 'f8')[i % 2], shape=list(s))
            z, m, cc = E(0), E(0, nb), E(0, nt)
            A = lambda **kw: kw
            good = [('fit', A(redshift=z, maggies=m, ivar=m), {}), ('fit', A(redshift=z, maggies=m, ivar=m), dict(mc=2)),
                    ('recon', A(redshift=z, coeffs=cc), {}), ('kcor', A(redshift=z, coeffs=cc), dict(band_shift=0.125)),
                    ('absmag', A(redshift=z, coeffs=cc, maggies=m, ivar=m), {}),
                    ('absmag', A(redshift=z, coeffs=cc, maggies=m, ivar=m, distance=z), OPTS[5]),
                    ('derived', A(redshift=z, coeffs=cc), {}), ('derived', A(redshift=z, coeffs=cc, distance=z), {}),
                    ('absmag_mc', A(redshift=z, coeffs_mc=E(0, nt, 2), maggies_mc=E(0, nb, 2), ivar=m), dict(kcorrect=True)),
                    ('derived_mc', A(redshift=z, coeffs_mc=E(0, nt, 2)), {})]
            bad = [('fit', A(redshift=z, maggies=E(0, nb + 1), ivar=E(0, nb + 1)), {}), ('fit', A(redshift=z, maggies=E(1, nb), ivar=E(1, nb)), {}),
                   ('fit', A(redshift=z, maggies=m, ivar=E(1, nb)), {}), ('recon', A(redshift=z, coeffs=E(0, nt + 1)), {}),
                   ('recon', A(redshift=z, coeffs=E(0)), {}), ('kcor', A(redshift=z, coeffs=E(2, nt)), {}),
                   ('absmag', A(redshift=z, coeffs=cc, maggies=E(0, nb + 1), ivar=m), {}),
                   ('derived', A(redshift=z, coeffs=E(1, nt)), {})]
            for q, a, opt in good + bad:
                p.add('Query', k='k', q=q, a=a, opt=opt)

    def one(p, rows):
        """numbers of objects, bands and templates that could be confused"""
        for i in rows:
            nb, nt = ((1, 1), (1, 3), (3, 1), (2, 4), (4, 2), (3, 3))[i % 6]
            varied_kc(p, 'k', 3 * i, nb=nb, nt=nt)
            for n in sorted({1, nb, nt, nb * nt}):
                o = p.objects('k', n)
                for f, x in (('maggies', nt), ('ivar', nt), ('coeffs', nb), ('maggies', nb * n), ('coeffs', nt * n)):
                    q = 'fit' if f != 'coeffs' else ('recon', 'kcor', 'derived')[int(p.r.randint(3))]
                    for shp in ((x, n), (n, x), (x,), (n * x,), (1, n, x)):
                        w = nb if f != 'coeffs' else nt
                        if tuple(shp) == (n, w):
                            continue
                        v = f32s(p.r.uniform(0.5, 1.5, int(np.prod(shp))))
                        p.query('k', q, o, a={f: dict(a=np.array(v).reshape(shp).tolist(), d='f4')})
    return plans(e, 'none', list(range(T(e, 6, 18))), none, 1) + plans(e, 'sizes', list(range(T(e, 6, 12))), one, T(e, 2, 6))


def w08(e):
    def near(p, rows):
        r = p.r
        for i in rows:
            zlo, zhi = ((0., 1.), (0.2, 0.7), (0., 2.))[i % 3]
            varied_kc(p, 'k', i, zlo=zlo, zhi=zhi, nz=(3, 8)[i % 2])
            for bs in (0., 0.1, -0.0625, 0.5, 0.9, -0.3):
                lo, hi = (1. + zlo) / (1. + bs) - 1., (1. + zhi) / (1. + bs) - 1.
                for z in (hi - 2e-4, hi + 2e-4, lo + 2e-4, lo - 2e-4):
                    for n in (0, 2):
                        o = p.objects('k', max(n, 1))
                        o['z'][-1] = f32(z)
                        if n:
                            o['z'][0] = f32(0.5 * (lo + hi))
                        p.query('k', 'recon', o, scalar=n == 0, opt=dict(band_shift=bs), **(dict(which='out') if i % 2 else {}))
    return plans(e, 'near', list(range(T(e, 6, 40))), near, T(e, 2, 6))


def w09(e):
    def build(p, rows):
        r = p.r
        for i in rows:
            varied_kc(p, 'k', i, zlo=-0.125, zhi=1.5, nz=14, nb=3, nt=(1, 4)[i % 2])
            for z in (0., 0.25, 0.5, 1.):
                o = p.objects('k', 2)
                o['z'] = [f32(z)] * 2
                for bs in (z, 0., 0.1, -0.1):
                    p.query('k', 'kcor', o, opt=dict(band_shift=bs) if bs else {})
                    p.query('k', 'kcor', o, scalar=True, opt=dict(band_shift=bs))
            # one template at a time; of any size
            nt = p.kcs['k']['nt']
            o = p.objects('k', nt)
            o['c'] = f32m(np.diag(10.**r.uniform(-30., 15., nt)))
            p.query('k', 'kcor', o)
            # just outside
            for z in (1.5 + 2e-4, -0.125 - 2e-4, 1.5, -0.125):
                o['z'][-1] = f32(z)
                p.query('k', 'kcor', o)
                p.query('k', 'kcor', o, scalar=True, rows=nt - 1)
            o = p.objects('k', 2)
            for bs in (1.5 + 2e-4, -0.125 - 2e-4, 1.4, -0.12):
                p.query('k', 'kcor', o, opt=dict(band_shift=bs))
    return plans(e, 'ids', list(range(T(e, 6, 40))), build, T(e, 2, 6))


def w10(e):
    def build(p, rows):
        r = p.r
        for i in rows:
            cls = ('base', 'sdss', 'gst')[i % 3]
            varied_kc(p, 'k', i, cls=cls, zlo=-0.25, zhi=2.5, nz=6, cosmo=('flat', None, 'open')[i % 3], nt=2)
            o = p.objects('k', 6, data='mixed')
            for k, d in enumerate(('near', 'far', 'z0', 'highz')):
                if d == 'near':
                    o['dist'] = f32s(10.**r.uniform(-5., -1., 6))
                elif d == 'far':
                    o['dist'] = f32s(10.**r.uniform(3., 5., 6))
                elif d == 'z0':
                    o['z'] = [0.] * 6
                else:
                    o['z'] = f32s(r.uniform(1., 2.4, 6))
                kw = dict(opt=OPTS[5]) if i % 2 else {}
                p.query('k', 'absmag', o, dist=True, **kw)
                p.query('k', 'absmag', o, dist=True, scalar=True, rows=k, **kw)
                if d == 'highz':
                    p.query('k', 'absmag', o, **kw)
            # every pattern of what is missing
            nb = p.kcs['k']['nb']
            o = p.objects('k', 9)
            j = 0
            for x in (1., 0., -1.):
                for y in (1., 0.):
                    b = int(r.randint(nb))
                    o['m'][j][b] = f32(o['m'][j][b] * x)
                    o['iv'][j][b] = f32(o['iv'][j][b] * y)
                    j += 1
            o['m'][6] = [0.] * nb
            o['iv'][7] = [0.] * nb
            o['m'][8] = f32s(-np.array(o['m'][8]))
            o['z'] = f32s(r.uniform(0.05, 1., 9))
            for rec in (0, 5):
                p.query('k', 'absmag', o, opt=OPTS[rec])
            for j in range(9):
                p.query('k', 'absmag', o, scalar=True, rows=j, opt=OPTS[(0, 5)[j % 2]])
    return plans(e, 'far', list(range(T(e, 9, 60))), build, T(e, 3, 8))


def w12(e):
    def build(p, rows):
        r = p.r
        for i in rows:
            derived_bands(p, 'k', i)
            o = p.objects('k', 5, data='mixed')
            o['dist'] = f32s(10.**r.uniform(-5., 5., 5))
            o['c'] = f32m(np.array(o['c']) * 10.**r.uniform(-12., 12., (5, 1)))
            o['z'] = f32s([0., 0.01, 0.9, 0.3, 0.6])
            for bs in (0., 0.1, -0.1, 0.9):
                p.query('k', 'derived', o, dist=True, opt=dict(band_shift=bs))
                p.query('k', 'derived', o, dist=True, opt=dict(band_shift=bs), scalar=True, rows=int(r.randint(5)))
            o['z'][0] = 0.001
            p.query('k', 'derived', o)
            for j in range(5):
                p.query('k', 'derived', o, scalar=True, rows=j)
            p.query('k', 'derived', o, dist=True, opt=dict(band_shift=1.0625))      # beyond the matrix
    return plans(e, 'far', list(range(T(e, 6, 40))), build, T(e, 2, 6))


def w13(e):
    def build(p, rows):
        r = p.r
        for i in rows:
            varied_kc(p, 'k', 3 * i, nz=3, nb=3, nt=2, cls='base')
            n = (0, 1, 2)[i % 3]
            o = p.objects('k', max(n, 1), data=('normal', 'masked')[i % 2])
            ids = [p.new() for x in range(4)]
            sd = int(r.randint(1, 2**31 - 1))
            for j, x in enumerate(ids[:2]):
                p.add('Seed', seed=sd)
                p.query('k', 'fit', o, scalar=n == 0, opt=dict(mc=(30, 17, 8)[i % 3]), id=x, plain=True)
            for x in range(3):
                p.add('Same', what='draws follow the seed', x=dict(of=ids[0], n=x), y=dict(of=ids[1], n=x), rtol=1e-6, atol=1e-30)
            # identical objects in one call are drawn independently
            q = {k: [v[0]] * 3 for k, v in o.items()}
            p.seed()
            p.query('k', 'fit', q, opt=dict(mc=3), id=ids[2])
            for a, b in ((0, 1), (0, 2), (1, 2)):
                for d in range(3):
                    p.add('Differ', what='objects are drawn independently', x=dict(of=ids[2], n=2, row=a, draw=d),
                          y=dict(of=ids[2], n=2, row=b, draw=d))
            # and successive calls too
            p.query('k', 'fit', q, opt=dict(mc=3), id=ids[3])
            p.add('Differ', what='calls are drawn independently', x=dict(of=ids[2], n=2), y=dict(of=ids[3], n=2))
    return plans(e, 'draws', list(range(T(e, 9, 60))), build, T(e, 3, 8))


def w14(e):
    def build(p, rows):
        r = p.r
        for i in rows:
            cls = ('base', 'sdss', 'gst')[i % 3]
            varied_kc(p, 'k', i, cls=cls, ab=None if cls == 'base' else bool(i % 2), nt=(1, 3)[i % 2], zlo=-0.25, zhi=1., nz=6,
                      cosmo=(None, 'flat', 'open')[i % 3])
            n, mc = ((0, 30), (1, 17), (3, 9), (40, 2), (5, 5))[i % 5]
            o = p.objects('k', max(n, 1), data='mixed')
            o['z'] = f32s(r.uniform(0.02, 0.9, max(n, 1)))
            f = p.new()
            p.seed()
            p.query('k', 'fit', o, scalar=n == 0, opt=dict(mc=mc), id=f)
            for opt in (OPTS[0], dict(OPTS[5], limit=None)):
                for d in (False, True):
                    p.query('k', 'absmag', o, scalar=n == 0, dist=d, drop=('maggies', 'coeffs'), opt=opt, mcq=True,
                            a=dict(maggies_mc=dict(of=f, n=2), coeffs_mc=dict(of=f, n=1)))
            for d in (False, True):
                p.query('k', 'derived', o, scalar=n == 0, dist=d, drop=('coeffs',), opt=dict(band_shift=0.125 * d) if d else {}, mcq=True,
                        a=dict(coeffs_mc=dict(of=f, n=1)))
            if i % 3 == 0:                    # draws that are zero
                nt = p.kcs['k']['nt']
                c = r.uniform(0.5, 1., (max(n, 1), nt, 4))
                c[..., 1] = 0.
                c[0, :, 3] = 0.
                c = f32m(c.reshape(-1, 4))
                c = np.array(c).reshape(max(n, 1), nt, 4)
                a = dict(coeffs_mc=dict(a=(c if n else c[0]).tolist(), d='f4'))
                p.query('k', 'derived', o, scalar=n == 0, dist=True, drop=('coeffs',), mcq=True, a=a)
    return plans(e, 'draws', list(range(T(e, 15, 90))), build, T(e, 5, 8))


def w15(e):
    def build(p, rows):
        r = p.r
        for i in rows:
            kind = ('long', 'names', 'many', 'tight')[i % 4]
            if kind == 'long':
                d = os.path.join(*['%s%d' % (c * int(r.randint(40, 90)), i) for c in 'xyz'])
                b = [like(p, d, 'band', 5000.), like(p, d, 'band2', 6000.), like(p, 'q%d' % i, 'b', 7000.)]
            elif kind == 'names':
                b = namesakes(p, i)
            else:
                b = p.bands(14 if kind == 'many' else 2, prefix='s%d-' % i)
            b = [b[int(x)] for x in r.permutation(len(b))]
            p.tmpl('t', nt=(2, 1, 15, 3)[i % 4], n=9)
            zlo, zhi, nz = ((0., 0.7, 4), (0.1, 2.3, 5), (-0.3, 0.1, 3), (0., 1e-3, 2))[i % 4]
            kw = {}
            if i % 3 != 2:
                x = [int(r.randint(len(b))) for j in range(3)]
                kw = dict(out=[b[j] for j in x], map=[b[j] for j in x[::-1]])
            p.kc('k', 't', b, zlo=zlo, zhi=zhi, nz=nz, **kw)
            f = p.path('w%d.fits' % i)
            p.add('SaveKc', k='k', p=f)
            if i % 4 == 1:
                p.add('Restart')
            p.add('LoadKc', k='l', s='ls', p=f)
            p.kcs['l'] = p.kcs['k']
            p.add('CheckKc', k='l')
            o = p.objects('k', 2, data='mixed')
            o['dist'] = [10., 20.]
            for k in ('l',) if i % 4 == 1 else ('k', 'l'):
                p.query(k, 'fit', o, plain=True, qid='fit')
                p.query(k, 'recon', o, plain=True, which='out', qid='recon')
                if kind in ('long', 'names'):
                    o2 = dict(o, z=f32s([0.15, 0.5]))
                    if zlo <= 0.:
                        p.query(k, 'absmag', o2, plain=True, dist=True, qid='am')
                        p.query(k, 'derived', o2, plain=True, dist=True, qid='der')
    return plans(e, 'config', list(range(T(e, 8, 60))), build, T(e, 4, 8))


def w16(e):
    def build(p, rows):
        r = p.r
        for i in rows:
            f = p.path('wide%d%s' % (i, ('.fits', '.fit', ' with space.fits', '.x.fits')[i % 4]))
            nt, n = ((15, 6), (1, 400), (60, 5), (2, 4))[i % 4]
            tm = i % 2 == 0
            if tm:
                p.tmpl('a', nt=nt, n=n, layout=('table', 'binimage')[i // 2 % 2])
            else:
                p.ops.append(p.u.sed('a', nt=nt, n=n, d=('f4', 'f8')[i // 2 % 2]))
            p.add('SetZ', s='a', z=dict(a=(0., 1.75, 20.)[i % 3], d='py'))
            p.add('SaveSed', s='a', p=f, bin=(None, True)[i // 2 % 2])
            p.add('CheckSed', s='a')
            p.add('LoadSed', s='b', p=f, tmpl=tm)
            p.add('SaveSed', s='b', p=f, clobber=False)
            g = p.path('copy%d.fits' % i)
            p.add('SaveSed', s='b', p=g, clobber=False, bin=(True, None)[i // 2 % 2])
            p.add('LoadSed', s='c', p=g, tmpl=tm)
            p.add('SetZ', s='c', z=dict(a=0.5, d='py'))
            p.add('SaveSed', s='c', p=f)
            p.add('LoadSed', s='d', p=f, tmpl=tm)
            p.add('CheckSed', s='b')
    return plans(e, 'sizes', list(range(T(e, 8, 60))), build, T(e, 2, 6))


def w18(e):
    def names(p, rows):
        r = p.r
        for i in rows:
            n = namesakes(p, i)
            for x in r.permutation(len(n)):
                p.add('Load', n=n[int(x)], reload=(None, False, True)[int(r.randint(3))])
                p.add('CheckReg', n=n)
            for d in ('A%d' % i, 'B%d' % i, 'A%d/b' % i):
                p.add('List', d=p.path(d), check=True, how=('slash', 'dots', 'plain')[i % 3])
            w, v = p.u.band(5000.)
            p.add('WriteDat', p=n[0], w=w, v=v)
            p.add('Load', n=n[1], reload=True)
            p.add('Load', n=n[0])
            p.add('CheckReg', n=n)
            p.add('Load', n=n[0], reload=True)
            p.add('CheckReg', n=n)
            # the directories again
            p.add('List', d=p.path('A%d' % i), check=bool(i % 2), how=('dots', 'slash', 'plain')[i % 3])
            p.add('BadDat', p=n[2], how='text')
            p.add('Load', n=n[2])
            p.add('Load', n=n[2], reload=True)         # fails: the old one stays
            p.add('CheckReg', n=n)
            p.add('List', d=p.path('A%d' % i), check=True)

    def packaged(p, rows):
        p.add('Packaged')
        p.add('List', d='/repo/src/kcorrect/data/responses', how='default')
        p.add('List', d='/repo/src/kcorrect/data/responses', how='default', check=False)
    return plans(e, 'names', list(range(T(e, 6, 30))), names, 1) + plans(e, 'packaged', [0], packaged, 1)


def w19(e):
    def big(p, rows):
        r = p.r
        for n in rows:
            for cls in ('base', 'sdss', 'gst'):
                p.tmpl('t', nt=2, n=8)
                nb = {'base': 5, 'sdss': 5, 'gst': 10}[cls]
                p.kc('k', 't', p.bands(nb, prefix='%s%d-' % (cls, n)), cls=cls, ab=True, nz=2)
                o = p.objects('k', n, data='mixed')
                o['z'] = f32s(np.clip(o['z'], 0.05, 0.8))
                p.add('Func', f='to_ab', k='k', cls=cls, a=dict(maggies=dict(a=o['m'], d='f4'), ivar=dict(a=o['iv'], d='f4')))
                p.query('k', 'fit', o)
                f = p.new()
                p.query('k', 'fit', o, opt=dict(mc=2), id=f)
                p.query('k', 'absmag', o, dist=True, opt=dict(limit=True))
                p.query('k', 'absmag', o, dist=True, drop=('maggies', 'coeffs'), mcq=True,
                        a=dict(maggies_mc=dict(of=f, n=2), coeffs_mc=dict(of=f, n=1)))
                if nb == 5:
                    p.add('Func', f='sdss_ab', a=dict(maggies=dict(a=o['m'], d='f4'), ivar=dict(a=o['iv'], d='f8')))
    return plans(e, 'big', T(e, [60, 5], [60, 5, 1100]), big, T(e, 2, 3))


def w20(e):
    def big(p, rows):
        r = p.r
        for n in rows:
            d = lambda x: dict(a=f32m(x), d=str(r.choice(['f4', 'f8'])))
            a = dict(mag=d(r.uniform(8., 30., (n, 5))))
            b = dict(a, mag_err=d(10.**r.uniform(-4., 1., (n, 5))))
            c = dict(b, extinction=d(r.uniform(-0.2, 5., (n, 5))))
            for x in (a, b, c, dict(a, extinction=c['extinction'])):
                p.add('Func', f='asinh', a=x)
    return plans(e, 'big', T(e, [5, 64, 600], [5, 64, 1100, 3000]), big, 1)


def w21(e):
    def big(p, rows):
        r = p.r
        for n, nb in rows:
            m = r.uniform(-1., 1., (n, nb)) * 10.**r.uniform(-9., 3., (n, 1))
            fl = np.where(r.rand(nb) < 0.3, 0., 10.**r.uniform(-4., 1., nb))
            lim = 1. / (np.abs(m) * np.where(fl > 0., fl, 0.1))**2
            iv = np.where(r.rand(n, nb) < 0.2, 0., lim * 10.**r.uniform(-3., 3., (n, nb)))
            a = p.new()
            p.add('Func', f='floor', id=a, a=dict(maggies=dict(a=f32m(m), d='f4'), ivar=dict(a=f32m(iv), d='f4'),
                                                  floor=dict(a=f32s(fl), d='f4')))
    return plans(e, 'big', T(e, [(700, 5), (3, 40), (40, 40), (5, 5), (1, 12)], [(3000, 5), (3, 40), (40, 40), (5, 5)]), big, 1)


def w22(e):
    def big(p, rows):
        r = p.r
        for i in rows:
            b = namesakes(p, i) if i % 2 else p.bands(15, prefix='b%d-' % i)
            b = [b[int(x)] for x in r.randint(0, len(b), 20)]
            n = (3, 200, 20)[i % 3]
            m = dict(a=f32m(r.uniform(-1., 1., (n, 20))), d='f4')
            p.add('M2F', names=b, a=dict(maggies=m, ivar=dict(a=f32m(10.**r.uniform(-2., 3., (n, 20))), d='f4')))
            # changed and reloaded
            w, v = p.u.band(9000.)
            p.add('WriteDat', p=b[0], w=w, v=v)
            p.add('M2F', names=b, a=dict(maggies=m))
            p.add('Load', n=b[0], reload=True)
            p.add('M2F', names=b, a=dict(maggies=m))
    return plans(e, 'big', list(range(T(e, 6, 24))), big, T(e, 1, 4))


def w23(e):
    def kept(p, rows):
        """results that earlier calls gave stay as they are, and what the
        caller does to them does not matter"""
        r = p.r
        for i in rows:
            cls = ('base', 'sdss', 'gst')[i % 3]
            varied_kc(p, 'k', i, cls=cls, ab=None if cls == 'base' else True, nt=2)
            n = (0, 1, 3)[i % 3]
            o = p.objects('k', max(n, 1), data='mixed')
            o['z'] = f32s(np.clip(o['z'], 0.05, 0.8))

            def calls():
                for q in r.permutation(['fit', 'recon', 'recon_out', 'kcor', 'absmag', 'derived']):
                    q = str(q)
                    kw = dict(which='out') if q == 'recon_out' else {}
                    if q == 'absmag':
                        kw['opt'] = OPTS[5]
                    if q in ('recon', 'kcor'):
                        kw['opt'] = dict(band_shift=0.125 * (i % 2))
                    p.query('k', q.split('_')[0], o, scalar=n == 0, plain=True, qid=q, dist=i % 2 == 0 and q in ('absmag', 'derived'), **kw)
                f = p.new()
                p.query('k', 'fit', o, scalar=n == 0, opt=dict(mc=2), plain=True, id=f)
            calls()
            calls()
            p.add('Kept')
            calls()
            p.add('Scribble')
            p.add('CheckKc', k='k')
            p.add('CheckSed', s='tk')
            calls()
            p.add('Kept')

    def often(p, rows):
        """the same questions, hundreds of times"""
        for i in rows:
            varied_kc(p, 'k', i, nt=2, nb=2)
            varied_kc(p, 'l', i + 1, nt=2, nb=2)
            for j in range(T(e, 40, 300)):
                for k in ('k', 'l'):
                    ask(p, k, ('fit', 'kcor', 'absmag', 'derived', 'recon')[j % 5])
            p.add('CheckKc', k='k')
            p.add('CheckKc', k='l')
    return (plans(e, 'kept', list(range(T(e, 9, 60))), kept, T(e, 2, 6)) + plans(e, 'often', list(range(T(e, 1, 6))), often, T(e, 1, 4)))


def w24(e):
    def many(p, rows):
        r = p.r
        for i in rows:
            p.tmpl('t', nt=3, n=10)
            b = namesakes(p, i) if i % 2 else p.bands(9, prefix='o%d-' % i)
            n = (1, 11, 20)[i % 3]
            o = [int(x) for x in r.randint(0, len(b), n)]
            m = [int(x) for x in r.randint(0, 4, n)]
            p.kc('k', 't', b[:4], out=[b[x] for x in o], map=[b[x] for x in m], nz=2, zlo=0., zhi=1.)
            for x in (0, 2):
                q = p.objects('k', max(x, 1), data='mixed')
                p.query('k', 'kcor', q, scalar=x == 0)
                p.query('k', 'absmag', q, scalar=x == 0, dist=True, opt=OPTS[5])
                p.query('k', 'derived', q, scalar=x == 0, dist=True)
                p.query('k', 'recon', q, scalar=x == 0, which='out')
            for out, mp in ((b[:2], [b[0], b[7]]), (b[:2], [b[0]]), (b[:1], [b[0], b[1]]), (None, [b[0]]),
                            (b[:2], [b[0], p.path('nosuch')])):
                p.kc('bad', 't', b[:4], out=out, map=mp, nz=2, zlo=0., zhi=1.)
    return plans(e, 'many', list(range(T(e, 6, 40))), many, T(e, 2, 6))


def w25(e):
    def forms(p, rows):
        r = p.r
        for i in rows:
            nm = (1, 2, 4)[i % 3]
            words = ['%.2f' % x for x in np.cumsum(r.uniform(0.5, 3., 1221)) + 9.]
            for u in range(nm):
                words += ['%d' % (u + 1), '%d' % r.randint(2000, 50000), '%.2f' % r.uniform(-1., 5.), '%.1f' % r.uniform(-5., 1.),
                          '%.1f' % r.uniform(1., 4.), '%.5f' % r.uniform(0., 1.)]
                words += ['%.4E' % x for x in 10.**r.uniform(-20., -2., 1221)]
            sep = (' ', '\t', '  \t')[i % 3]
            end = ('\n', '\r\n')[i % 2]
            lines = [sep.join(words[j:j + 7]) for j in range(0, len(words), 7)]
            f = p.path('form%d' % i)
            with open(f, 'w', newline='') as fp:
                fp.write(end.join(lines) + (end * (i % 4)))
            p.add('Func', f='basel', p=f, a={})
    return plans(e, 'forms', list(range(T(e, 6, 24))), forms, T(e, 1, 3))


def w28(e):
    def many(p, rows):
        r = p.r
        for i in rows:
            hs = ['r%d' % j for j in range(6)]
            for j, h in enumerate(hs):
                w, v = p.u.band(float(r.uniform(3000., 9000.)), n=8)
                p.add('Arr', id='w%d' % j, a=dict(a=w, d='f8'))
                p.add('Arr', id='v%d' % j, a=dict(a=v, d='f8'))
                p.add('NewRsp', r=h, w=dict(ref='w%d' % j), v=dict(ref='v%d' % j))
            for j in range(6):
                p.add('SaveRsp', r=hs[j], p=p.path('m%d-%d.fits' % (i, j)))
            for j in r.permutation(6):
                p.add('RspFits', r='x%d' % j, p=p.path('m%d-%d.fits' % (i, j)))
            for j in range(6):                # the caller's arrays change
                p.add('Poke', id='w%d' % j, a=[float(x) for x in np.linspace(2000., 3000., 8)])
                p.add('Poke', id='v%d' % j, a=[0.5] * 8)
            for j in range(6):
                p.add('CheckRsp', r='x%d' % j)
                p.add('CheckRsp', r=hs[j])
    return plans(e, 'many', list(range(T(e, 3, 12))), many, 1)


WIDE = {n: f for n, f in (('C%s' % k[1:], v) for k, v in list(globals().items()) if k[0] == 'w' and k[1:].isdigit())}
