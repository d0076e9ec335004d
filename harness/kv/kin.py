"""Objects that are nearly alike, spectra that barely reach a band, readings
into objects that are there already, and settings of the process that are none
of kcorrect's business.  Each function returns further plans for one property."""
import numpy as np

from .plan import SFORMS
from .props import OPTS, T, groups, plans, varied_kc
from .universe import f32, f32m, f32s


def kin(p, k, kind, n):
    """n objects that differ in one respect only (Cases!Kin)"""
    r = p.r
    c = p.kcs[k]
    o = p.objects(k, n)
    o['z'] = f32s(np.clip(o['z'], c['zlo'] + 0.06, min(c['zhi'] - 0.06, 0.8)))
    o['iv'] = f32m(np.array(o['iv'])[0] * np.ones((n, 1)) * 10.**r.uniform(-1., 1., c['nb']))
    alike = {x: [v[0]] * n for x, v in o.items()}
    z0 = float(r.uniform(0.1, 0.7))

    def perms(v):
        return [[v[int(j)] for j in r.permutation(len(v))] for i in range(n)]
    if kind == 'same z':
        o['z'] = alike['z']
    elif kind == 'near z':
        o['z'] = f32s(z0 + np.array([0., 1.5e-3, 4e-4, -1.1e-3, 7e-3])[:n])
    elif kind == 'neighbours':                # all alike, and z nearly
        o = dict(alike, z=f32s(z0 + np.array([0., 2.5e-3, 6e-4, -1.9e-3, 1.2e-2])[:n]))
    elif kind == 'only z':
        o = dict(alike, z=o['z'])
    elif kind == 'only distance':
        o = dict(alike, dist=f32s(alike['dist'][0] * (1. + np.arange(n) * float(r.choice([3e-3, 0.5])))))
    elif kind == 'ivars permuted':
        o = dict(alike, iv=perms(o['iv'][0]))
    elif kind == 'maggies permuted':
        o = dict(alike, m=perms(o['m'][0]))
    elif kind == 'coefficients permuted':
        o = dict(alike, c=perms(f32s(r.uniform(0.2, 2., c['nt']))))
    elif kind == 'scaled':
        s = 2.**np.arange(n)[:, np.newaxis]
        o = dict(alike, m=f32m(np.array(alike['m']) * s), iv=f32m(np.array(alike['iv']) / s**2), c=f32m(np.array(alike['c']) * s))
    elif kind == 'grid':
        g = np.linspace(c['zlo'], c['zhi'], c.get('nz', 5))[1:-1]
        o['z'] = f32s([g[int(r.randint(len(g)))] for i in range(n)])
    elif kind in ('ascending', 'descending'):
        for x in o:
            if x != 'iv':
                v = np.sort(np.array(o[x]), axis=0)
                o[x] = (v if kind == 'ascending' else v[::-1]).tolist()
    elif kind == 'flat':
        o['m'] = [[v[0]] * len(v) for v in o['m']]
        o['iv'] = [[v[0]] * len(v) for v in o['iv']]
        o['c'] = [[v[0] or 1.] * len(v) for v in o['c']]
    elif kind == 'ends':
        o['z'][0], o['z'][-1] = f32(c['zlo'] + 1e-3), f32(min(c['zhi'] - 1e-3, 0.99))
    elif kind == 'one zero':
        o['c'][int(r.randint(n))] = [0.] * c['nt']
        o['m'][int(r.randint(n))] = [0.] * c['nb']
    elif kind == 'one masked':
        o = {x: [list(y) if isinstance(y, list) else y for y in v] for x, v in alike.items()}
        for i in range(1, n):
            o['iv'][i][(i - 1) % c['nb']] = 0.
    elif kind == 'one sign':
        o = {x: [list(y) if isinstance(y, list) else y for y in v] for x, v in alike.items()}
        for i in range(1, n):
            o['m'][i][(i - 1) % c['nb']] *= -1.
    elif kind == 'all equal':
        o = alike
    elif kind == 'last differs':
        o = {x: [v[0]] * (n - 1) + [v[-1]] for x, v in o.items()}
    elif kind == 'extreme':
        s = (10.**r.uniform(-14., 14., n))[:, np.newaxis]
        o['m'], o['iv'], o['c'] = f32m(np.array(o['m']) * s), f32m(np.array(o['iv']) / s**2), f32m(np.array(o['c']) * s)
    else:
        raise ValueError(kind)
    o['z'] = f32s(o['z'])
    return o


def kin_plans(e, qs, quick, classes=('base',), bs=True, mcq=False, singles=True, plain=False):
    """the kin table for these queries"""
    rows = e.select('kin', quick, None, where=lambda c: c['q'] in qs)

    def build(p, rows):
        r = p.r
        for g, part in groups(p, rows, 7):
            cls = classes[g % len(classes)]
            varied_kc(p, 'k', g, cls=cls, ab=None if cls == 'base' else bool((g + 1) % 3), zlo=(-0.25, 0.)[bs is False], zhi=1.25,
                      nz=7, nb={'base': (2, 3, 5)[g % 3]}.get(cls), nt=(2, 3, 4)[(g // 2) % 3], cosmo=(None, 'flat', 'open')[g % 3])
            p.kcs['k']['nz'] = 7
            for c in part:
                n = c['n']
                o = kin(p, 'k', c['kind'], n)
                q, kw = c['q'], {}
                opt = {}
                if q == 'recon_out':
                    q, kw = 'recon', dict(which='out')
                elif q == 'fitmc':
                    q, opt = 'fit', dict(mc=int(r.choice([1, 2, 3])))
                elif q == 'absmag':
                    opt = dict(OPTS[int(r.randint(len(OPTS)))])
                if bs and q != 'fit' and r.rand() < 0.4:
                    opt['band_shift'] = float(r.choice([0.125, 0.0625, -0.125]))
                if q in ('absmag', 'derived'):
                    kw['dist'] = c['kind'] == 'only distance' or bool(r.randint(2))
                kw.update(opt=opt, plain=plain)
                p.query('k', q, o, **kw)
                p.query('k', q, o, rows=list(range(n))[::-1], **kw)
                if singles:
                    for j in r.permutation(n)[:3]:
                        p.query('k', q, o, scalar=True, rows=int(j), **kw)
                if mcq and q in ('absmag', 'derived'):
                    # as draws of one another
                    kw['opt'] = {x: v for x, v in opt.items() if x != 'limit'}
                    a = dict(coeffs_mc=dict(a=np.moveaxis(np.array([o['c'], o['c'][::-1]]), 0, -1).tolist(), d='f4'))
                    if q == 'absmag':
                        a['maggies_mc'] = dict(a=np.moveaxis(np.array([o['m'], o['m'][::-1]]), 0, -1).tolist(), d='f4')
                    p.query('k', q, o, drop=('maggies', 'coeffs'), mcq=True, a=a, **kw)
    return plans(e, 'kin', rows, build, T(e, 3, 8))


def k01(e):
    rows = e.select('edges', 135, None)

    def build(p, rows):
        r = p.r
        for i, c in enumerate(rows):
            k = int(r.choice([6, 9, 14]))
            t = np.linspace(0., 1., k)
            lo = float(np.round(r.uniform(3500., 8000.)))
            hi = float(np.round(lo * r.uniform(1.1, 1.5)))
            v = {'closed': np.sin(np.pi * t)**2, 'open': r.uniform(0.3, 1., k), 'low': 0.2 + t * (1. - t), 'high': 1. - 0.6 * np.abs(t - 0.5)}
            v = [round(float(x), 4) for x in v[c['ends']]]
            w = np.round(lo + (hi - lo) * t, 1)
            n = p.path('e%d' % i)
            p.add('WriteDat', p=n, w=[float(x) for x in w], v=v)
            p.add('Load', n=n)
            d = hi - lo
            nl, ni, nr = c['left'], c['in'], c['right']
            if nl + ni + nr < 4 and nl and nr:
                nl += 4 - nl - ni - nr if i % 2 else 0
                nr += max(0, 4 - nl - ni - nr)
            if nl + ni + nr < 4:
                continue
            x = np.concatenate([lo - d * np.sort(r.uniform(0.05, 0.6, nl))[::-1],
                                lo + d * (np.arange(ni) + r.uniform(0.15, 0.85, ni)) / max(ni, 1),
                                hi + d * np.sort(r.uniform(0.05, 0.6, nr))])
            x = np.array(f32s(x))
            if (np.diff(x) < 2.).any() or (np.abs(x - lo) < 1.).any() or (np.abs(x - hi) < 1.).any():
                continue
            f = [f32s((x / 5000.)**float(s) * (1. + 0.3 * r.uniform(-1., 1., len(x))) * 1e-9) for s in r.uniform(-3., 3., 2)]
            z = f32(r.uniform(0.05, 1.5)) if i % 3 == 0 else 0.
            xr = np.array(f32s(x / (1. + z)))
            if i % 2:
                p.add('NewSed', s='s', kind='arrays', w=f32s(xr), f=f, d='f4')
                if z:
                    p.add('SetZ', s='s', z=dict(a=z, d=str(r.choice(SFORMS))))
                p.add('Project', via='sed', s='s', n=n)
            else:
                p.add('Project', via='raw', n=n, w=dict(a=f32s(x), d='f4'), f=dict(a=f, d=('f4', 'f8')[i % 4 == 0]))
    return plans(e, 'edges', rows, build, T(e, 2, 6))


def k02(e):
    def into(p, rows):
        """other spectra are read into a set that is there"""
        r = p.r
        b = p.bands(2)
        for n in b:
            p.add('Load', n=n)
        for i in rows:
            tm = False                        # (a template set keeps its properties)
            fs = [p.path('i%d-%d.fits' % (i, j)) for j in range(3)]
            same = i % 3 == 0                 # the same grid, other spectra
            w = f32s(p.u.grid(11))
            for j, f in enumerate(fs):
                kw = dict(nt=(2, 2, 2)[j] if same else 1 + j, n=9 + j)
                if tm:
                    p.ops.append(p.u.template('x', p.path('x.fits'), w=w if same else None, **kw))
                else:
                    p.ops.append(p.u.sed('x', **kw))
                p.add('SaveSed', s='x', p=f, bin=(None, True)[j % 2])
            itp = (None, True, False)[i % 3]
            p.add('LoadSed', s='a', p=fs[0], tmpl=tm, itp=itp)
            for j in (1, 0, 2, 2, 1):
                if r.rand() < 0.7:
                    p.add('SetZ', s='a', z=dict(a=float(r.choice([0.5, 1.25, 0.])), d='py'))
                if r.rand() < 0.5:
                    p.add('SetInterp', s='a')
                p.add('LoadSed', s='a', p=fs[j], tmpl=tm, into=True)
                p.add('SetInterp', s='a')
                p.add('Interp', s='a', w=[float(x) for x in r.uniform(1600., 15000., 5)])
                p.add('Project', via='sed', s='a', n=b[j % 2])
                z = f32(r.uniform(0.1, 1.))
                p.add('SetZ', s='a', z=dict(a=z, d='np4'))
                p.add('Interp', s='a', w=[float(x) for x in r.uniform(1600. * (1. + z), 15000., 5)])
                p.add('Project', via='sed', s='a', n=b[j % 2])
            p.add('LoadSed', s='a', p=p.path('missing.fits'), tmpl=tm, into=True)
            p.add('CheckSed', s='a')
            p.add('Project', via='sed', s='a', n=b[0])

    def close(p, rows):
        """redshifts that are nearly the same, and the same again"""
        r = p.r
        for i in rows:
            p.ops.append(p.u.sed('a', nt=2, n=9, d=('f4', 'f8')[i % 2]))
            p.ops.append(p.u.sed('b', nt=2, n=9))
            z = f32(r.uniform(0.1, 2.))
            for x in (z, z, f32(z + 2e-5), f32(z + 6e-5), 0., 3e-5, 0., f32(z)):
                for s in 'ab':
                    p.add('SetZ', s=s, z=dict(a=x, d=str(r.choice(SFORMS))))
                    p.add('Interp', s=s, w=[float(y) for y in r.uniform(1700. * (1. + z), 9000. * (1. + z), 4)])
    return plans(e, 'into', list(range(T(e, 9, 60))), into, T(e, 2, 4)) + plans(e, 'close', list(range(T(e, 4, 30))), close, 1)


def k03(e):
    def build(p, rows):
        """bands that come into sight, and go out of it"""
        r = p.r
        for i in rows:
            lo, hi = (1500., 9000.)
            nt = 1 + i % 3
            p.tmpl('t', nt=nt, n=14, lo=lo, hi=hi, itp=(None, True, False)[i % 3])
            t = p.ops[-1]
            f = np.array(t['f'])
            w = np.array(t['w'])
            if i % 2:                         # a spectrum without light, or with little
                f[0] = 0.
            if i % 4 == 2:
                f[-1] = np.where(w < 6000., 0., f[-1])
            t['f'] = f32m(f)
            b = [p.u.write(p.d, 'y%d-%d' % (i, j), c) for j, c in enumerate((hi * 1.4, 5000., lo * 1.35, hi * 1.03, lo * 0.99, hi * 3.))]
            p.ops += b
            b = [x['p'] for x in b]
            b = [b[int(x)] for x in r.permutation(6)]
            p.kc('k', 't', b, zlo=(0., -0.125)[i % 2], zhi=(1.25, 1.)[i % 2], nz=(6, 4, 11)[i % 3], out=b[::-1], map=b)
            p.add('CheckKc', k='k')
            o = p.objects('k', 2)
            p.query('k', 'recon', o)
            p.query('k', 'fit', o)
    return plans(e, 'sight', list(range(T(e, 9, 60))), build, T(e, 3, 6))


def k16(e):
    def square(p, rows):
        """as many spectra as wavelengths"""
        for i in rows:
            n = (4, 5, 6, 9)[i % 4]
            tm = i % 2 == 0
            f = p.path('sq%d.fits' % i)
            nt = n if i % 3 else n + (1 if i % 2 else -1)
            lay = i // 2 % 2
            if tm:
                p.tmpl('a', nt=nt, n=n, layout=('table', 'binimage')[lay])
            else:
                p.ops.append(p.u.sed('a', nt=nt, n=n))
            p.add('SaveSed', s='a', p=f, bin=(None, True)[lay])
            p.add('LoadSed', s='b', p=f, tmpl=tm)
            p.add('SaveSed', s='b', p=f, bin=(True, None)[lay])
            p.add('LoadSed', s='c', p=f, tmpl=tm)
            p.add('LoadSed', s='b', p=f, tmpl=tm, into=True)
            p.add('SetZ', s='b', z=dict(a=1.5, d='py'))
            p.add('LoadSed', s='b', p=f, tmpl=tm, into=True)
            p.add('LoadSed', s='b', p=p.path('missing.fits'), tmpl=tm, into=True)
            p.add('CheckSed', s='b')
    return plans(e, 'square', list(range(T(e, 8, 40))), square, T(e, 1, 4))


def k25(e):
    def numbers(p, rows):
        """numbers in every usual notation"""
        r = p.r
        for i in rows:
            words = [('%.2f', '%.4f', '%.6e', '%.1f')[i % 4] % x for x in np.cumsum(r.uniform(0.5, 3., 1221)) + 9.]
            for u in range((2, 3, 40)[i % 3]):
                no = int((1, 99999, 7, 0)[(u + i) % 4]) + u
                words += [str(no), ('%.1f', '%.3E', '%d.', '%.2f')[(u + i) % 4] % r.uniform(2000., 50000.),
                          ('%+.2f', '%.3f', '%g', '%.1E')[u % 4] % r.uniform(-1., 5.), ('%.2f', '%+.1f')[u % 2] % r.uniform(-5., 1.),
                          ('%.2f', '%.1f')[u % 2] % r.uniform(0., 4.), ('%.5f', '%.3e')[u % 2] % r.uniform(0., 1.)]
                x = 10.**r.uniform(-30., 3., 1221) * (r.rand(1221) > 0.05)
                words += [('%.4E', '%.6e', '%g', '%.3E')[u % 4] % y for y in x]
            f = p.path('n%d' % i)
            with open(f, 'w') as fp:
                fp.write('\n'.join(' '.join(words[j:j + 9]) for j in range(0, len(words), 9)))
            p.add('Func', f='basel', p=f, a={})
    return plans(e, 'numbers', list(range(T(e, 6, 24))), numbers, T(e, 2, 3))


def k29(e):
    def faint(p, rows):
        r = p.r
        for i in rows:
            varied_kc(p, 'k', 3 * i, nb=(3, 4)[i % 2], nt=(1, 3)[i % 2])
            o = p.objects('k', 2, data=('normal', 'masked')[i % 2])
            a = p.new()
            p.query('k', 'fit', o, id=a, plain=True)
            # 1e-20: the inverse variances must remain single precision numbers
            for s in (1e-15, 1e-13, 1e-10, 1e-5, 1e6, 1e12, 1e15):
                s = 2.**float(np.round(np.log2(s)))
                t = dict(o, m=f32m(np.array(o['m']) * s), iv=f32m(np.array(o['iv']) / s**2))
                b = p.new()
                p.query('k', 'fit', t, id=b, plain=True)
                p.add('Same', what='brighter by a factor: coefficients', x=dict(of=b), y=dict(of=a), rel='times', by=s,
                      rtol=1e-3, atol=1e-4 * s)
                p.query('k', 'absmag', t, a=dict(coeffs=dict(of=b)), drop=('coeffs',), opt=dict(reconstruct=True, limit=True))
    return plans(e, 'faint', list(range(T(e, 6, 40))), faint, T(e, 2, 4))


def ambient(e, qs=('absmag', 'derived'), cosmo=(None,), n=6):
    def build(p, rows):
        """settings that are none of kcorrect's business"""
        r = p.r
        for i in rows:
            for how in [('cosmology', 'cwd', 'print', 'errors', 'environment', 'rng')[int(x)] for x in r.permutation(6)]:
                p.add('Ambient', how=how)
                if r.rand() < 0.5:
                    varied_kc(p, 'k', i, cls='base', nb=2, nt=2, cosmo=cosmo[i % len(cosmo)])
                elif 'k' not in p.kcs:
                    continue
                for q in qs:
                    o = p.objects('k', 2)
                    o['z'] = f32s(np.clip(o['z'], 0.05, 0.9))
                    p.query('k', q, o, plain=True)
            p.add('CheckKc', k='k') if 'k' in p.kcs else None
    return plans(e, 'ambient', list(range(T(e, n, 5 * n))), build, T(e, 1, 4))


def k30(e):
    def build(p, rows):
        for i in rows:
            p.add('Ambient', how='cosmology')
            p.add('Ambient', how='cwd')
            p.add('PkgDat', n='sdss_r0')
            p.add('NewSed', s='t', kind='default')
            p.nt['t'] = 5
            j = 700
            c = 2. / 3999.
            p.add('NewDefault', k='k', s='t', cls='base', resp=['sdss_r0'], z=[f32(0.), f32(2.)])
            p.add('NewSed', s='u', kind='default')
            p.nt['u'] = 5
            p.kc('n', 'u', ['sdss_r0'], zlo=f32(c * j), zhi=f32(c * (j + 1)), nz=2)
            p.kcs['k'] = p.kcs['n']
            o = p.objects('n', 2)
            a, b = p.new(), p.new()
            p.query('n', 'fit', o, id=a, plain=True)
            p.query('k', 'fit', o, id=b, plain=True)
            p.add('Same', what='default object answers as one with the defaults spelt out', x=dict(of=b), y=dict(of=a), rtol=1e-3, atol=1e-4)
            # what distances follow without a cosmology: the documented one
            p.add('Cosmo', k='k', z=f32s(p.r.uniform(0.01, 1.9, 6)))
    return plans(e, 'ambient', [0], build, 1)


KIN = {'C01': k01, 'C02': k02, 'C03': k03, 'C16': k16, 'C25': k25, 'C29': k29,
       'C04': lambda e: kin_plans(e, ('fit',), 40, classes=('base', 'sdss')),
       'C06': lambda e: kin_plans(e, ('fit', 'recon', 'kcor', 'absmag', 'derived'), 90, classes=('base', 'base', 'sdss')),
       'C08': lambda e: kin_plans(e, ('recon', 'recon_out'), 60),
       'C09': lambda e: kin_plans(e, ('kcor',), 40),
       'C10': lambda e: kin_plans(e, ('absmag',), 40, classes=('base', 'sdss', 'gst')) + ambient(e, ('absmag',)),
       'C11': lambda e: kin_plans(e, ('absmag',), 40, classes=('base', 'sdss')),
       'C12': lambda e: kin_plans(e, ('derived',), 40) + ambient(e, ('derived',), ('flat', None)),
       'C13': lambda e: kin_plans(e, ('fitmc',), 40, classes=('base', 'sdss'), singles=False),
       'C14': lambda e: kin_plans(e, ('absmag', 'derived'), 50, classes=('base', 'sdss'), mcq=True, singles=False),
       'C19': lambda e: kin_plans(e, ('fit', 'absmag'), 40, classes=('sdss', 'gst', 'sdss')),
       'C23': lambda e: kin_plans(e, ('fit', 'recon', 'recon_out', 'kcor', 'absmag', 'derived'), 120, plain=True),
       'C24': lambda e: kin_plans(e, ('recon_out', 'kcor', 'absmag', 'derived'), 60),
       'C30': k30}
