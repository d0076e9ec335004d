"""Building plans: sequences of public calls with concrete arguments."""
import os

import numpy as np

from .universe import Universe, f32, f32m, f32s

AFORMS = ('f4', 'list', 'f8', 'f4ro', 'f4F', 'f4s', 'be4')
ZFORMS = ('f4', 'list', 'f8', 'tuple', 'f4ro', 'be4', 'f4s')
SFORMS = ('py', 'np4', 'np8', 'f4', 'f8')
MCFORMS = ('f4', 'f8', 'f4ro', 'f4F', 'be4')


class Plan(object):
    def __init__(self, rng, d):
        self.u = Universe(rng)
        self.r = rng
        self.d = d
        self.ops = []
        self.kcs = {}
        self.nt = {}
        self.count = 0

    def path(self, name):
        return os.path.join(self.d, name)

    def add(self, op, **kw):
        kw['op'] = op
        self.ops.append(kw)
        return kw

    def new(self, prefix='r'):
        self.count += 1
        return '%s%d' % (prefix, self.count)

    # -- things ------------------------------------------------------------
    def bands(self, k, **kw):
        names, ops = self.u.bands(self.d, k, **kw)
        self.ops += ops
        return names

    def tmpl(self, s='t', nt=3, **kw):
        self.ops.append(self.u.template(s, self.path(s + '.fits'), nt=nt, **kw))
        self.nt[s] = nt

    def kc(self, k, s, resp, out=None, map=None, zlo=0., zhi=1., nz=9, **kw):
        op = dict(op='NewKc', k=k, s=s, resp=resp, zlo=zlo, zhi=zhi, nz=nz, **kw)
        if out is not None:
            op['out'] = out
        if map is not None:
            op['map'] = map
        self.ops.append(op)
        nb = len(resp) if resp is not None else {'sdss': 5, 'gst': 10}[kw.get('cls')]
        self.kcs[k] = dict(nb=nb, no=len(out) if out is not None else nb, nt=self.nt[s], zlo=zlo, zhi=zhi, s=s)

    # -- numbers -------------------------------------------------------------
    def zs(self, k, n, lo=None, hi=None):
        c = self.kcs[k]
        lo = c['zlo'] if lo is None else lo
        hi = c['zhi'] if hi is None else hi
        e = 0.02 * (hi - lo)
        return f32s(self.r.uniform(lo + e, hi - e, n))

    def objects(self, k, n, data='normal', z=None, scale=1.):
        """n objects: redshifts, maggies, ivars, coefficients, distances"""
        c = self.kcs[k]
        r = self.r
        nb, nt = c['nb'], c['nt']
        m = r.uniform(0.1, 1., (n, nb)) * scale
        sn = 10.**r.uniform(0.5, 2., (n, nb))
        iv = (sn / m)**2
        co = np.array(self.u.coeffs(n, nt, scale=scale))
        for i in range(n):
            what = data
            if data == 'mixed':
                what = ('normal', 'masked', 'zerom', 'negm', 'zeroc')[int(r.randint(5)) if i else 4]
            b = int(r.randint(nb))
            if what == 'masked':
                iv[i, b] = 0.
                if nb > 2 and r.rand() < 0.5:
                    iv[i, (b + 1) % nb] = 0.
            elif what == 'zerom':
                m[i, b] = 0.
            elif what == 'negm':
                m[i, b] = -m[i, b]
            elif what == 'zeroc':
                co[i, :] = 0.
        return dict(z=self.zs(k, n) if z is None else f32s(z), m=f32m(m), iv=f32m(iv), c=f32m(co),
                    dist=f32s(10.**r.uniform(0., 3.5, n)))

    def args(self, o, names, scalar=False, plain=False, rows=None):
        """keyword arguments of a query for the objects o"""
        key = dict(redshift='z', maggies='m', ivar='iv', coeffs='c', distance='dist')
        a = {}
        for n in names:
            v = o[key[n]]
            if scalar:
                v = v[rows or 0]
                forms = SFORMS if n in ('redshift', 'distance') else AFORMS
            else:
                if rows is not None:
                    v = [v[i] for i in rows]
                forms = ZFORMS if n in ('redshift', 'distance') else AFORMS
            a[n] = dict(a=v, d='f4' if plain else str(self.r.choice(forms)))
        return a

    NAMES = dict(fit=('redshift', 'maggies', 'ivar'), recon=('redshift', 'coeffs'), kcor=('redshift', 'coeffs'),
                 absmag=('redshift', 'maggies', 'ivar', 'coeffs'), derived=('redshift', 'coeffs'))

    def query(self, k, q, o, scalar=False, dist=False, plain=False, rows=None, drop=(), a=None, **kw):
        names = self.NAMES[q] + (('distance',) if dist else ())
        args = self.args(o, [n for n in names if n not in drop], scalar, plain, rows)
        if a:
            args.update(a)
        if kw.pop('mcq', False):
            q += '_mc'
        op = dict(op='Query', k=k, q=q, a=args)
        opt = {n: v for n, v in kw.pop('opt', {}).items() if v is not None}
        if opt:
            op['opt'] = opt
        op.update(kw)
        self.ops.append(op)
        return op

    def seed(self):
        self.add('Seed', seed=int(self.r.randint(1, 2**31 - 1)))


def shard(rows, n):
    return [rows[i::n] for i in range(n) if rows[i::n]]
