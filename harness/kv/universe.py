"""Synthetic spectra and bandpasses with properties the packaged data do not
have, and the argument forms they are passed in.  Nothing here knows what the
code should answer."""
import os

import numpy as np


def f32(x):
    """value representable in float32"""
    return float(np.float32(x))


def f32s(v):
    return [f32(x) for x in np.asarray(v, dtype=float).ravel()]


def f32m(m):
    return [f32s(r) for r in np.asarray(m, dtype=float)]


class Universe(object):
    def __init__(self, rng):
        self.r = rng

    # -- spectra ------------------------------------------------------------
    def grid(self, n, lo=1500., hi=16000.):
        """n increasing wavelengths, irregular"""
        t = np.sort(self.r.uniform(0., 1., n))
        t = 0.7 * np.linspace(0., 1., n) + 0.3 * t
        t = (t - t[0]) / (t[-1] - t[0])
        w = lo * (hi / lo)**t
        return np.float32(np.round(w, 1)).astype(float)

    def flux(self, w, k, scale=1e-9):
        """k positive spectra of distinct shapes"""
        out = []
        x = np.log(w / 5000.)
        for j in range(k):
            slope = (-3., 0.5, 2., -1., 1.2, -0.3)[j % 6] + 0.3 * self.r.uniform(-1., 1.)
            f = np.exp(slope * x)
            for i in range(2):
                c = self.r.uniform(np.log(0.45), np.log(2.2))
                f = f * (1. + self.r.uniform(0.2, 2.) * np.exp(-0.5 * ((x - c) / self.r.uniform(0.12, 0.3))**2))
            f = f * scale * self.r.uniform(0.5, 2.)
            out.append(f32s(f))
        return out

    def template(self, s, path, nt=3, n=20, lo=1500., hi=16000., scale=1e-9, props=None, layout='table', itp=None,
                 w=None):
        w = f32s(self.grid(n, lo, hi) if w is None else w)
        f = self.flux(np.array(w), nt, scale)
        if props is None:
            props = self.props(nt)
        op = dict(op='NewSed', s=s, kind='template', file=path, w=w, f=f, props=props, layout=layout)
        if itp is not None:
            op['itp'] = itp
        return op

    def sed(self, s, nt=2, n=16, lo=1500., hi=16000., scale=1e-9, d='f4', itp=None, flat=False):
        w = f32s(self.grid(n, lo, hi))
        f = self.flux(np.array(w), nt, scale)
        op = dict(op='NewSed', s=s, kind='arrays', w=w, f=f[0] if flat else f, d=d)
        if itp is not None:
            op['itp'] = itp
        return op

    def props(self, nt):
        r = self.r
        isf = f32s(r.uniform(0.5, 2., nt))
        return dict(intsfh=isf, mremain=f32s(np.array(isf) * r.uniform(0.3, 0.9, nt)),
                    mets=f32s(r.uniform(0.005, 0.05, nt)), m50=f32s(r.uniform(0., 0.05, nt)),
                    m300=f32s(r.uniform(0.05, 0.15, nt)), m1000=f32s(r.uniform(0.15, 0.3, nt)))

    # -- bandpasses -------------------------------------------------------------
    def band(self, centre, n=9, width=0.3, peak=0.5, shape='hump'):
        """(wavelengths, response), tapered to zero at both ends"""
        n = max(n, 5)
        t = np.linspace(-1., 1., n) + np.concatenate([[0.], self.r.uniform(-0.25, 0.25, n - 2) / (n - 1) * 2., [0.]])
        w = centre * (1. + 0.5 * width * t)
        if shape == 'hump':
            p = peak * np.cos(0.5 * np.pi * t)**2 * (1. + 0.3 * t)
        elif shape == 'box':
            p = peak * np.where(np.abs(t) < 0.75, 1., 0.) * (1. + 0.1 * t)
        elif shape == 'double':
            p = peak * (np.exp(-0.5 * ((t + 0.5) / 0.15)**2) + 0.8 * np.exp(-0.5 * ((t - 0.45) / 0.18)**2))
        else:
            raise ValueError(shape)
        p[0] = p[-1] = 0.
        return [round(float(x), 2) for x in w], [round(float(abs(x)), 6) for x in p]

    def write(self, d, name, centre, **kw):
        w, v = self.band(centre, **kw)
        return dict(op='WriteDat', p=os.path.join(d, name), w=w, v=v)

    def bands(self, d, k, lo=3600., hi=9000., prefix='b'):
        """k bands over the optical; returns (names, ops)"""
        c = np.exp(np.linspace(np.log(lo), np.log(hi), k))
        ops = [self.write(d, '%s%d' % (prefix, i), float(c[i] * self.r.uniform(0.97, 1.03)),
                          n=int(self.r.choice([7, 9, 12])), width=float(self.r.uniform(0.18, 0.35)),
                          shape=('hump', 'hump', 'box', 'double')[i % 4])
               for i in range(k)]
        return [o['p'] for o in ops], ops

    # -- arguments ----------------------------------------------------------------
    def form(self, a, forms=('f4', 'list', 'f8', 'f4ro', 'f4F', 'f4s', 'be4')):
        """a described array argument in one of the accepted forms"""
        return dict(a=a, d=str(self.r.choice(forms)))

    def coeffs(self, n, nt, zero=0.25, scale=1.):
        """rows of nonnegative coefficients, some entries zero, no zero row"""
        c = self.r.uniform(0.2, 2., (n, nt)) * scale
        c[self.r.uniform(0., 1., (n, nt)) < zero] = 0.
        for i in range(n):
            if not c[i].any():
                c[i, self.r.randint(nt)] = scale
        return f32m(c)
