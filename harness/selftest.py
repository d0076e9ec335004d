#!/usr/bin/env python3
"""Tests of the machinery itself, independent of the code in /repo (run as
setup_cmd).  The specification's arithmetic agrees with integers and with facts
of mathematics (F64Test); the optimality conditions are the minimum (KKT); the
session model holds, and each deliberate mistake in it is refuted; a recorded
trace of correct behaviour is accepted and every tampered line of it rejected.

selftest.py --record   re-records selftest/trace.ndjson from /repo"""
import concurrent.futures
import copy
import json
import os
import random
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from kv.engine import Engine, MachineryError, VERIF
from kv.plan import Plan

TRACE = os.path.join(VERIF, 'selftest', 'trace.ndjson')

# (name, model, text in Session.tla, mistake put in its place)
MUTANTS = [
    ('templates left redshifted after a construction', 'MCSession', 'IN [A |-> st.A, s |-> Redshifted(st.s, Z0)]', 'IN [A |-> st.A, s |-> st.s]'),
    ('matrix built on the observed frame', 'MCSession', 'Redshifted(s, z) == [s EXCEPT !.w = ShW(s.rw, z)', 'Redshifted(s, z) == [s EXCEPT !.w = ShW(s.w, z)'),
    ('redshift not recorded', 'MCSession', '!.f = ShF(s.rf, z), !.z = z]', '!.f = ShF(s.rf, z)]'),
    ('observed frame saved', 'MCSession', 'SedFile(s) == [t |-> "sed", rw |-> s.rw, rf', 'SedFile(s) == [t |-> "sed", rw |-> s.w, rf'),
    ('output matrix from input bands', 'MCSession', 'BuildA(b1.s, l2.r, cfg.out, cfg.zg)', 'BuildA(b1.s, l2.r, cfg.resp, cfg.zg)'),
    ('mapping ignored', 'MCSession', 'IndexOf(cfg.resp, cfg.map[i])]', 'i]'),
    ('restored outputs are the inputs', 'MCSession', 'zg |-> c.zg, opt |-> opt, A |-> c.A, Aout |-> c.Aout]', 'zg |-> c.zg, opt |-> opt, A |-> c.A, Aout |-> c.A]'),
    ('a failed load registers the name', 'MCSession', 'ELSE [ok |-> FALSE, r |-> r]', 'ELSE [ok |-> FALSE, r |-> Upd(r, n, "junk")]'),
    ('reload keeps what there is', 'MCSession', 'IF n \\in DOMAIN r /\\ ~reload THEN', 'IF n \\in DOMAIN r THEN'),
    ('a save writes nothing', 'MCSession', 'ELSE disk\' = Upd(disk, p, SedFile(seds[h]))', 'ELSE disk\' = disk'),
    ('templates shared by two fitters drift', 'MCSession', 'seds\' = [seds EXCEPT ![cfg.s] = b2.s]', 'seds\' = [h1 \\in DOMAIN seds |-> b2.s]'),
    ('a changed file is seen without reload', 'MCSession', 'IF n \\in DOMAIN r /\\ ~reload THEN', 'IF n \\in DOMAIN r /\\ ~(reload \\/ Loadable(n)) THEN'),
    ('a query moves the templates', 'MCSession', 'ELSE Err\n  /\\ UNCHANGED <<disk, seds, kcs, rsps>>',
     'ELSE Err\n  /\\ seds\' = [seds EXCEPT ![kcs[h].s].rw = "x"] /\\ UNCHANGED <<disk, kcs, rsps>>'),
    ('clobbering ignored', 'MCSession', 'IF ~clobber /\\ p \\in DOMAIN disk\n     THEN disk\' = disk /\\ last\' = Err\n     ELSE disk\' = Upd(disk, p, SedFile',
     'IF FALSE\n     THEN disk\' = disk /\\ last\' = Err\n     ELSE disk\' = Upd(disk, p, SedFile'),
    ('a recomputed matrix is added to the old one', 'MCFitter', 'kcs\' = [kcs EXCEPT ![h].A = b1.A, ![h].Aout = b1.A]', 'kcs\' = [kcs EXCEPT ![h].A = @ \\o b1.A, ![h].Aout = b1.A]'),
    ('a computed matrix is not recomputed', 'MCFitterLong', 'kcs\' = [kcs EXCEPT ![h].A = b1.A, ![h].Aout = b1.A]', 'kcs\' = IF kcs[h].A # <<>> THEN kcs ELSE [kcs EXCEPT ![h].A = b1.A, ![h].Aout = b1.A]'),
    ('computing a matrix leaves the templates redshifted', 'MCFitter', 'seds\' = [seds EXCEPT ![k.s] = b1.s]', 'seds\' = [seds EXCEPT ![k.s] = Redshifted(b1.s, k.zg[Len(k.zg)])]'),
    ('reading a bandpass registers it', 'MCResponse', 'THEN rsps\' = Upd(rsps, h, disk[p].b) /\\ last\' = Ok(disk[p].b)\n     ELSE FailRead(h, p)\n  /\\ UNCHANGED <<disk, reg, seds, kcs>>\n\n\\* ext: name of the extension of',
     'THEN rsps\' = Upd(rsps, h, disk[p].b) /\\ last\' = Ok(disk[p].b) /\\ reg\' = Upd(reg, p, disk[p].b)\n     ELSE FailRead(h, p) /\\ reg\' = reg\n  /\\ UNCHANGED <<disk, seds, kcs>>\n\n\\* ext: name of the extension of'),
    ('a failed read empties the bandpass', 'MCResponse', 'rsps\' = (IF p \\in DOMAIN disk THEN Del(rsps, h) ELSE rsps)', 'rsps\' = Del(rsps, h)'),
    ('the extension name is not looked at', 'MCResponse', 'ext \\in {"1", disk[p].ext}', 'ext = ext'),
    ('a saved bandpass is clobbered', 'MCResponse', 'IF ~clobber /\\ p \\in DOMAIN disk\n     THEN disk\' = disk /\\ last\' = Err\n     ELSE disk\' = Upd(disk, p, RspFile',
     'IF FALSE\n     THEN disk\' = disk /\\ last\' = Err\n     ELSE disk\' = Upd(disk, p, RspFile'),
]


def sandbox(e, name):
    d = os.path.join(e.scratch, name)
    shutil.copytree(e.specdir, d)
    return d


def mutant(e, m):
    name, model, old, new = m
    d = sandbox(e, 'mut%d' % MUTANTS.index(m))
    f = os.path.join(d, 'Session.tla')
    t = open(f).read()
    if old not in t:
        raise MachineryError('mutant %r does not apply' % name)
    open(f, 'w').write(t.replace(old, new))
    e2 = copy.copy(e)
    e2.specdir = d
    r = e2.tlc('MCSession', model, timeout=900, ok_codes=range(256), workers='2')
    bit = any(x in r.stdout for x in ('is violated', 'are violated', 'Evaluating invariant', 'Error: Evaluating', 'Error: TLC threw'))
    bit = bit or 'Reason:' in r.stdout      # e.g. a term that is not the one it has to be equal to
    return name, bit, r.stdout[-600:]


def numbers(x, path=()):
    """paths of the recorded numbers in an outcome"""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from numbers(v, path + (k,))
    elif isinstance(x, list):
        if x and all(isinstance(y, str) for y in x) and path and path[-1] in ('v', 'zg', 'zr', 'intsfh', 'mremain', 'mets',
                                                                            'm50', 'm300', 'm1000'):
            yield path
        else:
            for i, v in enumerate(x):
                yield from numbers(v, path + (i,))


def tampered(ev, rng):
    """one event with one recorded outcome falsified, or None"""
    ev = copy.deepcopy(ev)
    o = ev.get('o')
    if o is None:
        return None
    ps = [p for p in numbers(o, ())]
    how = rng.choice(['value', 'value', 'value', 'outcome', 'mut', 'shape'])
    if ev['op'] == 'M2F' or ev['op'] == 'Func':
        how = how if how != 'shape' else 'value'
    if how == 'mut' and ev.get('mut') == []:
        ev['mut'] = ['x']
        return ev
    if how == 'outcome' or not ps:
        if o['t'] == 'exc':
            ev['o'] = {'t': 'ok', 'r': []}
            for k in ('x', 'b', 'names'):
                if ev['op'] != 'List':
                    return None
        elif ev['op'] in ('CheckSed', 'CheckKc'):
            return None
        else:
            ev['o'] = {'t': 'exc', 'e': 'ValueError', 'm': ''}
            if ev['op'] == 'NewKc':
                return None
        return ev
    p = rng.choice(ps)
    v = o
    for k in p:
        v = v[k]
    i = rng.randrange(len(v))
    if ev['op'] == 'Query' and ev['q']['k'] == 'fit':        # a coefficient that matters
        i = max(range(len(v)), key=lambda j: abs(float(v[j])))
    x = float(v[i])
    v[i] = repr(x * (1.05 if ev['op'] == 'Query' and ev['q']['k'] == 'fit' else 1.003) + (
        3e-3 if x == 0. or ('Rsp' in ev['op'] and abs(x) < 1.) else 0.))
    return ev


def diff(a, b, path=''):
    if type(a) != type(b) or not isinstance(a, (dict, list)):
        return '' if a == b else '%s: %s -> %s; ' % (path, str(a)[:80], str(b)[:80])
    ks = sorted(set(a) | set(b)) if isinstance(a, dict) else range(max(len(a), len(b)))
    g = lambda x, k: x.get(k) if isinstance(x, dict) else x[k] if k < len(x) else None
    return ''.join(diff(g(a, k), g(b, k), '%s.%s' % (path, k)) for k in ks)


def record(e):
    d = e.dir()
    p = Plan(e.rng('self'), d)
    b = p.bands(3)
    p.add('Load', n=b[0])
    p.add('Load', n=p.path('nosuch'))
    p.tmpl('t', nt=2, n=9, itp=True)
    p.add('SetZ', s='t', z=dict(a=0.5, d='py'))
    p.add('Project', via='sed', s='t', n=b[0])
    p.add('Interp', s='t', w=[3000., 5000., 9000.])
    p.kc('k', 't', b, out=[b[2], b[0]], map=[b[1], b[0]], nz=3)
    p.kc('bad', 't', b, out=[b[0]], map=[b[0], b[1]], nz=3)
    p.add('CheckSed', s='t')
    p.add('CheckKc', k='k')
    p.add('Amat', k='k', which='out', z=dict(a=[0.25, 0.75], d='f4'))
    o = p.objects('k', 2, data='mixed')
    o['z'] = [0.25, 0.5]
    p.query('k', 'fit', o)
    p.seed()
    p.query('k', 'fit', o, opt=dict(mc=2), id='f')
    for q in ('recon', 'kcor', 'derived'):
        p.query('k', q, o, opt=dict(band_shift=0.125))
        p.query('k', q, o, scalar=True)
    p.query('k', 'absmag', o, dist=True, opt=dict(reconstruct=True, limit=True, kcorrect=True))
    p.query('k', 'absmag', o, drop=('maggies', 'coeffs'), mcq=True, opt=dict(reconstruct=True),
            a=dict(maggies_mc=dict(of='f', n=2), coeffs_mc=dict(of='f', n=1)))
    p.query('k', 'derived', o, drop=('coeffs',), mcq=True, a=dict(coeffs_mc=dict(of='f', n=1)))
    p.query('k', 'kcor', o, a=dict(redshift=dict(a=[0.1], d='f4')))
    f = p.path('k.fits')
    p.add('SaveKc', k='k', p=f)
    p.add('LoadKc', k='l', s='ls', p=f)
    p.query('l', 'kcor', o)
    p.add('SaveSed', s='t', p=p.path('s.fits'), clobber=True)
    p.add('SaveSed', s='t', p=p.path('s.fits'), clobber=False)
    p.add('LoadSed', s='u', p=p.path('s.fits'), tmpl=True)
    m = [[0.3, 0.2, 0.5, 0.7, 0.9], [0.1, 0.2, 0.3, 0.4, 0.5]]
    iv = [[10., 0., 30., 40., 9e9]] * 2
    A = lambda x: dict(a=x, d='f4')
    p.add('Func', f='sdss_ab', a=dict(maggies=A(m), ivar=A(iv)))
    p.add('Func', f='asinh', a=dict(mag=A([[20., 21., 22., 24., 23.]]), mag_err=A([[.1, .1, .1, .2, .3]]),
                                    extinction=A([[.1, .1, .1, 0., .1]])))
    p.add('Func', f='floor', a=dict(maggies=A(m), ivar=A(iv), floor=A([0.02, 0., 0.1, 0.1, 0.1])))
    p.add('M2F', names=[b[1], b[0]], a=dict(maggies=A([0.5, 0.25]), ivar=A([4., 0.])))
    p.add('Func', f='descr', src='reg', n=b[1], a={})
    p.add('NewFitter', k='f', s='t', resp=[b[2], b[0]], zlo=0., zhi=0.5, nz=3)
    p.kcs['f'] = dict(nb=2, no=2, nt=2, zlo=0., zhi=0.5)
    of = p.objects('f', 2)
    p.query('f', 'fit', of)
    p.add('SetA', k='f')
    p.query('f', 'fit', of)
    p.query('f', 'recon', of)
    w, v = p.u.band(6100., n=8)
    p.add('WriteDat', p=b[0], w=w, v=v)
    p.add('Load', n=b[0], reload=True)
    p.add('CheckFit', k='f')
    p.add('SetA', k='f')
    p.add('NewFitter', k='g', s='t', resp=[b[0], p.path('nosuch')])
    p.add('SetA', k='g')
    w, v = p.u.band(5100., n=8)
    p.add('NewRsp', r='r', w=dict(a=w[::-1], d='f8'), v=dict(a=v[::-1], d='f8'))
    p.add('SaveRsp', r='r', p=p.path('r.fits'), ext='BAND')
    p.add('RspDat', r='q', n=b[0])
    p.add('SaveRsp', r='q', p=p.path('r.fits'), clobber=False)
    p.add('RspDat', r='x', n=p.path('nosuch'))
    p.add('RspFits', r='x', p=p.path('r.fits'), ext='OTHER')
    p.add('RspFits', r='q', p=p.path('r.fits'), ext='BAND', into=True)
    p.add('CheckRsp', r='q')
    p.add('ProjectRsp', r='q', s='t')
    p.add('Plot', s='t')
    p.add('Plot', s='t', indx=dict(a=[1], d='i8'), wavelim=dict(a=[3000., 8000.], d='list'))
    p.add('Kept')
    p.add('Restart')
    p.add('Load', n=b[1])
    t = e.drive(d, p.ops)
    s, bad = e.validate(t)
    if bad:
        raise MachineryError('recorded trace rejected: %s' % bad[:3])
    txt = open(t).read().replace(d, '/scratch')
    open(TRACE, 'w').write(txt)
    print('recorded %d lines' % s['lines'])


def main():
    e = Engine('SELF', 'quick', 1)
    ok = True
    try:
        if '--record' in sys.argv:
            record(e)
        e.tlc('F64Test')
        print('F64Test: arithmetic and numerical modules agree with integers and mathematics')
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            models = [ex.submit(e.model_check, 'KKT', None, 900, '2'), ] + [
                ex.submit(e.model_check, 'MCSession', c, 900, '2') for c in ('MCSession', 'MCFitter', 'MCFitterLong', 'MCResponse')]
            muts = [ex.submit(mutant, e, m) for m in MUTANTS]
            # traces
            lines = [json.loads(x) for x in open(TRACE) if x.strip()]
            variants = []
            for v in range(8):
                rng = random.Random(v)
                out, marked = [], []
                for i, ev in enumerate(lines):
                    t = tampered(ev, rng) if i and rng.random() < 0.6 else None
                    if t is not None and t != ev:
                        marked.append((i + 1, ev['op'], t))
                    out.append(t if t is not None else ev)
                d = e.dir()
                f = os.path.join(d, 'trace.ndjson')
                open(f, 'w').write('\n'.join(json.dumps(x) for x in out) + '\n')
                variants.append((marked, ex.submit(e.validate, f)))
            d = e.dir()
            f = os.path.join(d, 'trace.ndjson')
            shutil.copy(TRACE, f)
            s, bad = e.validate(f)
            print('recorded trace: %d lines, %d clauses, %d rejected' % (s['lines'], s['judged'], len(bad)))
            ok &= not bad
            n = 0
            for marked, fut in variants:
                hit = {b['line'] for b in fut.result()[1]}
                for i, op, t in marked:
                    n += 1
                    if i not in hit:
                        ok = False
                        print('tampered line accepted: %d %s %s' % (i, op, diff(lines[i - 1], t)))
            print('tampered lines: %d, all rejected: %s' % (n, ok))
            for m in models:
                m.result()
            print('KKT and session models hold: %s' % e.stats['models'])
            for m in muts:
                name, bit, out = m.result()
                if not bit:
                    ok = False
                    print('mutated model not refuted: %s\n%s' % (name, out))
                else:
                    print('refuted: ' + name)
    finally:
        e.close()
    sys.exit(0 if ok else 1)


if __name__ == '__main__':
    main()
