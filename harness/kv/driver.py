"""Executes a plan (a list of public calls, as JSON) against the real kcorrect
in /repo and records one event per call: its arguments, its outcome (value or
exception) and the observable state after it.  It judges nothing.

usage: driver.py PLAN.json TRACE.ndjson FIRST LAST
(runs ops FIRST..LAST-1 of the plan; the parent starts a new process for each
stretch between Restart ops)"""
import json
import os
import signal
import sys
import warnings

warnings.simplefilter('ignore')
import numpy as np

OP_TIMEOUT = float(os.environ.get('KV_OP_TIMEOUT', '60'))
ABSENT = {'s': [-1], 'v': []}
RESPONSES = '/repo/src/kcorrect/data/responses'


class OpTimeout(BaseException):
    pass


class Unavailable(Exception):
    """an argument is the result of an earlier call that did not return it"""


def num(x):
    x = float(x)
    return repr(x) if -np.inf < x < np.inf else 'NaN' if x != x else 'Infinity' if x > 0. else '-Infinity'


def nums(v):
    return [num(x) for x in np.asarray(v, dtype=np.float64).ravel()]


def arr(a):
    if a is None:
        return ABSENT
    a = np.asarray(a)
    return {'s': [int(n) for n in a.shape], 'v': nums(a)}


class Env(object):
    def __init__(self):
        import kcorrect
        import kcorrect.fitter
        import kcorrect.kcorrect
        import kcorrect.response
        import kcorrect.template
        import kcorrect.utils
        self.mod = kcorrect
        self.seds = {}
        self.kcs = {}
        self.rsps = {}
        self.arrs = {}
        self.results = {}
        self.tracked = []     # response names the trace talks about

    # -- arguments ---------------------------------------------------------
    def arg(self, d):
        """Builds the object to pass from its description."""
        if d is None:
            return None
        if 'ref' in d:
            return self.arrs[d['ref']]
        if 'of' in d:                      # result of an earlier op
            try:
                r = self.results[d['of']]
                if not isinstance(r, tuple):
                    r = (r,)
                x = r[d.get('n', 0)]
                if 'row' in d:
                    x = x[d['row']]
                if 'draw' in d:
                    x = x[..., d['draw']]
                return x
            except Exception as e:
                raise Unavailable(repr(e))
        a, k = d['a'], d.get('d', 'f4')
        if k == 'py':
            return float(a)
        if k == 'list':
            return a if not isinstance(a, (int, float)) else float(a)
        if k == 'int':
            return int(a)
        if k == 'tuple':
            return tuple(tuple(x) if isinstance(x, list) else x for x in a)
        if k == 'np4':
            return np.float32(a)
        if k == 'np8':
            return np.float64(a)
        if 'shape' in d:                   # of no elements
            return np.zeros(d['shape'], dtype={'f8': np.float64}.get(k, np.float32))
        if k == 'f4ro':
            x = np.array(a, dtype=np.float32)
            x.flags.writeable = False
            return x
        if k == 'f4F':
            return np.asfortranarray(np.array(a, dtype=np.float32))
        if k == 'f4s':                     # non-contiguous view
            x = np.array(a, dtype=np.float32)
            y = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), dtype=np.float32)
            y[..., ::2] = x
            return y[..., ::2]
        return np.array(a, dtype={'f4': np.float32, 'f8': np.float64,
                                  'i8': np.int64, 'be4': '>f4'}[k])


def freeze(x):
    if x is None or isinstance(x, (float, int, str, bool)):
        return x
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [freeze(y) for y in x])
    a = np.asarray(x)
    return ('nd', a.shape, str(a.dtype), a.tobytes())


def outcome(fn, limit=OP_TIMEOUT):
    """(outcome record, value)"""
    def onalarm(sig, frm):
        raise OpTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        v = fn()
        signal.setitimer(signal.ITIMER_REAL, 0)
        return {'t': 'ok'}, v
    except OpTimeout:
        return {'t': 'exc', 'e': 'timeout', 'm': ''}, None
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        return {'t': 'exc', 'e': type(e).__name__, 'm': str(e)[:200]}, None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def observe(o, fn):
    """adds fn() to an ok outcome; a failing observation is a failed call"""
    if o['t'] != 'ok':
        return o
    o2, x = outcome(fn)
    if o2['t'] != 'ok':
        o2['e'] = 'observing: ' + o2['e']
        return o2
    o.update(x)
    return o


PROPS = ('intsfh', 'mremain', 'mets', 'm50', 'm300', 'm1000')


def obs_sed(s):
    d = dict(w=arr(s.wave), f=arr(np.atleast_2d(s.flux)), rw=arr(s.restframe_wave),
             rf=arr(np.atleast_2d(s.restframe_flux)), z=num(s.redshift), nsed=int(s.nsed))
    if hasattr(s, 'intsfh'):
        d['props'] = {p: nums(getattr(s, p)) for p in PROPS}
    return d


def obs_kc(k):
    z = np.asarray(k.redshifts)
    return dict(resp=[str(x) for x in k.responses], out=[str(x) for x in k.responses_out],
                map=[str(x) for x in k.responses_map], imap=[int(x) for x in k.imap],
                zg=nums(z), nz=int(k.nredshift), zr=nums(k.redshift_range), ab=bool(k.abcorrect),
                A=arr(k.Amatrix(z)), Aout=arr(k.AmatrixOut(z)))


def obs_fit(k):
    """a fitter without output bands"""
    z = np.asarray(k.redshifts)
    return dict(resp=[str(x) for x in k.responses], zg=nums(z), nz=int(k.nredshift), zr=nums(k.redshift_range),
                ab=bool(k.abcorrect), A=ABSENT if k.Amatrix is None else arr(k.Amatrix(z)))


NOSED = dict(w=ABSENT, f=ABSENT, rw=ABSENT, rf=ABSENT, z='NaN', nsed=-1)


def obs_rsp(r):
    return dict(r=[arr(x) for x in (r.wave, r.response, r.lambda_eff, r.fwhm_low, r.fwhm_high, r.fwhm,
                                    r.solar_magnitude, r.vega2ab)], n=int(r.nwave))


def obs_band(r):
    return dict(w=arr(r.wave), p=arr(r.response))


DEFAULT_RESP = {'sdss': ['sdss_%s0' % b for b in 'ugriz'],
                'gst': ['galex_FUV', 'galex_NUV'] + ['sdss_%s0' % b for b in 'ugriz'] +
                ['twomass_J', 'twomass_H', 'twomass_Ks']}
COSMO = {}


def cosmology(name):
    import astropy.cosmology as ac
    if name not in COSMO:
        COSMO[name] = {'default': lambda: ac.Planck18,
                       'planck18': lambda: ac.Planck18,
                       'flat': lambda: ac.FlatLambdaCDM(H0=100., Om0=0.3),
                       'open': lambda: ac.LambdaCDM(H0=60., Om0=0.2, Ode0=0.3)}[name]()
    return COSMO[name]


class World(object):
    """what a process has besides the objects of kcorrect"""
    def __init__(self):
        self.d = os.getcwd()
        self.own = set()

    def files(self):
        out = {}
        for base, ds, fs in os.walk(self.d):
            for f in fs:
                p = os.path.join(base, f)
                if p in self.own or os.path.basename(p) in ('plan.json', 'trace.ndjson'):
                    continue
                try:
                    st = os.stat(p)
                    out[p] = (st.st_size, st.st_mtime_ns)
                except OSError:
                    pass
        for base in (RESPONSES, os.path.join(RESPONSES, '..', 'templates'), os.path.join(RESPONSES, '..', 'basel')):
            for f in os.listdir(base):
                out[os.path.join(base, f)] = 0
        return out

    def look(self):
        import random
        s = np.random.get_state()
        return {'random numbers': (s[0], s[1].tobytes()) + tuple(s[2:]), 'random module': random.getstate(),
                'floating point errors': np.geterr(), 'print options': repr(np.get_printoptions()),
                'directory': os.getcwd(), 'environment': dict(os.environ), 'files': self.files()}

    @staticmethod
    def changes(a, b):
        out = [x for x in a if x != 'files' and a[x] != b[x]]
        f, g = a['files'], b['files']
        return out + sorted(x for x in set(f) | set(g) if f.get(x) != g.get(x))


# ops that are calls of the code, and of nothing else
CALLS = {'Load', 'CheckReg', 'List', 'NewSed', 'SetZ', 'SetInterp', 'CheckSed', 'Interp', 'Plot', 'Project', 'ProjectBad', 'NewKc',
         'NewDefault', 'CheckKc', 'NewFitter', 'SetA', 'CheckFit', 'NewRsp', 'RspDat', 'SaveRsp', 'RspFits', 'CheckRsp',
         'ProjectRsp', 'Amat', 'Query', 'SaveSed', 'LoadSed', 'SaveKc', 'LoadKc', 'Func', 'M2F'}


class Runner(object):
    watch = False

    def __init__(self, out):
        self.world = World()
        self.env = Env()
        self.out = out
        self.tracked = set()
        self.cosmo = {}
        self.kept = []
        self.fault = 'none'

    def emit(self, ev):
        if self.watch and ev['op'] in CALLS:
            ev['world'] = World.changes(self.before, self.world.look())
        self.out.write(json.dumps(ev) + '\n')
        self.out.flush()

    def names(self):
        f = self.env.mod.response.ResponseDict()
        return sorted(str(n) for n in f.keys() if not self.tracked or n in self.tracked)

    def run(self, op):
        if self.watch:
            self.before = self.world.look()
        try:
            getattr(self, 'op_' + op['op'])(dict(op))
        except Unavailable as e:
            self.emit(dict(op='Unavailable', of=op['op'], why=str(e)[:200]))

    # -- files ---------------------------------------------------------------
    def op_WriteDat(self, op):
        p = op['p'] + '.dat'
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as fp:
            fp.write('# Units:\n#  "lambda" is in Angstroms\n')
            fp.write('|             lambda |               pass |\n')
            for w, v in zip(op['w'], op['v']):
                fp.write('| %18.8g | %18.8g |\n' % (w, v))
        self.tracked.add(op['p'])
        self.emit(dict(op='WriteDat', p=op['p'], w=['%.8g' % w for w in op['w']],
                       v=['%.8g' % v for v in op['v']]))

    def op_PkgDat(self, op):
        """a packaged response file, parsed here independently"""
        n = op['n']
        d = os.path.join(RESPONSES, n + '.dat')
        rows = []
        with open(d) as fp:
            for ln in fp:
                t = [x.strip() for x in ln.strip().strip('|').split('|')]
                if ln.startswith('#') or len(t) < 2:
                    continue
                rows.append(t)
        ic = {c: i for i, c in enumerate(rows[0])}
        self.tracked.add(n)
        self.emit(dict(op='WriteDat', p=n, w=[num(r[ic['lambda']]) for r in rows[1:]],
                       v=[num(r[ic['pass']]) for r in rows[1:]]))

    BAD = {'garbage': 'this is not\na response file\n',
           'empty': '',
           'columns': '| wave | thru |\n| 3000. | 0.1 |\n| 4000. | 0.5 |\n| 5000. | 0.5 |\n| 6000. | 0.1 |\n',
           'text': '| lambda | pass |\n| 3000. | 0.1 |\n| 4000. | abc |\n| 5000. | 0.5 |\n| 6000. | 0.1 |\n',
           'short': '| lambda | pass |\n| 3000. | 0.1 |\n| 4000. | 0.5 |\n',
           'header': '|      lambda |        pass |\n'}

    def op_BadDat(self, op):
        with open(op['p'] + '.dat', 'w') as fp:
            fp.write(self.BAD[op['how']])
        self.tracked.add(op['p'])
        self.emit(dict(op='BadDat', p=op['p']))

    def op_RmFile(self, op):
        p = op['p']
        for q in (p, p + '.dat'):
            if os.path.isfile(q):
                os.remove(q)
        self.emit(dict(op='RmFile', p=p))

    # -- registry ------------------------------------------------------------
    def op_Load(self, op):
        R = self.env.mod.response
        self.tracked.add(op['n'])
        f = R.ResponseDict()
        kw = dict(response=op['n'])
        if op.get('reload') is not None:
            kw['reload'] = op['reload']
        o, v = outcome(lambda: f.load_response(**kw))
        observe(o, lambda: dict(b=obs_band(R.ResponseDict()[op['n']])))
        self.emit(dict(op='Load', n=op['n'], reload=bool(op.get('reload')), o=o,
                       single=R.ResponseDict() is f, names=self.names()))

    def op_CheckReg(self, op):
        f = self.env.mod.response.ResponseDict()
        b = [dict(n=n, **obs_band(f[n])) for n in self.names()
             if n in op['n'] and f[n].wave is not None]
        self.emit(dict(op='CheckReg', names=self.names(), bands=b))

    def op_List(self, op):
        R = self.env.mod.response
        how = op.get('how', 'plain')
        d = RESPONSES if how == 'default' else op['d']
        # the packaged responses are known by their base names
        name = (lambda x: x) if how == 'default' else (lambda x: os.path.join(d, x))
        here = [name(x[:-4]) for x in os.listdir(d) if x.endswith('.dat')]
        kw = {'plain': dict(response_dir=d), 'slash': dict(response_dir=d + '/'), 'default': {},
              'dots': dict(response_dir=os.path.join(d, '..', os.path.basename(d)))}[how]
        if op.get('check') is not None:
            kw['check_validity'] = op['check']
        o, v = outcome(lambda: R.all_responses(**kw))
        if o['t'] == 'ok':
            o['names'] = [name(str(x)) for x in v]
        # a listed directory's responses are known by their full path
        for h in here:
            self.tracked.add(h)
        self.emit(dict(op='List', dir=here, check=bool(op.get('check')), o=o, names=self.names()))

    def op_Packaged(self, op):
        """the files of the package are there (their contents are not recorded)"""
        for x in sorted(os.listdir(RESPONSES)):
            if x.endswith('.dat') and x[:-4] not in self.tracked:
                self.tracked.add(x[:-4])
                self.emit(dict(op='WriteDat', p=x[:-4], w=[], v=[]))

    def op_Other(self, op):
        """things in a directory that are not responses"""
        d = op['d']
        os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
        for n in ('README', 'notes.txt', 'old.dat.bak', 'x.data', 'sub/inner.dat'):
            with open(os.path.join(d, n), 'w') as fp:
                fp.write('nothing\n')

    # -- bandpasses of the caller's own ------------------------------------------
    def rsp_o(self, h, o, v, src=None):
        if o['t'] == 'ok':
            self.env.rsps[h] = v
            observe(o, lambda: obs_rsp(v))
        elif src and os.path.exists(src):
            self.env.rsps.pop(h, None)         # in no particular state now
        return o

    def op_NewRsp(self, op):
        R = self.env.mod.response
        w, p = self.env.arg(op['w']), self.env.arg(op['v'])
        fr = freeze(w), freeze(p)
        o, v = outcome(lambda: R.Response(wave=w, response=p))
        self.rsp_o(op['r'], o, v)
        self.emit(dict(op='NewRsp', r=op['r'], w=nums(w), v=nums(p), o=o, names=self.names(),
                       mut=[n for n, a, b in (('wave', fr[0], freeze(w)), ('response', fr[1], freeze(p))) if a != b]))

    def into(self, op, read):
        """reads into a new object, or one that is there already"""
        R = self.env.mod.response
        r = self.env.rsps.get(op['r']) if op.get('into') else None

        def go():
            x = R.Response() if r is None else r
            read(x)
            return x
        return outcome(go)

    def op_RspDat(self, op):
        R = self.env.mod.response
        p = op['n'] + '.dat'
        if op.get('into'):
            o, v = self.into(op, lambda x: x.fromdat(filename=p))
        else:
            o, v = outcome(lambda: R.Response(filename=p))
        self.rsp_o(op['r'], o, v, p)
        self.emit(dict(op='RspDat', r=op['r'], n=op['n'], o=o, names=self.names()))

    def op_SaveRsp(self, op):
        r = self.env.rsps.get(op['r'])
        p = op['p']
        kw = {}
        if op.get('clobber') is not None:
            kw['clobber'] = op['clobber']
        if op.get('ext') is not None:
            kw['ext'] = op['ext']
        before = open(p, 'rb').read() if os.path.isfile(p) else None
        o, v = outcome(lambda: r.tofits(filename=p, **kw))
        after = open(p, 'rb').read() if os.path.isfile(p) else None
        self.emit(dict(op='SaveRsp', r=op['r'], p=p, ext=op.get('ext') or 'FLUX', clobber=op.get('clobber') is not False,
                       o=o, samefile=before == after, names=self.names()))

    def op_RspFits(self, op):
        kw = {} if op.get('ext') is None else dict(ext=op['ext'])
        o, v = self.into(op, lambda x: x.fromfits(filename=op['p'], **kw))
        self.rsp_o(op['r'], o, v, op['p'])
        self.emit(dict(op='RspFits', r=op['r'], p=op['p'], ext=str(op.get('ext') or 1), o=o, names=self.names()))

    def op_CheckRsp(self, op):
        r = self.env.rsps.get(op['r'])
        o = observe({'t': 'ok'}, lambda: obs_rsp(r))
        self.emit(dict(op='CheckRsp', r=op['r'], o=o))

    def op_ProjectRsp(self, op):
        r, s = self.env.rsps.get(op['r']), self.sed(op['s'])
        o, v = outcome(lambda: r.project(sed=s))
        observe(o, lambda: dict(r=[arr(v)]))
        self.emit(dict(op='ProjectRsp', r=op['r'], s=op['s'], o=o))

    # -- spectra ---------------------------------------------------------------
    def op_NewSed(self, op):
        T = self.env.mod.template
        kind = op['kind']
        ev = dict(op='NewSed', s=op['s'], props={'none': '0'})
        itp = op.get('itp')
        kw = {} if itp is None else dict(interpolate=itp)
        if kind in ('default', 'lrg1'):
            import astropy.io.fits as fits
            fn = '/repo/src/kcorrect/data/templates/kcorrect-%s-v4.fits' % kind
            with fits.open(fn, memmap=False) as h:
                w = np.array(h['FLUX'].data['wave'][0], dtype=np.float64)
                f = np.array(h['FLUX'].data['flux'][0], dtype=np.float64)
                f = f.reshape(-1, len(w))
                pr = {p: (np.array(h[p.upper()].data) if p.upper() in h else np.zeros(len(f))) for p in PROPS}
            mk = lambda: T.Template(filename=fn, **kw)
        elif kind == 'template':
            fn = op['file']
            w = np.array(op['w'], dtype=np.float32)
            f = np.array(op['f'], dtype=np.float32)
            pr = {p: np.array(op['props'].get(p, [0.] * len(f))) for p in PROPS}
            write_template(fn, w, f, op['props'], op.get('layout', 'table'))
            if self.watch:
                self.before = self.world.look()
            mk = lambda: T.Template(filename=fn, **kw)
        else:
            dt = {'f4': np.float32, 'f8': np.float64}[op.get('d', 'f4')]
            w = np.array(op['w'], dtype=dt)
            f = np.array(op['f'], dtype=dt)
            pr = None
            mk = lambda: T.SED(wave=w, flux=f, **kw)
        ev.update(w=nums(w), f=arr(np.atleast_2d(f)))
        if pr is not None:
            ev['props'] = {p: nums(pr[p]) for p in PROPS}
        o, v = outcome(mk)
        if o['t'] == 'ok':
            self.env.seds[op['s']] = v
            observe(o, lambda: dict(x=obs_sed(v)))
        ev['o'] = o
        self.emit(ev)

    def sed(self, h):
        return self.env.seds.get(h)

    def op_SetZ(self, op):
        s = self.sed(op['s'])
        z = self.env.arg(op['z'])
        for x in op.get('pre', []):            # many settings before this one
            s.set_redshift(redshift=x)
        o, v = outcome(lambda: s.set_redshift(redshift=z) if op.get('kw', True) else s.set_redshift(z))
        observe(o, lambda: dict(x=obs_sed(s)))
        self.emit(dict(op='SetZ', s=op['s'], z=num(z), o=o))

    def op_SetInterp(self, op):
        s = self.sed(op['s'])
        o, v = outcome(lambda: s.set_interp())
        observe(o, lambda: dict(x=obs_sed(s)))
        self.emit(dict(op='SetInterp', s=op['s'], o=o))

    def op_CheckSed(self, op):
        s = self.sed(op['s'])
        o = observe({'t': 'ok'}, lambda: dict(x=obs_sed(s)))
        if o['t'] != 'ok':
            o['x'] = NOSED
        self.emit(dict(op='CheckSed', s=op['s'], o=o))

    def op_Interp(self, op):
        s = self.sed(op['s'])
        w = np.array(op['w'], dtype=np.float64)
        o, v = outcome(lambda: s.interp(w))
        observe(o, lambda: dict(r=[arr(np.atleast_2d(v))]))
        self.emit(dict(op='Interp', s=op['s'], w=nums(w), o=o))

    def op_Plot(self, op):
        import matplotlib.pyplot as plt
        s = self.sed(op['s'])
        kw = {}
        for n in ('indx', 'wavelim'):
            if op.get(n) is not None:
                kw[n] = self.env.arg(op[n])
        fr = freeze([kw.get('indx'), kw.get('wavelim')])

        def go():
            f = plt.figure()
            try:
                s.plot(**kw)
                a = f.gca()
                return dict(lines=[dict(x=nums(l.get_xdata()), y=nums(l.get_ydata())) for l in a.get_lines()],
                            xlim=nums(a.get_xlim()), ylim=nums(a.get_ylim()), nfig=len(f.axes))
            finally:
                plt.close(f)
        o, v = outcome(go)
        observe(o, lambda: dict(v, x=obs_sed(s)))
        ix = op.get('indx')
        self.emit(dict(op='Plot', s=op['s'], all=ix is None,
                       indx=[] if ix is None else [int(i) for i in np.atleast_1d(ix['a'])],
                       lim=[] if op.get('wavelim') is None else nums(op['wavelim']['a']), o=o,
                       mut=[] if freeze([kw.get('indx'), kw.get('wavelim')]) == fr else ['arguments']))

    def op_Project(self, op):
        f = self.env.mod.response.ResponseDict()
        ev = dict(op='Project', n=op['n'], via=op['via'], mut=[])
        if op['via'] == 'sed':
            s = self.sed(op['s'])
            o, v = outcome(lambda: f[op['n']].project(sed=s))
            ev['s'] = op['s']
        else:
            w, fl = self.env.arg(op['w']), self.env.arg(op['f'])
            fr = freeze(w), freeze(fl)
            o, v = outcome(lambda: f[op['n']].project(wave=w, flux=fl))
            ev.update(w=nums(w), f=arr(np.atleast_2d(np.asarray(fl, dtype=float))))
            ev['mut'] = [n for n, a, b in (('wave', fr[0], freeze(w)), ('flux', fr[1], freeze(fl))) if a != b]
        observe(o, lambda: dict(r=[arr(v)]))
        if o['t'] == 'ok':
            self.env.results[op.get('id', '')] = v
        ev['o'] = o
        self.emit(ev)

    def op_ProjectBad(self, op):
        f = self.env.mod.response.ResponseDict()
        kw = {k: self.env.arg(op[k]) for k in ('w', 'f') if op.get(k) is not None}
        kw = {{'w': 'wave', 'f': 'flux'}[k]: v for k, v in kw.items()}
        o, v = outcome(lambda: f[op['n']].project(**kw))
        self.emit(dict(op='ProjectBad', o=o))

    # -- fitters ------------------------------------------------------------
    def op_NewKc(self, op):
        K = self.env.mod.kcorrect
        cls = op.get('cls', 'base')
        C = {'base': K.Kcorrect, 'sdss': K.KcorrectSDSS, 'gst': K.KcorrectGST}[cls]
        zlo, zhi, nz = op['zlo'], op['zhi'], op['nz']
        kw = dict(redshift_range=[zlo, zhi], nredshift=nz)
        if op.get('resp') is not None:
            kw['responses'] = list(op['resp'])
        resp = op.get('resp') or DEFAULT_RESP[cls]
        for n in list(resp) + list(op.get('out') or []):
            self.tracked.add(n)
        if op.get('out') is not None:
            kw['responses_out'] = list(op['out'])
        if op.get('map') is not None:
            kw['responses_map'] = list(op['map'])
        ab = {'base': False, 'sdss': True, 'gst': False}[cls]
        if op.get('ab') is not None:
            kw['abcorrect'] = ab = op['ab']
        if op.get('cosmo', 'default') != 'default':
            kw['cosmo'] = cosmology(op['cosmo'])
        self.cosmo[op['k']] = op.get('cosmo', 'default')
        if not op.get('tdefault'):
            if self.sed(op['s']) is None:
                raise Unavailable('templates')
            kw['templates'] = self.sed(op['s'])
        fr = freeze([kw.get('responses'), kw.get('responses_out'), kw.get('responses_map')])
        o, v = outcome(lambda: C(**kw))
        mut = [] if freeze([kw.get('responses'), kw.get('responses_out'), kw.get('responses_map')]) == fr else ['responses']
        if o['t'] == 'ok':
            self.env.kcs[op['k']] = v
            if op.get('tdefault'):
                observe(o, lambda: dict(xs=obs_sed(v.templates)))
                self.env.seds[op['s']] = getattr(v, 'templates', None)
            observe(o, lambda: dict(x=obs_kc(v)))
        o3, xs = outcome(lambda: obs_sed(self.sed(op['s'])))
        self.emit(dict(op='NewKc', names=self.names(), xs=xs if xs is not None and o['t'] == 'exc' else NOSED, k=op['k'], s=op['s'], cls=cls, resp=resp,
                       out=op.get('out') or [], dout=op.get('out') is None,
                       map=op.get('map') or [], dmap=op.get('map') is None,
                       zlo=num(zlo), zhi=num(zhi), nz=nz, ab=ab, o=o, mut=mut, tdefault=bool(op.get('tdefault'))))

    def op_NewDefault(self, op):
        """an object with everything it can do without left out"""
        K = self.env.mod.kcorrect
        cls = op['cls']
        C = {'base': K.Kcorrect, 'sdss': K.KcorrectSDSS, 'gst': K.KcorrectGST}[cls]
        kw = {} if op.get('resp') is None else dict(responses=list(op['resp']))
        o, v = outcome(lambda: C(**kw), 120.)
        resp = op.get('resp') or DEFAULT_RESP[cls]
        for n in resp:
            self.tracked.add(n)

        def obs():
            z = np.array([float(x) for x in op['z']])
            d = dict(resp=[str(x) for x in v.responses], out=[str(x) for x in v.responses_out],
                     map=[str(x) for x in v.responses_map], imap=[int(x) for x in v.imap],
                     zg=nums(v.redshifts), nz=int(v.nredshift), zr=nums(v.redshift_range), ab=bool(v.abcorrect),
                     A=arr(v.Amatrix(z)), Aout=arr(v.AmatrixOut(z)))
            return dict(x=d, xs=obs_sed(v.templates))
        observe(o, obs)
        if o['t'] == 'ok':
            self.env.kcs[op['k']] = v
            self.env.seds[op['s']] = v.templates
        self.cosmo[op['k']] = 'default'
        self.emit(dict(op='NewDefault', k=op['k'], s=op['s'], cls=cls, given=op.get('resp') or [], z=nums(op['z']), o=o,
                       names=self.names()))

    def op_CheckKc(self, op):
        k = self.env.kcs.get(op['k'])
        o = observe({'t': 'ok'}, lambda: dict(x=obs_kc(k)))
        if o['t'] != 'ok':
            o['x'] = dict(resp=[], out=[], map=[], imap=[], zg=[], nz=-1, zr=[], ab=False, A=ABSENT, Aout=ABSENT)
        self.emit(dict(op='CheckKc', k=op['k'], o=o))

    def op_NewFitter(self, op):
        F = self.env.mod.fitter
        s = self.sed(op['s'])
        if s is None:
            raise Unavailable('templates')
        resp = list(op['resp'])
        kw = dict(responses=resp, templates=s)
        if op.get('zlo') is not None:
            kw['redshift_range'] = [op['zlo'], op['zhi']]
        if op.get('nz') is not None:
            kw['nredshift'] = op['nz']
        if op.get('ab') is not None:
            kw['abcorrect'] = op['ab']
        o, v = outcome(lambda: F.Fitter(**kw))
        if o['t'] == 'ok':
            self.env.kcs[op['k']] = v
            observe(o, lambda: dict(x=obs_fit(v), xs=obs_sed(s)))
        self.emit(dict(op='NewFitter', k=op['k'], s=op['s'], resp=list(op['resp']), zlo=num(op.get('zlo', 0.)),
                       zhi=num(op.get('zhi', 1.)), nz=op.get('nz', 2000), ab=bool(op.get('ab', False)), o=o,
                       mut=[] if resp == list(op['resp']) else ['responses'], names=self.names()))

    def op_SetA(self, op):
        k = self.env.kcs.get(op['k'])
        o, v = outcome(lambda: k.set_Amatrix())
        observe(o, lambda: dict(x=obs_fit(k)))
        o2, xs = outcome(lambda: obs_sed(k.templates))
        self.emit(dict(op='SetA', k=op['k'], o=o, xs=NOSED if xs is None else xs, names=self.names()))

    def op_CheckFit(self, op):
        k = self.env.kcs.get(op['k'])
        o = observe({'t': 'ok'}, lambda: dict(x=obs_fit(k)))
        if o['t'] != 'ok':
            o['x'] = dict(resp=[], zg=[], nz=-1, zr=[], ab=False, A=ABSENT)
        self.emit(dict(op='CheckFit', k=op['k'], o=o))

    def op_Amat(self, op):
        k = self.env.kcs.get(op['k'])
        z = self.env.arg(op['z'])
        o, v = outcome(lambda: (k.AmatrixOut if op.get('which') == 'out' else k.Amatrix)(z))
        z1 = np.atleast_1d(z)
        observe(o, lambda: dict(r=[arr(v if np.ndim(z) else np.asarray(v)[np.newaxis])]))
        self.emit(dict(op='Amat', k=op['k'], which=op.get('which', 'in'), z=nums(z1), o=o))

    def op_Hold(self, op):
        """the caller keeps the matrices a fitter has now"""
        k = self.env.kcs.get(op['k'])

        class Held(object):
            Amatrix = getattr(k, 'Amatrix', None)
            AmatrixOut = getattr(k, 'AmatrixOut', None)
        self.env.kcs[op['h']] = Held
        self.emit(dict(op='Hold', k=op['k'], h=op['h']))

    def op_PokeT(self, op):
        """the caller changes a property of its templates (a new array)"""
        s = self.sed(op['s'])
        o, v = outcome(lambda: setattr(s, op['key'], np.asarray(getattr(s, op['key'])) * op['by']))
        self.emit(dict(op='PokeT', s=op['s'], key=op['key'], by=num(op['by'])))

    def op_Arr(self, op):
        self.env.arrs[op['id']] = self.env.arg(op['a'])

    def op_Poke(self, op):
        """the caller changes an array of its own"""
        self.env.arrs[op['id']][...] = op['a']

    def op_Seed(self, op):
        np.random.seed(op['seed'])

    def op_Solver(self, op):
        """a solver that runs out of iterations: unless it is given more than
        its default ('tight'), or always ('broken')"""
        import scipy.optimize as so
        self.fault = op['how']
        if not hasattr(self, 'nnls'):
            self.nnls = so.nnls
        real = self.nnls

        def nnls(A, b, maxiter=None, **kw):
            n = np.shape(A)[1]
            if op['how'] == 'broken' or maxiter is None or maxiter <= 3 * n:
                raise RuntimeError('Maximum number of iterations reached.')
            return real(A, b, maxiter=maxiter, **kw)
        so.nnls = real if op['how'] == 'none' else nnls

    def op_Ambient(self, op):
        """the rest of the program changes a setting of the process"""
        how = op['how']
        if how == 'cosmology':
            import astropy.cosmology as ac
            self.ac = ac.default_cosmology.set(ac.WMAP5)
            self.ac.__enter__()
        elif how == 'cwd':
            d = os.path.join(os.environ['MPLCONFIGDIR'], 'elsewhere')
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
        elif how == 'print':
            np.set_printoptions(precision=2, threshold=3)
        elif how == 'errors':
            np.seterr(all='ignore')
        elif how == 'environment':
            for n in ('KCORRECT_DIR', 'KCORRECT_DATA', 'HOME', 'LANG'):
                os.environ[n] = '/nonexistent'
        elif how == 'rng':
            np.random.seed(99)
        self.emit(dict(op='Ambient', how=how))

    def op_Cosmo(self, op):
        """the cosmology an object uses, by its distance moduli"""
        k = self.env.kcs.get(op['k'])
        z = np.array(op['z'])
        o, v = outcome(lambda: k.cosmo.distmod(z).to_value('mag'))
        observe(o, lambda: dict(r=[arr(v)]))
        self.emit(dict(op='Cosmo', k=op['k'], dm=self.distmod(op['k'], z), o=o))

    def op_Query(self, op):
        """op['a']: keyword arguments (described), op['opt']: plain keywords"""
        h, kind = op['k'], op['q']
        k = self.env.kcs.get(h)
        a = {n: self.env.arg(d) for n, d in op.get('a', {}).items()}
        kw = dict(a)
        kw.update(op.get('opt', {}))
        fr = {n: freeze(v) for n, v in a.items()}
        meth = {'fit': 'fit_coeffs', 'kcor': 'kcorrect', 'absmag': 'absmag', 'absmag_mc': 'absmag_mc',
                'derived': 'derived', 'derived_mc': 'derived_mc', 'asinhfit': 'fit_coeffs_asinh',
                'recon': 'reconstruct_out' if op.get('which') == 'out' else 'reconstruct'}[kind]
        qa = {n: arr(safe(v)) for n, v in a.items()}
        o, v = outcome(lambda: getattr(k, meth)(**kw))
        mut = [n for n in a if freeze(a[n]) != fr[n]]
        if op.get('quiet'):
            self.env.results[op['id']] = v
            return
        if o['t'] == 'ok':
            self.kept.append((op.get('qid') or op.get('id') or kind, v, freeze(list(v.values()) if isinstance(v, dict) else v)))
        if o['t'] == 'ok':
            if op.get('id'):
                self.env.results[op['id']] = v
            if kind in ('derived', 'derived_mc'):
                keys = ('mremain', 'intsfh', 'mtol', 'b50', 'b300', 'b1000', 'metallicity')
                observe(o, lambda: dict(r=[arr(v[x]) for x in keys]))
            else:
                observe(o, lambda: dict(r=[arr(x) for x in (v if isinstance(v, tuple) else (v,))]))
        q = dict(k=kind, z=qa.get('redshift', ABSENT))
        opt = op.get('opt', {})
        if kind == 'asinhfit':
            q.update(k='fit', mc=0)
            kind = 'fit'
            q.update(m=ABSENT, iv=ABSENT, asinh=dict(mag=qa.get('mag', ABSENT), err=qa.get('mag_err', ABSENT),
                                                     ext=qa.get('extinction', ABSENT)))
        elif kind == 'fit':
            q.update(m=qa.get('maggies', ABSENT), iv=qa.get('ivar', ABSENT), mc=int(opt.get('mc', 0)))
        else:
            q.update(bs=num(opt.get('band_shift', 0.)))
            q['c'] = qa.get('coeffs', qa.get('coeffs_mc', ABSENT))
        if kind == 'fit':
            q['fault'] = self.fault
        if kind == 'recon':
            q['which'] = op.get('which', 'in')
        if kind in ('absmag', 'absmag_mc', 'derived', 'derived_mc'):
            q['dist'] = qa.get('distance', ABSENT)
            q['dm'] = self.distmod(h, a.get('redshift'))
        if kind in ('absmag', 'absmag_mc'):
            q['m'] = qa.get('maggies', qa.get('maggies_mc', ABSENT))
            q['iv'] = qa.get('ivar', ABSENT)
            q['opts'] = dict(rec=bool(opt.get('reconstruct', False)), lim=bool(opt.get('limit', False)),
                             k=bool(opt.get('kcorrect', False)))
        if kind in ('absmag_mc', 'derived_mc'):
            q['mc'] = int(q['c']['s'][-1]) if q['c']['s'] else 0
        self.emit(dict(op='Query', k=h, qid=op.get('qid', ''), q=q, o=o, mut=mut))

    def op_Kept(self, op):
        """are the results of earlier queries what they were?"""
        now = lambda v: freeze(list(v.values()) if isinstance(v, dict) else v)
        self.emit(dict(op='Kept', n=len(self.kept), changed=[str(n) for n, v, f in self.kept if now(v) != f]))
        self.kept = []

    def op_Scribble(self, op):
        """the caller overwrites the results it has been given"""
        for n, v, f in self.kept:
            for x in (list(v.values()) if isinstance(v, dict) else v if isinstance(v, tuple) else (v,)):
                try:
                    x[...] = -7.5
                except Exception:
                    pass
        self.kept = []

    def distmod(self, h, z):
        try:
            z = np.float32(z)
            d = cosmology(self.cosmo.get(h, 'default')).distmod(z).to_value('mag')
            return arr(d)
        except Exception:
            return ABSENT

    # -- saving ---------------------------------------------------------------
    def op_SaveSed(self, op):
        s = self.sed(op['s'])
        p = op['p']
        kw = {}
        if op.get('clobber') is not None:
            kw['clobber'] = op['clobber']
        if op.get('ext'):
            kw['ext'] = op['ext']
        if op.get('bin') is not None:
            s.binimage = op['bin']
        before = open(p, 'rb').read() if os.path.isfile(p) else None
        o, v = outcome(lambda: s.tofits(filename=p, **kw))
        after = open(p, 'rb').read() if os.path.isfile(p) else None
        self.emit(dict(op='SaveSed', s=op['s'], p=p, clobber=op.get('clobber') is not False, o=o,
                       samefile=before == after))

    def op_LoadSed(self, op):
        T = self.env.mod.template
        kw = {}
        if op.get('itp') is not None:
            kw['interpolate'] = op['itp']
        if op.get('ext'):
            kw['ext'] = op['ext']
        C = T.Template if op.get('tmpl') else T.SED
        s0 = self.sed(op['s']) if op.get('into') else None

        def go():
            if s0 is None:
                return C(filename=op['p'], **kw)
            s0.fromfits(filename=op['p'], **kw)
            return s0
        o, v = outcome(go)
        if o['t'] == 'ok':
            self.env.seds[op['s']] = v
            observe(o, lambda: dict(x=obs_sed(v)))
        self.emit(dict(op='LoadSed', s=op['s'], p=op['p'], tmpl=bool(op.get('tmpl')), o=o))

    def op_SaveKc(self, op):
        k = self.env.kcs.get(op['k'])
        o, v = outcome(lambda: k.tofits(filename=op['p']))
        self.emit(dict(op='SaveKc', k=op['k'], p=op['p'], o=o))

    def op_LoadKc(self, op):
        K = self.env.mod.kcorrect
        kw = {}
        if op.get('cosmo', 'default') != 'default':
            kw['cosmo'] = cosmology(op['cosmo'])
        self.cosmo[op['k']] = op.get('cosmo', 'default')
        if op.get('into'):            # read into an existing object
            k0 = self.env.kcs.get(op['into'])

            def go():
                k0.fromfits(filename=op['p'])
                return k0
            o, v = outcome(go)
        else:
            o, v = outcome(lambda: K.Kcorrect(filename=op['p'], **kw))
        if o['t'] == 'ok':
            self.env.kcs[op['k']] = v
            self.env.seds[op['s']] = v.templates
            observe(o, lambda: dict(x=obs_kc(v), xs=obs_sed(v.templates)))
        cls = op.get('cls', 'base')
        self.emit(dict(op='LoadKc', k=op['k'], s=op['s'], p=op['p'], cls=cls, o=o))

    # -- functions -------------------------------------------------------------
    def op_Func(self, op):
        U = self.env.mod.utils
        f = op['f']
        a = {n: self.env.arg(d) for n, d in op.get('a', {}).items()}
        fr = {n: freeze(v) for n, v in a.items()}
        qa = {n: arr(safe(v)) for n, v in a.items()}
        g = lambda n: qa.get(n, ABSENT)
        if f == 'sdss_ab':
            q = dict(m=g('maggies'), iv=g('ivar'), fix=g('abfix'))
            o, v = outcome(lambda: U.sdss_ab_correct(**a))
        elif f == 'to_ab':
            k = self.env.kcs.get(op['k'])
            q = dict(m=g('maggies'), iv=g('ivar'), cls=op['cls'])
            o, v = outcome(lambda: k.to_ab(**a))
        elif f == 'asinh':
            q = dict(m=g('mag'), e=g('mag_err'), x=g('extinction'))
            o, v = outcome(lambda: U.sdss_asinh_to_maggies(**a))
        elif f == 'floor':
            q = dict(m=g('maggies'), iv=g('ivar'), floor=g('floor'))
            o, v = outcome(lambda: U.error_floor(**a))
        elif f == 'sed_ab':
            q = dict(w=g('wave'))
            o, v = outcome(lambda: U.sed_ab(**a))
        elif f == 'basel':
            words = open(op['p']).read().split()
            q = dict(words=[num(x) for x in words])
            o, v = outcome(lambda: U.read_basel(filename=op['p']))
            if o['t'] == 'ok':
                o2, v2 = outcome(lambda: (v[1], v[2]) + tuple(v[0][x] for x in
                                 ('modelno', 'teff', 'logg', 'mh', 'vturb', 'xh')))
                o, v = o2, v2
        elif f == 'descr':
            q, o, v = self.descr(op, a)
        if o['t'] == 'ok':
            if op.get('id'):
                self.env.results[op['id']] = v
            observe(o, lambda: dict(r=[arr(x) for x in (v if isinstance(v, tuple) else (v,))]))
        mut = [n for n in a if freeze(a[n]) != fr[n]]
        self.emit(dict(op='Func', f=f, q=q, o=o, mut=mut, qid=op.get('qid', '')))

    def descr(self, op, a):
        R = self.env.mod.response
        src = op['src']
        if src == 'reg':               # as registered; the curve is in the trace already
            def mk():
                r = R.ResponseDict()[op['n']]
                return (r.wave, r.response, r.lambda_eff, r.fwhm_low, r.fwhm_high, r.fwhm,
                        r.solar_magnitude, r.vega2ab)
            o, v = outcome(mk)
            return dict(n=op['n']), o, v
        w, p = a['wave'], a['response']
        q = dict(w=nums(w), v=nums(p))
        if op.get('p'):
            self.world.own.add(op['p'])

        def mk():
            if src == 'arrays':
                r = R.Response(wave=w, response=p)
            elif src == 'dat':
                with open(op['p'], 'w') as fp:
                    fp.write('|             lambda |               pass |\n')
                    for x, y in zip(w, p):
                        fp.write('| %18.8g | %18.8g |\n' % (x, y))
                r = R.Response(filename=op['p'])
            elif src == 'fits':
                r0 = R.Response(wave=w, response=p)
                r0.tofits(filename=op['p'], clobber=True)
                r = R.Response()
                r.fromfits(filename=op['p'])
            elif src == 'fitsraw':        # unsorted table written by hand
                import astropy.io.fits as fits
                n = len(w)
                t = np.zeros(1, dtype=[('wave', np.float32, n), ('response', np.float32, n)])
                t['wave'] = w
                t['response'] = p
                fits.BinTableHDU(t).writeto(op['p'], overwrite=True)
                r = R.Response()
                r.fromfits(filename=op['p'])
            return (r.wave, r.response, r.lambda_eff, r.fwhm_low, r.fwhm_high, r.fwhm,
                    r.solar_magnitude, r.vega2ab)
        o, v = outcome(mk)
        return q, o, v

    def op_M2F(self, op):
        U = self.env.mod.utils
        a = {n: self.env.arg(d) for n, d in op.get('a', {}).items()}
        fr = {n: freeze(v) for n, v in a.items()}
        qa = {n: arr(safe(v)) for n, v in a.items()}
        for n in op['names']:
            self.tracked.add(n)
        o, v = outcome(lambda: U.maggies2flambda(responses=list(op['names']), **a))
        observe(o, lambda: dict(r=[arr(x) for x in v]))
        self.emit(dict(op='M2F', names=op['names'], q=dict(m=qa.get('maggies', ABSENT), iv=qa.get('ivar', ABSENT)),
                       o=o, mut=[n for n in a if freeze(a[n]) != fr[n]], after=self.names()))

    def op_Same(self, op):
        def get(d):
            return arr(self.env.arg(d))
        o1, x = outcome(lambda: get(op['x']))
        o2, y = outcome(lambda: get(op['y']))
        if o1['t'] != 'ok' or o2['t'] != 'ok':
            x, y = {'s': [1], 'v': ['NaN']}, {'s': [1], 'v': ['0.0']}
        self.emit(dict(op='Same', what=op['what'], rel=op.get('rel', 'same'), by=num(op.get('by', 1.)), a=x, b=y, rtol=num(op.get('rtol', 1e-5)), atol=num(op.get('atol', 0.))))

    def op_Differ(self, op):
        x, y = [outcome(lambda: arr(self.env.arg(op[n])))[1] for n in 'xy']
        if x is None or y is None:
            x = y = ABSENT
        self.emit(dict(op='Differ', what=op['what'], a=x, b=y))

    def op_Stats(self, op):
        """standardised deviates of the Monte Carlo draws of an earlier fit"""
        x = []
        try:
            for of in op['of']:
                c, cm, mm = self.env.results[of]
                m = np.asarray(op['m'], dtype=float)
                iv = np.asarray(op['iv'], dtype=float)
                d = (np.asarray(mm, dtype=float) - m[..., np.newaxis]) * np.sqrt(iv)[..., np.newaxis]
                d = d.reshape(-1, d.shape[-1])
                x += [nums(r) for r, w in zip(d, iv.ravel()) if w > 0.]
        except Exception:
            x = [['NaN']]
        self.emit(dict(op='Stats', x=x))


def safe(v):
    """an argument as numbers, for the record (ragged input: absent shape)"""
    if v is None:
        return None
    try:
        return np.asarray(v, dtype=np.float64)
    except Exception:
        return np.zeros((0, 0, 0, 0))


def write_template(fn, w, f, props, layout):
    import astropy.io.fits as fits
    f = np.atleast_2d(f)
    hdus = [fits.PrimaryHDU()]
    if layout == 'binimage':
        hdus.append(fits.ImageHDU(w, name='WAVE'))
        hdus.append(fits.ImageHDU(f, name='FLUX'))
    else:
        t = np.zeros(1, dtype=[('wave', np.float32, len(w)), ('flux', np.float32, f.shape)])
        t['wave'] = w
        t['flux'] = f
        hdus.append(fits.BinTableHDU(t, name='FLUX'))
    for p in PROPS:
        if p in props:
            hdus.append(fits.ImageHDU(np.array(props[p], dtype=np.float32), name=p.upper()))
    fits.HDUList(hdus).writeto(fn, overwrite=True)


def main():
    plan = json.load(open(sys.argv[1]))
    first, last = int(sys.argv[3]), int(sys.argv[4])
    import kcorrect
    assert os.path.realpath(kcorrect.__file__).startswith('/repo/'), kcorrect.__file__
    with open(sys.argv[2], 'a') as out:
        r = Runner(out)
        r.watch = bool(plan.get('watch'))
        for op in plan['track']:
            r.tracked.add(op)
        for op in plan['ops'][first:last]:
            r.run(op)


if __name__ == '__main__':
    main()
