"""Runs plans against the real code, and TLC on the specification."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
DRIVER = os.path.join(VERIF, 'harness', 'kv', 'driver.py')


# properties that are also about what calls do to the rest of the process
WATCH = {'C13', 'C15', 'C16', 'C23', 'C28'}


class MachineryError(Exception):
    pass


class Engine(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='kv-%s-' % prop)
        self.nrun = self.ncfg = 0
        self.tables = {}
        self.questions = set()
        self.nevents = 0
        self.stats = dict(states=0, transitions=0, traces=0, lines=0, judged=0, models=[])
        self.samples = []
        self.bad = []
        env = dict(os.environ)
        env.update(MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(self.scratch, 'mpl'),
                   PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1',
                   OMP_NUM_THREADS='1', HOME=self.scratch)
        env.pop('PYTHONPATH', None)
        self.env = env
        self.classes = os.path.join(self.scratch, 'classes')
        os.makedirs(self.classes)
        self.specdir = os.path.join(self.scratch, 'spec')
        shutil.copytree(SPEC, self.specdir)
        r = subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', self.classes,
                            os.path.join(VERIF, 'java', 'F64.java')], capture_output=True, text=True)
        if r.returncode != 0:
            raise MachineryError('javac: ' + r.stderr)

    def close(self):
        if os.environ.get('KV_KEEP'):
            print('scratch kept: ' + self.scratch)
            return
        shutil.rmtree(self.scratch, ignore_errors=True)

    def rng(self, salt=''):
        import zlib
        return np.random.RandomState((self.seed * 7919 + zlib.crc32((self.prop + salt).encode())) % 2**31)

    # -- TLC -----------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, args=(), timeout=600, mem='3g', workers='1', ok_codes=(0,)):
        meta = tempfile.mkdtemp(prefix='tlc', dir=self.scratch)
        e = dict(self.env)
        e.update(env or {})
        cmd = ['java', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss64m',
               '-XX:TieredStopAtLevel=4', '-Djava.io.tmpdir=' + self.scratch,
               '-cp', JARS + ':' + self.classes, 'tlc2.TLC', '-nowarning',
               '-workers', workers, '-metadir', meta, '-config', (cfg or module) + '.cfg'] + list(args) + [module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=self.specdir, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on %s' % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        if r.returncode not in ok_codes:
            i = r.stdout.find('Error:')
            raise MachineryError('TLC failed on %s (%d):\n%s' % (module, r.returncode, (r.stdout[i:i + 2500] if i >= 0 else
                                                                  (r.stdout + r.stderr)[-2500:])))
        return r

    @staticmethod
    def tlc_counts(out):
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        return (int(m.group(1)), int(m.group(2))) if m else (0, 0)

    def model_check(self, module, cfg=None, timeout=600, workers='4', args=()):
        """exhaustive run of a model: invariants and action properties"""
        r = self.tlc(module, cfg, timeout=timeout, workers=workers, args=args)
        gen, dist = self.tlc_counts(r.stdout)
        if 'Model checking completed. No error has been found' not in r.stdout:
            raise MachineryError('model %s: %s' % (cfg or module, r.stdout[-2000:]))
        self.stats['states'] += dist
        self.stats['transitions'] += gen
        self.stats['models'].append(dict(model=cfg or module, states=dist, transitions=gen))
        return r

    def cases(self, family):
        """the case table of a family, enumerated by TLC from Cases.tla"""
        out = os.path.join(self.scratch, 'cases-%s.ndjson' % family)
        self.tlc('Cases', env=dict(CASEFILE=out, FAMILY=family))
        with open(out) as fp:
            rows = [json.loads(x) for x in fp if x.strip()]
        self.tables[family] = [0, len(rows)]
        # TLC's order is an artefact of its fingerprints; make it canonical
        return sorted(rows, key=lambda x: json.dumps(x, sort_keys=True))

    def select(self, family, quick, thorough=None, where=None):
        """cases to run: all of them, or (quick) a seeded choice of the given
        size that first covers every pair of values of two fields"""
        rows = self.cases(family)
        if where:
            rows = [r for r in rows if where(r)]
        k = quick if self.tier == 'quick' else thorough
        rng = self.rng('select' + family)
        rng.shuffle(rows)
        if k is not None and k < len(rows):
            rows = pairwise(rows, k)
        self.tables[family][0] += len(rows)
        return rows

    def histories(self, start, acts, depth, cfgs='CfgAll', num=None, names=('n1', 'n2'), contents=('B3', 'bad'),
                  seds=('s1', 's2', 's3'), kcs=('k1', 'k2', 'k3'), paths=('f1',), zs=(0, 1, 2)):
        """behaviours of the session model as sequences of calls: all those of
        the given length, or num random ones"""
        self.ncfg += 1
        cfg = 'Gen%d' % self.ncfg
        q = lambda v: '{' + ', '.join('"%s"' % x for x in v) + '}'
        with open(os.path.join(self.specdir, cfg + '.cfg'), 'w') as fp:
            fp.write('SPECIFICATION GSpec\nCONSTANTS\n ShW <- SymShW\n ShF <- SymShF\n Prj <- SymPrj\n Z0 = 0\n'
                     ' Acts = %s\n Names = %s\n Contents = %s\n SedHs = %s\n KcHs = %s\n Paths = %s\n'
                     ' Zs = {%s}\n Cfgs <- %s\n Depth = %d\n Start = "%s"\n'
                     'CONSTRAINT GBound\nINVARIANTS InvFrames InvMapped InvSame Emit\nCHECK_DEADLOCK FALSE\n' % (
                         q(acts), q(names), q(contents), q(seds), q(kcs), q(paths), ','.join(map(str, zs)), cfgs, depth, start))
        args = [] if num is None else ['-simulate', 'num=%d' % num, '-depth', str(depth + 1), '-seed', str(1000 + self.seed)]
        r = self.tlc('GenSession', cfg, args=args, timeout=600)
        hs = sorted({json.loads(ln)[4:] for ln in r.stdout.splitlines() if ln.startswith('"BEH ')})
        hs = [json.loads(h) for h in hs]
        if num is not None:           # every last call of a walk is printed: one of them
            ends = {}
            for h in hs:
                ends.setdefault(json.dumps(h[:-1]), []).append(h)
            rw = self.rng('walk%d' % self.ncfg)
            hs = [v[int(rw.randint(len(v)))] for k, v in sorted(ends.items())]
        if not hs:
            raise MachineryError('no behaviours: ' + r.stdout[-2000:])
        if num is None:
            gen, dist = self.tlc_counts(r.stdout)
            self.stats['states'] += dist
            self.stats['transitions'] += gen
        else:
            m = re.search(r'The number of states generated: (\d+)', r.stdout)
            gen, dist = int(m.group(1)) if m else 0, 0
            self.stats['transitions'] += gen
        self.stats['models'].append(dict(model='GenSession', acts=list(acts), depth=depth, start=start,
                                         mode='exhaustive' if num is None else 'random',
                                         behaviours=len(hs), states=dist, transitions=gen))
        return hs

    # -- plans ------------------------------------------------------------------
    def dir(self):
        self.nrun += 1
        d = os.path.join(self.scratch, 'r%d' % self.nrun)
        os.makedirs(d)
        return d

    def drive(self, d, ops):
        """executes a plan, one process per stretch between restarts"""
        track = sorted({x for op in ops for x in _names(op)})
        plan = os.path.join(d, 'plan.json')
        trace = os.path.join(d, 'trace.ndjson')
        json.dump(dict(ops=ops, track=track, watch=self.prop in WATCH), open(plan, 'w'))
        with open(trace, 'w') as fp:
            fp.write(json.dumps(head()) + '\n')
        i = 0
        while i < len(ops):
            j = i
            while j < len(ops) and ops[j]['op'] != 'Restart':
                j += 1
            cmd = [PY, DRIVER, plan, trace, str(i), str(j)]
            err = ''
            try:
                r = subprocess.run(cmd, cwd=d, env=self.env, capture_output=True, text=True,
                                   timeout=300 if self.tier == 'quick' else 1800)
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            if rc != 0:
                if rc == 1 and 'driver.py' in err and 'Error' in err and self._harness_fault(err):
                    raise MachineryError('driver: ' + err[-2000:])
                with open(trace, 'a') as fp:
                    fp.write('\n' + json.dumps(dict(op='Crash', rc=str(rc), err=err[-500:])) + '\n')
                break
            if j < len(ops):
                with open(trace, 'a') as fp:
                    fp.write(json.dumps(dict(op='Restart')) + '\n')
            i = j + 1
        return trace

    @staticmethod
    def _harness_fault(err):
        """an exception whose innermost frame is the driver's own"""
        fr = re.findall(r'File "([^"]+)", line', err)
        return bool(fr) and fr[-1].endswith('kv/driver.py')

    def validate(self, trace):
        v = trace + '.verdict'
        self.tlc('Trace', env=dict(TRACE=trace, VERDICT=v), timeout=800 if self.tier == 'quick' else 3600, mem='4g')
        with open(v) as fp:
            rows = [json.loads(x) for x in fp if x.strip()]
        return rows[0], rows[1:]

    def run_plans(self, plans, jobs=6, keep_sample=True):
        """plans: list of (name, ops or function(dir) -> ops)"""
        def one(item):
            name, ops = item
            d = self.dir()
            if callable(ops):
                ops = ops(d)
            t0 = time.time()
            t = self.drive(d, ops)
            t1 = time.time()
            summary, bad = self.validate(t)
            if os.environ.get('KV_TIME'):
                print('  %s: %d ops, %.1f s run, %.1f s validated' % (name, len(ops), t1 - t0, time.time() - t1), flush=True)
            return name, d, ops, t, summary, bad
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for name, d, ops, t, summary, bad in ex.map(one, plans):
                self.stats['traces'] += 1
                self.stats['lines'] += summary['lines']
                self.stats['judged'] += summary['judged']
                self.count(t)
                lines = None
                for b in bad:
                    if lines is None:
                        lines = open(t).read().splitlines()
                    b = dict(b)
                    b.update(plan=name, trace=t)
                    if len(self.bad) < 40:
                        b['event'] = lines[b['line'] - 1][:4000]
                    self.bad.append(b)
                if len(self.samples) < 3 and keep_sample:
                    ls = open(t).read().splitlines()
                    k = min(len(ls) - 1, 1 + (self.seed + 5 * len(self.samples)) % max(1, len(ls) - 1))
                    self.samples.append(dict(plan=name, line=k, event=ls[k][:800]))

    def count(self, trace):
        """distinct calls judged, by their arguments"""
        with open(trace) as fp:
            for ln in fp:
                ev = json.loads(ln) if ln.strip() else {'op': ''}
                if ev['op'] in PASSIVE:
                    continue
                ev.pop('o', None)
                self.nevents += 1
                self.questions.add(hash(json.dumps(ev, sort_keys=True)))

    # -- results ---------------------------------------------------------------
    def finish(self, level, rule, assumptions=(), extra=None):
        known = json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
        mine = [k for k in known if k['property'] == self.prop and k['status'] == 'open']
        left = []
        hit = {}
        for b in self.bad:
            for k in mine:
                if re.search(k['plan'], b['plan']) and b['clause'] == k['clause'] and b['op'] == k['op']:
                    hit[k['id']] = hit.get(k['id'], 0) + 1
                    break
            else:
                left.append(b)
        for k in mine:
            if k['id'] in hit:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        st = self.stats
        cov = dict(states=st['states'], transitions=st['transitions'],
                   traces_validated_against_impl=st['traces'], evaluations=self.nevents,
                   distinct_nontrivial=len(self.questions), trace_lines=st['lines'], clauses_judged=st['judged'],
                   case_tables={k: dict(run=v[0], enumerated=v[1]) for k, v in self.tables.items()}, models=st['models'], rule=rule, samples=self.samples or ['none'])
        cov.update(extra or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2), violations=len(left))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1)
        rc = 0
        rd = os.path.join(VERIF, 'evidence', 'replay-%s' % self.prop)
        shutil.rmtree(rd, ignore_errors=True)
        if left:
            os.makedirs(rd)
            for i, t in enumerate(sorted({b['trace'] for b in left})[:3]):
                for fn in ('plan.json', 'trace.ndjson', 'trace.ndjson.verdict'):
                    src = os.path.join(os.path.dirname(t), fn)
                    if os.path.exists(src) and os.path.getsize(src) < 2e7:
                        shutil.copy(src, os.path.join(rd, '%d-%s' % (i, fn)))
            with open(os.path.join(rd, 'violations.json'), 'w') as fp:
                json.dump(left[:40], fp, indent=1)
            seen = set()
            for b in left:
                key = (b['op'], b['clause'])
                if key not in seen and len(seen) < 12:
                    seen.add(key)
                    print('  %s: %s (plan %s, line %d)' % (b['op'], b['clause'], b['plan'], b['line']))
            print('VIOLATION property=%s replay=%s' % (self.prop, rd))
            rc = 1
        print('%s %s: %d traces, %d events, %d clauses, %d model states, %.1f s, %d violations' % (
            self.prop, self.tier, st['traces'], st['lines'], st['judged'], st['states'], time.time() - self.t0, len(left)))
        return rc


# lines of a trace that ask the code nothing
PASSIVE = {'', 'Head', 'WriteDat', 'BadDat', 'RmFile', 'Restart', 'Same', 'Stats'}


def pairwise(rows, k):
    """the first k rows of a greedy choice covering pairs of field values"""
    keys = sorted(rows[0])
    val = [[json.dumps(r[x]) for x in keys] for r in rows]
    pairs = [{(i, j, v[i], v[j]) for i in range(len(keys)) for j in range(i)} for v in val]
    left = set().union(*pairs)
    todo = list(range(len(rows)))
    out = []
    while todo and len(out) < k and left:
        cand = todo[:60]
        best = max(cand, key=lambda n: len(pairs[n] & left))
        if not pairs[best] & left:
            best = max(todo, key=lambda n: len(pairs[n] & left))
        left -= pairs[best]
        out.append(best)
        todo.remove(best)
        todo = todo[40:] + todo[:40]
    out += todo[:k - len(out)]
    return [rows[i] for i in out]


def _names(op):
    for k in ('n', 'p'):
        if isinstance(op.get(k), str) and op['op'] in ('WriteDat', 'BadDat', 'Load', 'PkgDat', 'Project'):
            yield op[k]
    for k in ('resp', 'out', 'map', 'names'):
        if isinstance(op.get(k), list):
            for x in op[k]:
                yield x
    if op['op'] == 'List':
        for x in os.listdir(op['d']) if os.path.isdir(op['d']) else []:
            if x.endswith('.dat'):
                yield os.path.join(op['d'], x[:-4])


_HEAD = None


def head():
    """reference spectra of the Sun (10 pc) and Vega from the packaged Basel
    files, converted here from the format's documentation"""
    global _HEAD
    if _HEAD is None:
        h = {'op': 'Head'}
        for nm, fn, radius, pc in (('sun', 'lcbsun.ori', 6.960e10, 10.), ('vega', 'lcbvega.ori', 1.91144e11, 7.68)):
            words = open('/repo/src/kcorrect/data/basel/' + fn).read().split()
            w = np.array([float(x) for x in words[:1221]]) * 10.
            f = np.array([float(x) for x in words[1227:1227 + 1221]])
            f = 4. * np.pi * f * 2.99792e18 / w**2 * (radius / (pc * 3.086e18))**2
            h[nm] = dict(w=[repr(float(x)) for x in w], f=[repr(float(x)) for x in f])
        _HEAD = h
    return _HEAD
