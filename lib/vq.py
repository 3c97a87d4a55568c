"""Common machinery of the checks: build the code under test from /repo's
working tree, run TLC, encode recorded executions, collect verdicts, write
evidence.  Runs under /opt/venv/bin/python (the interpreter of the project)."""
import atexit
import contextlib
import glob
import hashlib
import io
import json
import math
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VQ_REPO', '/repo')
TLA = '/opt/veriftools/tla/tla2tools.jar'
TLACM = '/opt/veriftools/tla/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python'
RB = 15


# ------------------------------------------------------------------ numbers
def R(x):
    """Exact encoding of a machine number as a Real.tla tuple."""
    try:
        x = float(x)
    except Exception:
        return [2, 0]
    if x != x or x in (math.inf, -math.inf):
        return [2, 0]
    if x == 0.:
        return [0, 0]
    num, den = x.as_integer_ratio()
    k = den.bit_length() - 1            # den = 2**k
    s = 1 if num > 0 else -1
    num = abs(num)
    lo = -((k + RB - 1) // RB)
    num <<= (-lo * RB - k)
    d = []
    while num:
        d.append(num & 32767)
        num >>= RB
    while d and d[0] == 0:
        d.pop(0)
        lo += 1
    return [s, lo + len(d)] + d[::-1]


def RL(seq):
    return [R(v) for v in seq]


def RM(m):
    return [[R(v) for v in row] for row in m]


def decode(t):
    """Approximate inverse of R (for messages)."""
    if t[0] == 2:
        return float('nan')
    v = 0.
    for i, d in enumerate(t[2:]):
        v += d * 2.0 ** (RB * (t[1] - i - 1))
    return t[0] * v


class CaseTimeout(BaseException):
    pass


class VQ(object):

    def __init__(self, pid, level='model_checking', need_ext=True):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(self.seed * 1000003 + int(hashlib.sha1(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='vq-%s-' % pid)
        self.workdir = os.path.join(self.scratch, 'work')
        os.mkdir(self.workdir)
        atexit.register(self._cleanup)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0,
                    'samples': []}
        self.bad = []          # (case key, clause, detail)
        self.events = []       # buffered trace lines of the current trace
        self.ncases = 0
        self.design = []
        self.clause_counts = {}
        self.need_ext = need_ext
        self._case_key = None
        os.environ.update(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
                          OMP_NUM_THREADS='2', OPENBLAS_NUM_THREADS='1')
        sys.dont_write_bytecode = True

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a)
        sys.stdout.flush()

    def _cleanup(self):
        if self.scratch.startswith(tempfile.gettempdir() + '/vq-'):
            shutil.rmtree(self.scratch, ignore_errors=True)

    # -------------------------------------------------------------- building
    def build(self):
        """Copy the working tree of the package and build its extensions."""
        src = os.path.join(self.scratch, 'src')
        os.mkdir(src)
        ign = shutil.ignore_patterns('*.so', '*.c', '__pycache__', '*.pyc')
        shutil.copytree(os.path.join(REPO, 'quantas'), os.path.join(src, 'quantas'), ignore=ign)
        for f in ('setup.py', 'README.md', 'LICENSE', 'requirements.txt'):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                shutil.copy(p, src)
        if self.need_ext:
            env = dict(os.environ, CFLAGS=os.environ.get('CFLAGS', '') + ' -O1')
            r = subprocess.run([PY, 'setup.py', 'build_ext', '--inplace', '-j4'], cwd=src,
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                print(r.stdout[-4000:])
                self.fail_machinery('the extensions do not build')
        sys.path.insert(0, src)
        self.src = src
        warnings.simplefilter('ignore')
        self.log('built', src)

    def fail_machinery(self, msg):
        print('MACHINERY-ERROR', msg)
        sys.stdout.flush()
        sys.exit(2)

    # ------------------------------------------------------------------- TLC
    def tlc_setup(self):
        if getattr(self, '_cls', None):
            return
        self._cls = os.path.join(self.scratch, 'cls')
        os.mkdir(self._cls)
        src = glob.glob(os.path.join(VERIF, 'spec', '*.java'))
        r = subprocess.run(['javac', '-d', self._cls, '-cp', TLA + ':' + TLACM] + src,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout)
            self.fail_machinery('javac failed')
        for f in glob.glob(os.path.join(VERIF, 'spec', '*.tla')):
            shutil.copy(f, self.workdir)

    def tlc(self, module, cfg, workers=1, timeout=600, extra=(), simulate=None):
        """Run TLC on a module with the given configuration text."""
        self.tlc_setup()
        n = getattr(self, '_ntlc', 0) + 1
        self._ntlc = n
        cfgf = os.path.join(self.workdir, '%s_%d.cfg' % (module, n))
        with open(cfgf, 'w') as f:
            f.write(cfg)
        cmd = ['java', '-Xss64m', '-Xmx6g', '-XX:+UseParallelGC', '-cp',
               ':'.join([self._cls, TLA, TLACM]), 'tlc2.TLC', '-noGenerateSpecTE',
               '-metadir', os.path.join(self.scratch, 'meta%d' % n),
               '-workers', str(workers), '-config', cfgf]
        if simulate:
            cmd += ['-simulate', simulate[0], '-depth', str(simulate[1]),
                    '-seed', str(self.seed)]
        else:
            cmd += ['-fp', '11']
        cmd += list(extra) + [module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=self.workdir, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as e:
            out = e.stdout or ''
            if isinstance(out, bytes):
                out = out.decode(errors='replace')
            rc = -9
        shutil.rmtree(os.path.join(self.scratch, 'meta%d' % n), ignore_errors=True)
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return dict(rc=rc, out=out, generated=gen, distinct=dist,
                    ok=('No error has been found' in out or (bool(simulate) and rc == 0 and 'Error:' not in out)), prints=self._prints(out))

    @staticmethod
    def _prints(out):
        res = []
        for line in out.splitlines():
            if line.startswith('"VQ'):
                try:
                    res.append(json.loads(line))
                except ValueError:
                    res.append(line.strip('"'))
        return res

    def check_design(self, module, cfg, name=None, workers=4, timeout=600, expect_violation=False, **kw):
        """Model-check the design; the properties are invariants there."""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, **kw)
        if expect_violation:
            good = 'is violated' in r['out']
        else:
            good = r['ok']
        if not good:
            print(r['out'][-6000:])
            self.fail_machinery('design model %s failed' % (name or module))
        self.cov['states'] += r['distinct']
        self.cov['transitions'] += r['generated']
        self.design.append({'model': name or module, 'distinct_states': r['distinct'],
                            'states_generated': r['generated']})
        self.log('design', name or module, r['distinct'], 'states')
        return r

    def scenarios(self, module, cfg, name=None, **kw):
        """Design run whose scenarios / behaviours are printed as VQSC <json>."""
        r = self.check_design(module, cfg, name, workers=1, **kw)
        seen, res = set(), []
        for p in r['prints']:
            if p.startswith('VQSC ') and p not in seen:
                seen.add(p)
                res.append(json.loads(p[5:]))
        if not res:
            self.fail_machinery('no scenario generated by ' + module)
        return res

    # -------------------------------------------------------------- recording
    def emit(self, **ev):
        ev['case'] = str(self._case_key)
        self.events.append(ev)

    @contextlib.contextmanager
    def case(self, key, limit=60):
        """Drive the code under test; whatever escapes is a recorded crash."""
        self._case_key = key
        self.ncases += 1

        def onalarm(sig, frame):
            raise CaseTimeout()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            yield
        except KeyboardInterrupt:
            raise
        except CaseTimeout:
            self.bad.append((str(key), 'terminates', 'no answer within %ds' % limit))
        except BaseException as e:
            self.bad.append((str(key), 'completes', ''.join(
                traceback.format_exception(type(e), e, e.__traceback__))[-1500:]))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    @staticmethod
    def attempt(fn, *a, **k):
        """('ok', value) or ('exc', type name, text)"""
        try:
            return ('ok', fn(*a, **k))
        except CaseTimeout:
            raise
        except (Exception, SystemExit) as e:
            return ('exc', type(e).__name__, str(e))

    # ------------------------------------------------------------- validation
    def validate(self, module, cfg_extra='', workers=8, timeout=800, stateful=False, chunk=None):
        """Check the recorded lines against the trace specification `module`.
        The module reads trace.ndjson and prints "VQBAD <line> <clause>"."""
        if not self.events:
            return
        evs = self.events
        self.events = []
        path = os.path.join(self.workdir, 'trace.ndjson')
        with open(path, 'w') as f:
            for e in evs:
                f.write(json.dumps(e) + '\n')
        w = 1 if stateful else workers
        cfg = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + cfg_extra
        cfg += 'CONSTANT Stride = %d\n' % w
        r = self.tlc(module, cfg, workers=w, timeout=timeout)
        if os.environ.get('VQ_TLC_OUT'):
            print(r['out'])
        nbad = 0
        for p in r['prints']:
            if p.startswith('VQBAD '):
                _, line, clause = p.split(' ', 2)
                ev = evs[int(line) - 1]
                self.bad.append((ev['case'], clause, json.dumps(ev)[:int(os.environ.get("VQ_DETAIL", "3000"))]))
                nbad += 1
            elif p.startswith('VQCNT '):
                _, n, clause = p.split(' ', 2)
                self.clause_counts[clause] = self.clause_counts.get(clause, 0) + int(n)
        if not r['ok']:
            if 'Parsing or semantic' in r['out'] or r['rc'] == -9 or 'OutOfMemory' in r['out']:
                print(r['out'][-5000:])
                self.fail_machinery('trace validation with %s failed' % module)
            print(r['out'][-3000:])
            m = re.search(r'\bl = (\d+)', r['out'])
            key = evs[int(m.group(1)) - 1]['case'] if m and int(m.group(1)) <= len(evs) else module
            self.bad.append((key, 'trace-not-explainable', r['out'][-1500:]))
        elif r['distinct'] < len(evs):
            self.fail_machinery('trace of %d lines, only %d states' % (len(evs), r['distinct']))
        self.cov['states'] += r['distinct']
        self.cov['transitions'] += r['generated']
        self.cov['traces_validated_against_impl'] += len(set(e['case'] for e in evs))
        self.cov['trace_lines_validated'] = self.cov.get('trace_lines_validated', 0) + len(evs)
        if len(self.cov['samples']) < 4:
            s = json.dumps(evs[self.rng.randrange(len(evs))])
            self.cov['samples'].append(s[:1500])
        self.log('validated', len(evs), 'lines with', module, '-', nbad, 'bad')
        return nbad

    # ------------------------------------------------------------------ result
    def finish(self):
        known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))['findings'] if k['property'] == self.pid]
        new, seen = [], {}
        for key, clause, detail in self.bad:
            hit = None
            for k in known:
                if re.fullmatch(k['case'], key) and re.fullmatch(k['clause'], clause):
                    hit = k
                    break
            if hit is not None:
                seen[hit['id']] = seen.get(hit['id'], 0) + 1
            else:
                new.append((key, clause, detail))
        for k in known:
            if k['id'] in seen:
                print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k['id'], k['what']))
        cov = self.cov
        cov['cases_driven'] = self.ncases
        cov['design_models'] = self.design
        if self.clause_counts:
            cov['clause_evaluations'] = self.clause_counts
        cov['known_findings_seen'] = seen
        if not cov['samples']:
            cov['samples'] = ['(no trace)']
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '%s.json' % self.pid)
            with open(path, 'w') as f:
                json.dump({'property': self.pid, 'seed': self.seed, 'tier': self.tier,
                           'violations': [dict(case=k, clause=c, detail=d) for k, c, d in new[:50]]}, f, indent=1)
            shown = set()
            for key, clause, detail in new:
                if clause in shown:
                    continue
                shown.add(clause)
                print('  violated clause %s in case %s: %s' % (clause, key, detail[:300].replace('\n', ' | ')))
                if len(shown) >= 12:
                    break
            print('  %d violations in total' % len(new))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            sys.stdout.flush()
            sys.exit(1)
        self.log('holds on %d cases; %d states' % (self.ncases, cov['states']))
        sys.exit(0)


def main(fn, pid, **kw):
    """Entry point of a check script."""
    vq = VQ(pid, **kw)
    try:
        vq.build()
        fn(vq)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        tb = traceback.format_exc()
        # the code under test could not even be loaded or used
        if vq.src in tb if hasattr(vq, 'src') else False:
            vq.bad.append(('load', 'completes', tb[-1500:]))
        else:
            vq.fail_machinery('unexpected exception')
    vq.finish()
