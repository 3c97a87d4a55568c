"""L01: objects living in one process (spec/Isolation*.tla)."""
import contextlib, io, json, multiprocessing, os, pickle, random, re, shutil, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V

KINDS = {
    'reader': ['QHAInputFileReader', 'EoSInputFileReader', 'SOECInputFileReader', 'CrystalPhononReader', 'CrystalQHAReader', 'PhonopyReader',
               'CrystalSOECReader', 'VASPSOECReader', 'QuantasHDF5Reader'],
    'creator': ['QHAInputCreator/crystal', 'QHAInputCreator/crystal-qha', 'QHAInputCreator/phonopy', 'SOECInputCreator/crystal', 'SOECInputCreator/vasp'],
    'calculator': ['HACalculator', 'QHACalculator', 'SOECCalculator', 'SeismicCalculator', 'EoSFitCalculator'],
    'exporter': ['QuantasHarmonicExport', 'QuantasQHAExport', 'QuantasSOECExport', 'QuantasSeismicExport'],
    'physical': ['SOEC', 'SOECOrtho', 'Seismic', 'M', 'BM', 'NS', 'V', 'T', 'EnergyEOS', 'Kieffer'],
}
OUTPUTS = {'phon': [], 'soec': []}     # scenarios of the outputs of other codes


# ----------------------------------------------------------------- inputs
def phonon_output(rng, kind, folder):
    import I01
    want = {'CrystalPhononReader': 'crystal', 'QHAInputCreator/crystal': 'crystal', 'CrystalQHAReader': 'crystal-qha', 'QHAInputCreator/crystal-qha': 'crystal-qha',
            'PhonopyReader': 'phonopy', 'QHAInputCreator/phonopy': 'phonopy'}[kind]
    ys = [y for y in OUTPUTS['phon'] if y['interface'] == want and (len(y['files']) == 1 or '/' in kind)]
    y = rng.choice(ys)
    name, lst, docs = I01.produce(rng, y, folder)
    if '/' not in kind and lst:
        name = open(name).read().split('\n')[0]
        lst = False
    return dict(name=name, lst=lst, ref=y['ref'])


def make_input(rng, cls, kind, x, shape):
    """writes an input in folder (the current directory); what the operations need to know of it"""
    import elastic, results, phonon
    import Q01, I02, E03
    d = dict(bad=False)
    if x == 'bad':
        how = rng.choice(['text', 'empty', 'cut', 'other'])
        if how == 'cut' or how == 'other':
            try:
                d = make_input(rng, cls, rng.choice(KINDS[cls]) if how == 'other' else kind, 'one', shape)
                if how == 'cut':
                    b = open(d['name'], 'rb').read()
                    open(d['name'], 'wb').write(b[:rng.randrange(len(b))])
                d['bad'] = True
                return d
            except Exception:
                pass
        open('bad.dat', 'w').write('' if how == 'empty' else 'nothing\n1 2 3\n')
        return dict(bad=True, name='bad.dat', lst=False, ref=0)
    if kind in ('QHAInputFileReader', 'HACalculator'):
        sh = random.Random(shape)        # often the same size
        ph = phonon.random_phonons(rng, nv=sh.randrange(1, 4), nq=sh.randrange(1, 3), natom=sh.randrange(1, 3), wild=False)
        ph.write('input.yaml')
        d['name'] = 'input.yaml'
    elif kind == 'QHACalculator':
        ph, d['pmax'] = Q01.crystal(rng, nv=6 + shape % 2, natom=1, nq=1)
        ph.write('input.yaml')
        d['name'] = 'input.yaml'
    elif kind in ('EoSInputFileReader', 'EoSFitCalculator'):
        sh = random.Random(shape)
        avail = ['v'] + [q for q in 'abc' if sh.random() < .5]
        sig = [q for q in ['p'] + avail if sh.random() < .4]
        open('input.dat', 'w').write(E03.datafile(rng, avail, sig)[0].replace('session data', 'job %d' % rng.randrange(999)))
        d['name'] = 'input.dat'
    elif kind in ('SOECInputFileReader', 'SOECCalculator', 'SeismicCalculator'):
        elastic.write('input.dat', 'crystal %d' % rng.randrange(999), elastic.matrix(rng, rng.choice(elastic.KINDS + ['random'])), rng.uniform(800, 9000))
        d['name'] = 'input.dat'
    elif kind in ('CrystalPhononReader', 'CrystalQHAReader', 'PhonopyReader') or kind.startswith('QHAInputCreator'):
        d.update(phonon_output(rng, kind, ''))
    elif kind in ('CrystalSOECReader', 'VASPSOECReader') or kind.startswith('SOECInputCreator'):
        code = 'crystal' if 'rystal' in kind else 'vasp'
        y = rng.choice([s for s in OUTPUTS['soec'] if s['code'] == code])
        doc = (I02.crystal if code == 'crystal' else I02.vasp)(rng, y)
        open('output.out', 'w').write('\n'.join(doc.text) + '\n')
        d['name'] = 'output.out'
    elif kind in ('QuantasHarmonicExport', 'QuantasQHAExport', 'QuantasHDF5Reader'):
        h = 'ha' if 'Harm' in kind else 'qha'
        results.harmonic(rng, 'res.hdf5', h, shape=(1 + shape % 3, 1 + shape // 3 % 3))
        d.update(name='res.hdf5', keys=results.HA if h == 'ha' else results.QHA)
    elif kind == 'QuantasSOECExport':
        results.elastic(rng, 'res.hdf5', waves=rng.random() < .5)
        d.update(name='res.hdf5', keys=['E', 'LC', 'G', 'Nu'])
    elif kind == 'QuantasSeismicExport':
        results.seismic(rng, 'res.hdf5')
        d.update(name='res.hdf5', keys=results.SEISMIC)
    return d


def caller(rng, cls, kind, shape):
    """what the caller passes: settings, arrays"""
    import numpy as np
    import elastic, phonon
    from E01 import params
    if kind in ('HACalculator', 'QHACalculator'):
        sh = random.Random(shape)
        t0 = rng.choice([0., 50., 300.])
        return phonon.settings((t0, t0 + sh.choice([10., 110.]), sh.choice([50., 25.])),
                               prange=(0., sh.choice([0., .5, 1.]), .5), scheme=rng.choice(['td', 'td', 'freq']), mini=rng.choice(['poly', 'eos']),
                               eos=rng.choice(['murnaghan', 'birchmurnaghan', 'vinet', 'pouriertarantola']), silent=rng.random() < .5, debug=rng.random() < .3,
                               edeg=rng.choice([3, 4]), fdeg=rng.choice([2, 3]))
    if kind == 'SOECCalculator':
        return dict(polar=shape % 3 == 0, silent=rng.random() < .5, debug=False, logfile=None, pressure_unit='GPa', plotting=rng.random() < .5, outfig='fig', dpi=80)
    if kind == 'SeismicCalculator':
        return dict(silent=rng.random() < .5, debug=False, logfile=None, ntheta=2 + shape % 2, nphi=2 + shape // 2 % 2, pressure_unit='GPa', plotting=rng.random() < .5,
                    dpi=80, projection='equal', **{'2D': True, '3D': False})
    if kind == 'EoSFitCalculator':
        return dict(lenght_unit='A', pressure_unit='GPa', logfile=None)
    if kind in ('SOEC', 'SOECOrtho', 'Seismic'):
        c = elastic.matrix(rng, 'orthorhombic' if kind == 'SOECOrtho' else rng.choice(elastic.KINDS + ['random']))
        return dict(c=np.array(c), rho=rng.uniform(800, 9000), u=np.array([rng.gauss(0, 1) for _ in range(3)]), a=np.array([rng.uniform(.2, 1.4), rng.uniform(.2, 3.), rng.uniform(.2, 3.)]))
    if kind == 'EnergyEOS':
        v0, k, kp = rng.uniform(20, 90), rng.uniform(.3, 1.5), rng.uniform(3.5, 5)
        from E01 import energy
        v = np.array([v0 * (.9 + .025 * j) for j in range(8)])
        return dict(v=v, e=np.array([energy('BM', t, -10., k, kp, v0) for t in v]), form=rng.choice(['M', 'BM', 'V', 'PT']))
    if kind == 'Kieffer':
        return dict(f=np.array([rng.uniform(1e12, 9e12) for _ in range(3)]), t=50. + 8 * shape)
    if cls == 'physical':
        p = params(rng, kind, False)
        p[1], p[2] = 4. + rng.random(), -.03
        x = np.array([1. - .015 * j for j in range(8)])
        return dict(p=np.array(p), v=p[3] * x, order=rng.choice([2, 3]))
    return None


# ------------------------------------------------------------- operations
def quiet(fn, typed=''):
    """(value or exception, text shown)"""
    from click.testing import CliRunner
    with CliRunner().isolation(input=typed) as streams:
        try:
            r = ('value', fn())
        except (Exception, SystemExit) as e:
            r = ('raised', type(e).__name__, str(e))
        sys.stdout.flush()
        out = streams[0].getvalue().decode('utf-8', 'replace')
    return r, out


def reader(kind):
    import quantas.IO.qha_reader, quantas.IO.eos_reader, quantas.IO.soec_reader, quantas.IO.hdf5_reader
    import quantas.interfaces.crystal, quantas.interfaces.vasp, quantas.interfaces.phonopy
    for m in (quantas.IO.qha_reader, quantas.IO.eos_reader, quantas.IO.soec_reader, quantas.IO.hdf5_reader, quantas.interfaces.crystal, quantas.interfaces.vasp,
              quantas.interfaces.phonopy):
        if hasattr(m, kind):
            return getattr(m, kind)


def create(cls, kind, arg, inp):
    if cls == 'reader':
        o = reader(kind)(inp['name'])
        if kind == 'QuantasHDF5Reader':
            o.read()
        return o
    if cls == 'creator':
        from quantas.IO.qha_writer import QHAInputCreator
        from quantas.IO.soec_writer import SOECInputCreator
        n, i = kind.split('/')
        return dict(QHAInputCreator=QHAInputCreator, SOECInputCreator=SOECInputCreator)[n](i)
    if cls == 'calculator':
        from quantas.harmonic.harmonic import HACalculator
        from quantas.qha.qha import QHACalculator
        from quantas.soec.soec import SOECCalculator
        from quantas.seismic.seismic import SeismicCalculator
        from quantas.eosfit.eosfit import EoSFitCalculator
        return dict(HACalculator=HACalculator, QHACalculator=QHACalculator, SOECCalculator=SOECCalculator, SeismicCalculator=SeismicCalculator,
                    EoSFitCalculator=EoSFitCalculator)[kind](arg)
    if cls == 'exporter':
        from quantas.harmonic.utils.export import QuantasHarmonicExport
        from quantas.qha.utils.export import QuantasQHAExport
        from quantas.soec.utils.export import QuantasSOECExport
        from quantas.seismic.utils.export import QuantasSeismicExport
        return dict(QuantasSeismicExport=QuantasSeismicExport, QuantasHarmonicExport=QuantasHarmonicExport, QuantasQHAExport=QuantasQHAExport, QuantasSOECExport=QuantasSOECExport)[kind]()
    if kind in ('SOEC', 'SOECOrtho'):
        from quantas.soec.utils.soec_obj import SOEC, SOECOrtho
        o = SOEC(arg['c'], arg['rho'])
        return SOECOrtho(o) if kind == 'SOECOrtho' else o
    if kind == 'Seismic':
        from quantas.seismic.utils.seismic_obj import Seismic
        return Seismic(arg['c'], arg['rho'])
    if kind == 'EnergyEOS':
        from quantas.qha.utils.ev_eos import EnergyEOS
        return EnergyEOS()
    if kind == 'Kieffer':
        from quantas.qha.utils.kieffer import Kieffer
        return Kieffer(arg['f'])
    from E01 import equation
    return equation(kind)


def load(cls, kind, o, inp):
    if kind.startswith('QHAInputCreator'):
        return o.read(inp['name'], inp.get('lst', False), inp.get('ref', 0))
    if kind.startswith('SOECInputCreator'):
        return o.read(inp['name'])
    if cls == 'calculator':
        e = o.read_input(inp['name'])
        if e is None:
            o.report_input_data()
        return e
    return o.load(inp['name'])


def run(cls, kind, o, arg):
    if cls == 'calculator':
        o.run()
        return o.report_results()
    if kind in ('SOEC', 'SOECOrtho'):
        a = arg['a']
        r = [o.young_modulus(a[:2]), o.linear_compressibility(a[:2]), o.shear_modulus(a), o.poisson_ratio(a)]
        if kind == 'SOEC':
            r += [o.shear_extremes(a[:2]), o.poisson_extremes(a[:2]), o.phase_velocity(a[:2])]
        return r
    if kind == 'Seismic':
        o.cartesian_direction(arg['u'])
        return [o.phase_velocity, o.group_abs]
    if kind == 'EnergyEOS':
        p, s = o.fit(arg['form'], arg['v'], arg['e'])
        return [p, s, o.pressure(arg['form'], p, arg['v'])]
    if kind == 'Kieffer':
        o.acofreq = arg['f']
        return [o.helmholtz(arg['t']), o.entropy(arg['t']), o.heat_capacity(arg['t'])]
    # eos() writes the implied parameters in the list it is given: fits report them that way
    P = o.eos(arg['p'].copy(), arg['v'], arg['order'], False, True)
    f = o.fit(arg['v'], P, order=arg['order'], linear=False)
    return [P, f.beta, f.sd_beta, o.guess(arg['v'], P)]


def save(cls, kind, o, inp):
    if kind.startswith('QHAInputCreator'):
        import I01
        return I01.save(o, 'created.yaml', 'a title', inp.get('ref', 0))
    if kind.startswith('SOECInputCreator'):
        return o.write('created.dat', 'a title')
    if cls == 'calculator':
        return o.export_hdf5('stored.hdf5')
    return o.run()


def typed(cls, kind, op, inp):
    if kind == 'EoSFitCalculator' and op == 'run':
        return 'v\n2\n3\n' + 'n\n' * 5
    if cls == 'exporter' and op == 'save':
        return '%s\ny\nn\nn\n' % (inp or {}).get('keys', ['E'])[0]
    return ''


# ---------------------------------------------------------------- contents
def mask(s, root):
    s = s.replace(root, '<root>')
    s = re.sub(r' *[\d.]+ +m?sec', 'msec', s)
    return re.sub(r'\d+-\d+-\d+ \d+:\d+(:[\d.]+)?', 'date', s)


def look(v, root, depth=4):
    """the content of a value, in plain types"""
    import numpy as np
    if v is None or isinstance(v, (bool, np.bool_)):
        return ['is', repr(v)]
    if isinstance(v, (str, bytes)):
        return ['text', mask(v if isinstance(v, str) else v.decode('latin-1'), root)]
    if isinstance(v, (int, float, complex, np.number)):
        return ['num', [complex(v).real, complex(v).imag]]
    if isinstance(v, np.ndarray):
        if v.dtype.kind in 'fiucb':
            a = np.asarray(v, dtype=complex).ravel()
            return ['num', list(v.shape) + [-1.] + list(a.real) + (list(a.imag) if v.dtype.kind == 'c' else [])]
        return ['list', [look(x, root, depth - 1) for x in v.tolist()]]
    if isinstance(v, dict):
        return ['dict', [[look(k, root, depth - 1), look(x, root, depth - 1)] for k, x in sorted(v.items(), key=lambda t: str(t[0]))]]
    if isinstance(v, (list, tuple)):
        if len(v) > 8 and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v):
            return ['num', [len(v), -1.] + [float(x) for x in v]]
        return ['list', [look(x, root, depth - 1) for x in v]]
    if isinstance(v, (set, frozenset)):
        return ['list', sorted([look(x, root, depth - 1) for x in v], key=str)]
    if isinstance(v, type) or callable(v) or isinstance(v, types.ModuleType):
        return ['name', getattr(v, '__name__', type(v).__name__)]
    if depth <= 0:
        return ['some', type(v).__name__]
    return exposed(v, root, depth - 1)


def exposed(o, root, depth=4):
    """the public attributes of an object and what its predicates say"""
    r = []
    for n in sorted(dir(o)):
        if n.startswith('_'):
            continue
        try:
            v = getattr(o, n)
        except Exception as e:
            r.append([n, ['raised', type(e).__name__]])
            continue
        if callable(v) and not isinstance(v, type):
            if n.startswith('is_'):
                try:
                    r.append([n, look(v(), root, 0)])
                except Exception as e:
                    pass
            continue
        r.append([n, look(v, root, depth)])
    return ['object', type(o).__name__, r]


def files(folder, inputs, root):
    r = []
    for n in sorted(os.listdir(folder)):
        p = os.path.join(folder, n)
        if n in inputs or os.path.isdir(p):
            continue
        if n.endswith('.hdf5'):
            import h5py
            try:
                with h5py.File(p, 'r') as f:
                    r.append([n, [[k, look(f[k][()], root), look(dict(f[k].attrs), root)] for k in sorted(f)], look(dict(f.attrs), root)])
            except OSError:
                r.append([n, 'unreadable'])
        elif n.endswith(('.png', '.pdf')):
            r.append([n, 'figure'])
        else:
            r.append([n, ['text', mask(open(p, errors='replace').read(), root)]])
    return r


NUM = re.compile(r'[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?')


def same(a, b):
    """same content; computed numbers up to rounding"""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == 2 and a[0] == 'num' and len(b) == 2 and b[0] == 'num':
            x, y = a[1], b[1]
            if len(x) != len(y):
                return False
            m = max([abs(t) for t in x if t == t and abs(t) != float('inf')] or [0.])
            return all(p == q or (p != p and q != q) or abs(p - q) <= 1e-7 * max(m if len(x) > 4 else 0., abs(p)) for p, q in zip(x, y))
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str) and a != b:
        if NUM.sub('#', a) != NUM.sub('#', b):
            return False
        for x, y in zip(NUM.findall(a), NUM.findall(b)):
            if x != y:
                d = len(x.split('.')[1].split('e')[0].split('E')[0]) if '.' in x else 0
                if d == 0 or abs(float(x) - float(y)) > 1.1 * 10. ** -d * (10. ** int(re.split('[eE]', x)[1]) if re.search('[eE]', x) else 1.):
                    return False
        return True
    return a == b


def difference(a, b, path=''):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and not (len(a) == 2 and a[0] == 'num'):
        for k, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return difference(x, y, path + '/' + (x[0] if isinstance(x, list) and x and isinstance(x[0], str) and x[0] not in ('list', 'dict', 'num') else str(k)))
    x, y = str(a), str(b)
    k = next((n for n, (p, q) in enumerate(zip(x, y)) if p != q), 0) if len(x) > 200 else 0
    return '%s: %s / %s' % (path, x[max(0, k - 60):k + 240], y[max(0, k - 60):k + 240])


class Contents:
    """numbers of contents: the same number iff the same content"""
    def __init__(self):
        self.known = []

    def number(self, c):
        for k, d in enumerate(self.known):
            if same(c, d):
                return k + 1
        self.known.append(c)
        return len(self.known)


# -------------------------------------------------------------- processes
def forked(fn, *args):
    """fn(*args) in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ('ok', fn(*args))
            except BaseException:
                import traceback
                out = ('bad', traceback.format_exc()[-1500:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    if not b:
        raise RuntimeError('process ended')
    out = pickle.loads(b)
    if out[0] == 'bad':
        raise RuntimeError(out[1])
    return out[1]


def prepare(seed, kinds, needed, root):
    """inputs of every kind on disk, and the caller's arguments"""
    rng = random.Random(seed)
    inputs, args = {}, {}
    alike = {k: rng.randrange(99) for k in sorted(set(kinds))} if rng.random() < .7 else {}
    here = os.getcwd()
    for cls, kind in sorted(set(kinds)):
        for x in ('one', 'two', 'bad'):
            f = os.path.join(root, 'in', kind.replace('/', '_'), x)
            os.makedirs(f)
            if x != 'bad':
                args[kind, x] = caller(rng, cls, kind, alike.get((cls, kind), rng.randrange(99)))
            if cls != 'physical' and (kind, x) in needed:
                os.chdir(f)
                inputs[kind, x] = make_input(rng, cls, kind, x, alike.get((cls, kind), rng.randrange(99)))
                inputs[kind, x]['folder'] = f
                inputs[kind, x]['files'] = os.listdir(f)
    os.chdir(here)
    return inputs, args


def play(steps, kinds, inputs, args, root, logs):
    """the steps in this process: [view of every object, reply] after each; arguments before and after"""
    objs, last, put, made, given = {}, {}, {}, {}, {}
    before = {k: look(v, root) for k, v in args.items()}
    out = []
    for s in steps:
        i, op, x = s['obj'], s['op'], s['input']
        cls, kind = kinds[i - 1]
        home = os.path.join(root, 'o%d' % i)
        os.makedirs(home, exist_ok=True)
        os.chdir(home)
        inp = inputs.get((kind, x)) if op == 'load' or cls == 'reader' else None
        if inp:
            for n in put.get(i, []):
                os.remove(n)
            for n in inp['files']:
                shutil.copy(os.path.join(inp['folder'], n), n)
            put[i] = inp['files']
            last[i] = inp
        arg = args.get((kind, x if op == 'new' or cls == 'physical' else made.get(i, 'one')))
        if op == 'new':
            made[i] = x
            if logs and cls == 'calculator':
                arg = dict(arg, logfile=os.path.join(home, 'run.log'))
            r, text = quiet(lambda: create(cls, kind, arg, inp))
            if r[0] == 'value':
                objs[i] = r[1]
                r = ('value', None)
        elif i not in objs:
            r, text = ('value', None), ''
        elif op == 'load':
            r, text = quiet(lambda: load(cls, kind, objs[i], inp))
        elif op == 'run':
            r, text = quiet(lambda: run(cls, kind, objs[i], arg), typed(cls, kind, op, last.get(i)))
        else:
            r, text = quiet(lambda: save(cls, kind, objs[i], last.get(i)), typed(cls, kind, op, last.get(i)))
        r = list(r)
        if r[0] == 'value':
            given.setdefault(i, []).append(r[1])      # what the caller was given stays in his hands
            r[1] = look(r[1], root)
        else:
            r[2] = mask(r[2], root)
        view = {}
        for j in objs:
            view[j] = [exposed(objs[j], root), look(given.get(j, []), root), files(os.path.join(root, 'o%d' % j), put.get(j, []), root)]
        for j in range(1, len(kinds) + 1):
            if j not in view and any(t['obj'] == j for t in steps[:len(out) + 1]):
                view[j] = ['not created']
        out.append([view, [r, ['text', mask(text, root)]]])
    after = {k: look(v, root) for k, v in args.items()}
    os.chdir('/')
    return out, [[before[k], after[k], str(k)] for k in sorted(before)]


def session(job):
    seed, kinds, steps, logs, root = job
    os.makedirs(root)
    needed = {(kinds[s['obj'] - 1][1], s['input']) for s in steps} | {(k, 'one') for c, k in kinds}
    for t in range(6):
        shutil.rmtree(os.path.join(root, 'in'), ignore_errors=True)
        try:
            inputs, args = forked(prepare, seed + t, kinds, needed, root)
            break
        except RuntimeError:
            if t == 5:
                raise
    ids = Contents()
    alone, ref = [], []
    for i in range(1, len(kinds) + 1):
        own = [s for s in steps if s['obj'] == i]
        r = forked(play, own, kinds, inputs, args, os.path.join(root, 'run'), logs)[0] if own else []
        shutil.rmtree(os.path.join(root, 'run'), ignore_errors=True)
        ref.append(r)
        alone.append([dict(view=ids.number(v[i]), reply=ids.number(p)) for v, p in r])
    got, caller_ = forked(play, steps, kinds, inputs, args, os.path.join(root, 'run'), logs)
    rec, why = [], []
    count = dict.fromkeys(range(1, len(kinds) + 1), 0)
    for s, (v, p) in zip(steps, got):
        count[s['obj']] += 1
        e = dict(obj=s['obj'], op=s['op'], input=s['input'], view=[ids.number(v[j]) if j in v else 0 for j in range(1, len(kinds) + 1)], reply=ids.number(p))
        rec.append(e)
        for j in v:
            w = ref[j - 1][count[j] - 1][0][j]
            if not same(v[j], w) and len(why) < 3:
                why.append('after step %d (%d %s %s) object %d: %s' % (len(rec), s['obj'], s['op'], s['input'], j, difference(v[j], w)))
        w = ref[s['obj'] - 1][count[s['obj']] - 1][1]
        if not same(p, w) and len(why) < 3:
            why.append('step %d (%d %s %s) answered: %s' % (len(rec), s['obj'], s['op'], s['input'], difference(p, w)))
    A = []
    for b, a, k in caller_:
        A.append(dict(before=ids.number(b), after=ids.number(a)))
        if not same(a, b):
            why.append('argument %s: %s' % (k, difference(a, b)))
    return dict(kinds=[c for c, k in kinds], names=[k for c, k in kinds], why=why, steps=rec, alone=alone, args=A)


def work(job):
    try:
        return dict(ok=session(job))
    except Exception:
        import traceback
        return dict(bad=traceback.format_exc()[-2500:])
    finally:
        os.chdir('/')
        shutil.rmtree(job[-1], ignore_errors=True)


def weight(steps):
    """do two objects use different inputs?"""
    a, b = [[t['input'] for t in steps if t['obj'] == i and t['op'] in ('new', 'load', 'run')] for i in (1, 2)]
    return a != b


def check(vq):
    conf = ('SPECIFICATION Spec\nCONSTANT MaxObj = %d\nCONSTANT MaxLen = %d\nCONSTANT Sharing = "%s"\nCONSTANT Only = {%s}\nCONSTANT Random = %s\nCONSTANT Forward = %s\nCHECK_DEADLOCK FALSE\n')
    inv = 'INVARIANT Isolation\nPROPERTY Untouched\n'
    every = '"reader", "creator", "calculator", "exporter", "physical"'
    vq.check_design('IsolationDesign', conf % (2, vq.pick(5, 6), 'none', every, 'FALSE', 'FALSE') + inv, 'two objects', workers=8)
    vq.check_design('IsolationDesign', conf % (3, 5, 'none', '"reader", "calculator"', 'FALSE', 'FALSE') + inv, 'three objects', workers=8)
    for m in ('kind', 'default', 'memo'):
        vq.check_design('IsolationDesign', conf % (2, 5, m, '"calculator"', 'FALSE', 'FALSE') + 'INVARIANT Isolation\n', 'shared by ' + m, workers=8, expect_violation=True)
    walks = vq.scenarios('IsolationDesign', conf % (3, 14, 'none', every, 'TRUE', 'FALSE') + inv + 'INVARIANT Emit\n', 'random lives', simulate=('num=%d' % vq.pick(400, 5000), 17))
    pairs = {}
    for c in sorted(KINDS):
        n = {'reader': 4, 'physical': 4, 'calculator': 8}.get(c, 6)
        sc = vq.scenarios('IsolationDesign', conf % (2, n, 'none', '"%s"' % c, 'FALSE', 'TRUE') + inv + 'INVARIANT Emit\n', 'whole lives of two ' + c)
        sc = [s for s in sc if s['kinds'][0] == s['kinds'][1]]
        pairs[c] = sorted({json.dumps(s, sort_keys=True) for s in sc})
    phon = vq.scenarios('PhononOutputDesign', 'SPECIFICATION Spec\nCONSTANT MaxFiles = 2\nINVARIANT Meaning\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', 'outputs of phonon codes')
    soec = vq.scenarios('ElasticOutputDesign', 'SPECIFICATION Spec\nINVARIANT Meaning\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n', 'outputs of elastic codes')
    OUTPUTS['phon'] = sorted([y for y in phon if y['ok']], key=str)
    OUTPUTS['soec'] = sorted([y for y in soec if y['ok']], key=str)
    rng = vq.rng
    walks.sort(key=str)
    jobs = []

    def add(sc, concrete):
        kinds = [(k['cls'], concrete[k['cls'], k['variant']]) for k in sc['kinds']]
        jobs.append((rng.randrange(1 << 30), kinds, sc['steps'], rng.random() < .5, os.path.join(vq.scratch, 's%d' % len(jobs))))
    for c in sorted(KINDS):
        for k in KINDS[c]:
            # every kind: pairs of objects of that kind
            live = [json.loads(s) for s in pairs[c]]
            apart = [s for s in live if weight(s['steps'])]
            live = rng.sample(live, len(live) // 8) + apart
            for s in rng.sample(live, min(len(live), vq.pick(4 if c in ('reader', 'physical') else 8, 60))):
                add(s, {(c, 1): k, (c, 2): k})
    rng.shuffle(walks)
    for s in walks[:vq.pick(200, 2500)]:
        con = {}
        for c in sorted(KINDS):
            con[c, 1], con[c, 2] = rng.sample(KINDS[c], 2)
        add(s, con)
    # imports, before the processes
    if 'quantas.core.plotter' not in sys.modules:
        try:
            import quantas.core.plotter
        except ImportError:
            m = types.ModuleType('quantas.core.plotter')
            m.BasicPlotter = type('BasicPlotter', (object,), {})
            sys.modules['quantas.core.plotter'] = m
    import h5py, elastic, results, phonon, Q01, I01, I02, E01, E03
    import scipy.optimize, scipy.odr, click.testing
    from quantas.cmdline.commands.cmd_quantas import cli as _
    from quantas.seismic.seismic import SeismicCalculator
    import quantas.seismic.utils.seismic_obj, quantas.soec.utils.soec_obj
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8) as pool:
        todo = [pool.apply_async(work, (j,)) for j in jobs]
        for n, t in enumerate(todo):
            key = 'process %d: %s; %s' % (n, ', '.join(k for c, k in jobs[n][1]), ' '.join('%d:%s(%s)' % (s['obj'], s['op'], s['input']) for s in jobs[n][2]))
            with vq.case(key, 200):
                g = t.get(timeout=180)
                if 'bad' in g:
                    raise RuntimeError(g['bad'])
                vq.emit(**g['ok'])
    vq.validate('IsolationTrace')


if __name__ == '__main__':
    V.main(check, 'L01')
