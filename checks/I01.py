"""I01: generated inputs of the harmonic analyses (spec/PhononOutput*.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vq as V

SYMBOL = ['H', 'Li', 'O', 'F', 'Na', 'Mg', 'Al', 'Si', 'S', 'Ca', 'Ti', 'Fe']
NUMBER = dict(zip(SYMBOL, [1, 3, 8, 9, 11, 12, 13, 14, 16, 20, 22, 26]))
NOISE = [' TTTTTTTTTTTTTTTTTTTTTTTTTTTTTT SYMM        TELAPSE        0.22 TCPU        0.10',
         ' *******************************************************************************', ' [ ... ]',
         ' CAPPA:IS1 12;IS2 12;IS3 12; K PTS MONK NET  72; SYMMOPS:K SPACE  48;G SPACE  48']
TITLES = ['MgO Gamma-point frequencies', 'B3LYP: periclase', 'run #2 of MgO', '# of atoms 2', "it's MgO", '"quoted" name', '[calcite]',
          '{x}', '- dolomite', '1e3', 'yes', 'null', '2020-02-26', 'beta % of @ & * !x', 'a, b', 'x: [1, 2', '100', 'MgO \\ CaO', '? no', '| y']


def det(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def lattice(rng, scale, shape=None):
    a = rng.uniform(2.5, 9.)
    kind = shape or rng.choice(['cubic', 'fcc', 'triclinic', 'left'])
    if kind == 'cubic':
        m = [[a, 0, 0], [0, a * rng.uniform(.8, 1.3), 0], [0, 0, a]]
    elif kind == 'fcc':
        m = [[0, a / 2, a / 2], [a / 2, 0, a / 2], [a / 2, a / 2, 0]]
    else:
        m = [[a + rng.uniform(-1, 1) if i == j else rng.uniform(-1, 1) for j in range(3)] for i in range(3)]
        if (det(m) < 0) != (kind == 'left'):
            m[0], m[1] = m[1], m[0]
    return [[scale * x for x in r] for r in m]


def expansion(rng):
    while True:
        if rng.random() < .6:
            m = [[0] * 3 for _ in range(3)]
            for i in range(3):
                m[i][i] = rng.choice([1, 2, 2, 3])
        else:
            m = rng.choice([[[-1, 1, 1], [1, -1, 1], [1, 1, -1]], [[1, 1, 0], [-1, 1, 0], [0, 0, 2]], [[0, 1, 1], [1, 0, 1], [1, 1, 0]],
                            [[2, 1, 0], [0, 1, 0], [0, 0, 1]], [[-2, 2, 2], [2, -2, 2], [2, 2, -2]]])
        if 1 < det(m) <= 12:
            return m


class Crystal:
    """what the listed outputs have in common"""
    def __init__(self, rng, kind, big=False):
        self.kind = kind
        self.dim = expansion(rng)
        k = det(self.dim)
        self.unit = rng.choice([1, 2, 2, 3, 5])
        if big:
            self.unit = rng.randrange(334, 360)
        self.super = self.unit * k
        self.nq = rng.choice([1, 2, 3, k]) if kind in ('disp', 'hess') else rng.choice([1, 2, 4])
        if big:
            self.nq = 1
        self.nat = dict(gamma=self.unit, super=self.super, qha=self.unit, qhasuper=self.super).get(kind, self.super)
        self.numbers = [rng.choice(SYMBOL) for _ in range(max(self.unit, self.super))]
        self.shape = rng.choice(['cubic', 'fcc', 'triclinic', 'left'])
        self.seed = rng.random()
        self.shrink = [rng.choice([1, 2, 3, 4]) for _ in range(3)]
        self.fine = [rng.choice([2, 4, 6]) for _ in range(3)]
        self.q = [[[rng.randrange(0, s) if i else 0 for s in m] for i in range(self.nq)] for m in (self.shrink, self.fine)]
        self.w = [rng.choice([1, 1, 2, 4]) for _ in range(self.nq)]
        self.npoints = rng.choice([4, 5, 7, 11])


def atoms(rng, c, n):
    return ['  %5d T %3d %-2s %20.12E%20.12E%20.12E' % (i + 1, NUMBER[c.numbers[i]], c.numbers[i].upper(), rng.uniform(-.5, .5), rng.uniform(-.5, .5), 0.)
            for i in range(n)]


def geometry(rng, c, n, lines):
    return [' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.5291772083 ANGSTROM',
            ' PRIMITIVE CELL - CENTRING CODE 5/0 VOLUME=    18.896862 - DENSITY  3.513 g/cm^3',
            '         A              B              C           ALPHA      BETA       GAMMA ',
            '     2.98975014     2.98975014     2.98975014    60.000000  60.000000  60.000000',
            ' ' + '*' * 79, ' ATOMS IN THE ASYMMETRIC UNIT %4d - ATOMS IN THE UNIT CELL: %4d' % (rng.randrange(1, n + 1), n),
            '     ATOM                 X/A                 Y/B                 Z/C    ', ' ' + '*' * 79] + atoms(rng, c, n)


def vectors(lat, n=3):
    return ([' DIRECT LATTICE VECTORS CARTESIAN COMPONENTS (ANGSTROM)', '          X                    Y                    Z']
            + [''.join('%21.12E' % x for x in r) for r in lat[:n]])


def printed(lat):
    return [[V.R(float('%.12E' % x)) for x in r] for r in lat]


def rows_of(rng, nmodes, low):
    """ranges of modes with printed frequency"""
    res, a = [], 1
    while a <= nmodes:
        b = min(nmodes, a + rng.choice([0, 0, 1, 2]))
        f = 0. if (a <= 3 and low) else rng.choice([rng.uniform(-40, 20), rng.uniform(20, 1200), rng.uniform(1000, 3999)])
        res.append([a, b, '%.4f' % f])
        a = b + 1
    return res


def frequencies(rng, c, x, v):
    """(lines, sections) of a CRYSTAL frequency run; x: what happens to it"""
    kind = x['kind']
    text, secs = [], []

    def add(lines, cut=None, **kw):
        for _ in range(rng.choice([0, 0, 1])):
            text.append(rng.choice(NOISE))
        text.extend(lines)
        secs.append(kw)

    def mode(k, nat):
        def go(cut):
            rs = rows_of(rng, 3 * nat, k == 1)
            kept = rs[:rng.randrange(0, len(rs))] if cut else rs
            head = ['', ' DISPERSION K POINT NUMBER  %4d' % k] if kind in ('disp', 'hess') else []
            head += ['', '    MODES         EIGV          FREQUENCIES     IRREP' + ('  IR   INTENS    RAMAN' if not head else ''),
                     '             (HARTREE**2)   (CM**-1)     (THZ)' + ('             (KM/MOL)' if not head else '')]
            lines = []
            for a, b, f in kept:
                s = '%5d-%4d  %12.4E %11s %9.4f  (%-3s)' % (a, b, float(f) * abs(float(f)) * 2.076e-11, f, float(f) / 33.35641, 'Fu')
                lines.append(s + ('   A (%9.2f)   I' % rng.uniform(0, 2000) if kind == 'gamma' else ''))
            add(head + lines + ([] if cut else ['', ' ' + 'H' * 78]), s='modes', rows=[dict(a=a, b=b, f=V.R(float(f))) for a, b, f in kept])
        return go

    def mesh(name, which):
        def go(cut):
            sh = [c.shrink, c.fine][which]
            q = ['%2d' % (i + 1) for i in range(c.nq)]
            wt = ['%.3f' % w for w in c.w]
            body = [' * %5d %14s %6d %3d %3d' % (i + 1, wt[i], *c.q[which][i]) for i in range(c.nq)]
            tail = [' * WITH SHRINKING FACTORS: IS1 = %2d IS2 = %2d IS3 = %2d' % tuple(sh)]
            if name == 'scelphono':
                head = [' *              PHONON FREQUENCIES AT A SET OF K POINTS BY USING A SUPERCELL',
                        ' * THE SUPERCELL THAT PERMITS THE CALCULATION OF MODES AT %4d INEQUIVALENT K POINTS' % c.nq,
                        ' *', ' *      K       WEIGHT       COORD']
            else:
                head = [' * ACTIVATED INTERPOLATION OF THE HESSIAN UP TO %4d INEQUIVALENT K POINTS' % c.nq] + [' *'] * 7 + [' *      K       WEIGHT       COORD']
            n = rng.randrange(0, c.nq + 1) if cut else c.nq
            add(head + body[:n] + ([] if cut else tail), s=name, n=c.nq,
                q=[dict(c=V.RL(c.q[which][i]), w=V.R(c.w[i])) for i in range(n)], shrink=[] if cut else V.RL(sh))
        return go

    def wf(cut):
        nat = c.unit if kind == 'gamma' else c.super
        lat = lattice(rng_of(c), 1 + .013 * v, c.shape)
        if kind != 'gamma':
            lat = [[sum(c.dim[i][k] * lat[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
        n = rng.randrange(0, 3) if cut else 3
        add([' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE SYSTEM    3', ' (NON PERIODIC DIRECTION: LATTICE PARAMETER FORMALLY SET TO 500)',
             ' ' + '*' * 79] + geometry(rng, c, nat, 0) + ['', ' T = ATOM BELONGING TO THE ASYMMETRIC UNIT', ''] + vectors(lat, n), s='wf', natom=nat, lattice=printed(lat[:n]))

    def central(cut):
        e = '%.12E' % (-rng.uniform(1, 9e3) if kind == 'gamma' else -rng.uniform(50, 9e4))
        add(['   ATOM      MAX ABS(DGRAD)       TOTAL ENERGY (AU)  N.CYC      DE       SYM',
             '    CENTRAL POINT             %s    37     0.0000E+00    48' % e, '    2 O  DX   2.9899E-04      -2.754625418373E+02     6     8.6363E-07     8'],
            s='central', e=V.R(float(e)))
    steps = {'unit': lambda cut: add([' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', ''] + geometry(rng, c, c.unit, 0) + [''], s='unit', natom=c.unit),
             'expansion': lambda cut: add([' ' + '*' * 79, ' * SUPERCELL OPTION', ' ' + '*' * 79, ' EXPANSION MATRIX OF PRIMITIVE CELL']
                                          + [' E%d %9.3f %9.3f %9.3f' % (i + 1, *c.dim[i]) for i in range(2 if cut else 3)], s='expansion', m=c.dim[:2 if cut else 3]),
             'scelphono': mesh('scelphono', 0), 'hess': mesh('hess', 1), 'wf': wf, 'central': central,
             'eigv': lambda cut: add([' ' + 'H' * 79, ' EIGENVALUES (EIGV) OF THE MASS WEIGHTED HESSIAN MATRIX AND HARMONIC TRANSVERSE'], s='eigv')}
    nat = c.super if kind == 'super' else c.unit
    order = {'gamma': ['wf', 'central', 'eigv'], 'super': ['unit', 'expansion', 'wf', 'central', 'eigv'],
             'disp': ['unit', 'expansion', 'scelphono', 'wf', 'central', 'eigv'],
             'hess': ['unit', 'expansion', 'scelphono', 'wf', 'central', 'hess', 'eigv']}[kind]
    todo = [steps[n] for n in order] + [mode(k + 1, nat) for k in range(c.nq if kind in ('disp', 'hess') else 1)]
    text.append(' EEEEEEEEEE STARTING  DATE 26 02 2020 TIME 10:02:56.6')
    if kind == 'gamma' and rng.random() < .7:
        text.extend([' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', '', ' FRQFRQFRQ'])
    # position in the smaller model: modes are its last sections
    base = len(order)
    nmodel = {'gamma': 1, 'super': 1, 'disp': 2, 'hess': 3}[kind]
    keep, cut = len(todo), False
    if x['fate'] == 'killed':
        cut = x['cut']
        if x['keep'] <= base:
            keep = x['keep']
        else:
            r = x['keep'] - base
            keep = base + min(len(todo) - base, rng.choice([r, len(todo) - base - (nmodel - r)]))
            keep = max(keep, base + 1) if cut else keep
            if keep >= len(todo) and not cut:
                keep = len(todo) - 1
    for i, st in enumerate(todo[:keep]):
        st(cut and i == keep - 1)
    if x['fate'] != 'killed':
        text.append(' EEEEEEEEEE TERMINATION  DATE 26 02 2020 TIME 10:02:56.6')
    return text, secs


def rng_of(c):
    import random
    return random.Random(c.seed)


def quasiharmonic(rng, c, x, v):
    kind = x['kind']
    sup = kind == 'qhasuper'
    nat = c.super if sup else c.unit
    n = rng.randrange(1, 4) if x['fate'] == 'few' else c.npoints
    text, secs = [' EEEEEEEEEE STARTING  DATE 26 02 2020 TIME 10:02:56.6'], []
    lats = []
    for i in range(n):
        lat = lattice(rng_of(c), (.96 + .012 * i), 'cubic' if c.shape == 'left' else c.shape)
        if sup:
            lat = [[sum(c.dim[i][k] * lat[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
        lats.append(lat)
    todo = [lambda cut: (text.append(' * QUASI-HARMONIC APPROXIMATION *'), secs.append(dict(s='qha')))]
    if x['fate'] == 'restart':
        todo.append(lambda cut: (text.append(' READING DATA FROM RESTART UNIT  22'), secs.append(dict(s='restart'))))
    if sup:
        def exp(cut):
            k = 2 if cut else 3
            text.extend([' * SUPERCELL OPTION', ' EXPANSION MATRIX OF PRIMITIVE CELL'] + [' E%d %9.3f %9.3f %9.3f' % (i + 1, *c.dim[i]) for i in range(k)])
            secs.append(dict(s='expansion', m=c.dim[:k]))
        todo.append(exp)
    order = list(range(n))
    rng.shuffle(order)

    def cell(i):
        def go(cut):
            k = rng.randrange(0, 3) if cut else 3
            text.extend(['', ' FINAL OPTIMIZED GEOMETRY - DIMENSIONALITY OF THE SYSTEM      3', ' (NON PERIODIC DIRECTION: LATTICE PARAMETER FORMALLY SET TO 500)',
                         ' ' + '*' * 79] + geometry(rng, c, nat, 0) + [''] + vectors(lats[i], k))
            secs.append(dict(s='cell', natom=nat, lattice=printed(lats[i][:k]), tag=i + 1))
        return go
    todo += [cell(i) for i in order]

    def energies(cut):
        rows = [('%.6f' % abs(det(lats[i])), '%.12E' % (-rng.uniform(100, 900))) for i in range(n)]
        text.extend(['', ' SORTING VOLUMES/ENERGIES', '', '     VOLUME (A^3)          ENERGY (AU)', ''] + [' %16s %26s' % r for r in rows] + ['', ' ' + '*' * 79])
        secs.append(dict(s='sorted', rows=[dict(tag=i + 1, e=V.R(float(rows[i][1]))) for i in range(n)]))
    todo.append(energies)

    def freq(m):
        def go(cut):
            vals = ['%.4f' % rng.uniform(0 if m > 3 else -9, 2000) for _ in range(n)]
            k = rng.randrange(0, n) if cut else n
            text.extend(['', ' FREQUENCY #%7d' % m, '', '      VOLUME          FREQUENCY']
                        + ['%16.6f %16s' % (abs(det(lats[i])), vals[i]) for i in range(k)] + ([] if cut else ['', ' FIT OF FREQUENCY # ABOVE']))
            secs.append(dict(s='freq', vals=V.RL([float(w) for w in vals[:k]])))
        return go
    fr = [freq(m + 1) for m in range(3 * nat)]
    keep, cut = len(todo) + len(fr), False
    if x['fate'] == 'killed':
        cut = x['cut']
        sec = ['qha'] + (['expansion'] if sup else []) + ['cell'] * 4 + ['sorted'] + ['freq'] * (6 if sup else 3)
        what = sec[x['keep'] - 1]
        nth = x['keep'] - sec.index(what)
        first = {'qha': 1, 'expansion': 2, 'cell': 2 + sup, 'sorted': 2 + sup + n, 'freq': 3 + sup + n}[what]
        size = {'cell': n, 'freq': len(fr)}.get(what, 1)
        keep = first + rng.choice([min(nth, size), size]) - 1
        if what == 'freq' and not cut and keep == len(todo) + len(fr):
            keep -= 1
    todo += fr
    for i, st in enumerate(todo[:keep]):
        st(cut and i == keep - 1)
    return text, secs


def phonopy(rng, c, x, v, path):
    """writes the files of a phonopy calculation; sections"""
    fate = x['fate']
    lat = lattice(rng_of(c), 1 + .013 * v, c.shape)
    w = [rng.choice([1, 2, 8]) if i else 1 for i in range(c.nq)]
    nb = 3 * c.unit
    q = []
    for i in range(c.nq):
        q.append(([float('%.7f' % rng.uniform(-.5, .5)) if i else 0. for _ in range(3)], c.w[i], ['%.10f' % rng.uniform(-1, 45) for _ in range(nb)]))
    if fate == 'fewq':
        q = q[:-1]
    if fate == 'fewbands':
        i = rng.randrange(len(q))
        q[i] = (q[i][0], q[i][1], q[i][2][:-1])
    lines = ['mesh: [ %5d, %5d, %5d ]' % (2, 2, 2), 'nqpoint: %-7d' % c.nq, 'reciprocal_lattice:', '- [ 0.1, 0.0, 0.0 ]', '- [ 0.0, 0.1, 0.0 ]', '- [ 0.0, 0.0, 0.1 ]',
             'natom:   %-7d' % c.unit, 'lattice:'] + ['- [ %20.15f, %20.15f, %20.15f ]' % tuple(r) for r in lat] + ['points:']
    for i in range(c.unit):
        lines += ['- symbol: %s' % c.numbers[i], '  coordinates: [ %18.15f, %18.15f, %18.15f ]' % (rng.random(), rng.random(), .25), '  mass: 24.305000']
    lines += ['', 'phonon:'] if q else ['phonon: []']
    for k, ww, band in q:
        lines += ['- q-position: [ %12.7f, %12.7f, %12.7f ]' % tuple(k), '  weight: %-5d' % ww, '  band:']
        for j, f in enumerate(band):
            lines += ['  - # %d' % (j + 1), '    frequency: %15s' % f]
        lines.append('')
    if fate == 'nokey':
        key = rng.choice(['nqpoint', 'natom', 'lattice', 'points', 'phonon'])
        lines = [l.replace(key + ':', key + '_x:') for l in lines]
    if fate == 'syntax':
        lines.insert(rng.randrange(len(lines)), rng.choice(['  - [ 1.0, 2.0', 'x: [', '\tbad: {', '"unclosed']))
    text = '\n'.join(lines) + '\n'
    if fate == 'syntax' and rng.random() < .3:
        text = ''
    open(path, 'w').write(text)
    base = os.path.splitext(path)[0]
    disp = ['supercell_matrix:'] + ['- [ %3d, %3d, %3d ]' % tuple(r) for r in c.dim] + ['supercell:', '  lattice:'] + ['  - [ %.6f, %.6f, %.6f ]' % tuple(r) for r in lat]
    disp += ['  points:'] + ['  - symbol: %s\n    coordinates: [ 0.0, 0.5, 0.25 ]' % c.numbers[i] for i in range(c.super)]
    if fate == 'dispsyntax':
        disp[rng.randrange(len(disp))] += rng.choice([' [ {', ': : [', ' "'])
        if rng.random() < .3:
            disp = []
    if fate != 'nodisp':
        open(base + '_disp.yaml', 'w').write('\n'.join(disp) + '\n')
    energy = 0.
    if fate == 'xmlsyntax' or rng.random() < .7:
        energy = -rng.uniform(1, 900)
        e = '%.8f' % energy
        energy = float(e)
        steps = rng.choice([1, 1, 3])
        xml = ['<?xml version="1.0" encoding="ISO-8859-1"?>', '<modeling>']
        for s in range(steps):
            xml += [' <calculation>', '  <scstep><energy><i name="e_wo_entrp">  -1.00000000 </i></energy></scstep>', '  <energy>',
                    '   <i name="e_fr_energy">   -7.00000000 </i>',
                    '   <i name="e_wo_entrp">  %s </i>' % (e if s == steps - 1 else '-3.5'), '   <i name="e_0_energy">   -8.00000000 </i>', '  </energy>', ' </calculation>']
        xml.append('</modeling>')
        if fate == 'xmlsyntax':
            xml = xml[:rng.randrange(1, len(xml))]
        open(base + '.xml', 'w').write('\n'.join(xml))
    if fate in ('syntax', 'dispsyntax', 'nokey', 'xmlsyntax'):
        return []
    return [dict(s='phonopy', natom=c.unit, lattice=[[V.R(float('%.15f' % a)) for a in r] for r in lat], disp=fate != 'nodisp', m=c.dim, energy=V.R(energy), n=c.nq,
                 q=[dict(c=V.RL(k), w=V.R(ww), f=V.RL([float(f) for f in band])) for k, ww, band in q])]


def other(rng, c):
    """another crystal"""
    d = Crystal(rng, c.kind)
    d.__dict__.update({k: v for k, v in c.__dict__.items()})
    what = rng.choice({'gamma': ['unit'], 'super': ['unit'], 'disp': ['unit', 'dim', 'nq'], 'hess': ['unit', 'dim', 'nq'], 'phonopy': ['unit', 'dim', 'nq']}[c.kind])
    if what == 'unit':
        d.unit = c.unit + rng.choice([1, 2]) if c.unit == 1 else c.unit + rng.choice([-1, 1])
    elif what == 'dim':
        while d.dim == c.dim:
            d.dim = expansion(rng)
    else:
        d.nq = c.nq + 1 if c.nq == 1 else c.nq + rng.choice([-1, 1])
        d.q = [qq + [[0, 1, 0]] for qq in c.q]
        d.w = c.w + [1]
    d.super = d.unit * det(d.dim)
    d.numbers = [rng.choice(SYMBOL) for _ in range(max(d.super, d.unit))]
    return d


def produce(rng, y, folder, big=False):
    """writes the files of a scenario: (name given to the program, is it a list, sections per file)"""
    kind = y['files'][0]['kind']
    c = Crystal(rng, kind, big)
    if kind == 'phonopy' and any(f['fate'] == 'fewq' for f in y['files']):
        c.nq = max(c.nq, 2)
        c.w = c.w + [2] * c.nq
    names, docs = [], []
    scales = list(range(len(y['files'])))
    rng.shuffle(scales)
    for i, x in enumerate(y['files']):
        ext = '.yaml' if kind == 'phonopy' else rng.choice(['.out', '', '.d12.out'])
        name = os.path.join(folder, 'file_%s%d%s' % (rng.choice(['a', 'z', 'V']), i, ext))
        names.append(name)
        cc = other(rng, c) if x['fate'] == 'other' else c
        fate = x['fate']
        if fate == 'missing':
            docs.append([])
            continue
        if fate in ('foreign', 'binary'):
            docs.append([])
            if fate == 'foreign':
                open(name, 'w').write(rng.choice(['', 'POSCAR\n1.0\n', '# nothing here\n- 1\n- 2\n', 'just text\n\n', ' EEEEEEEEEE STARTING\n']))
            else:
                open(name, 'wb').write(bytes([0x89, 0x48, 0x44, 0x46, 0xff, 0xfe, 0x00, 0x81] * 20))
            continue
        if kind == 'phonopy':
            docs.append(phonopy(rng, cc, x, scales[i], name))
            continue
        text, secs = (quasiharmonic if kind.startswith('qha') else frequencies)(rng, cc, x, scales[i])
        open(name, 'w').write('\n'.join(text) + rng.choice(['', '\n']))
        docs.append(secs)
    if len(names) == 1 and y['files'][0]['fate'] != 'missing' and rng.random() < .5:
        return names[0], False, docs
    if y['interface'] == 'crystal-qha':
        return names[0], False, docs
    lst = os.path.join(folder, rng.choice(['list.txt', 'list']))
    open(lst, 'w').write('\n'.join(names) + rng.choice(['', '\n']))
    return lst, True, docs


def check(vq):
    import numpy as np
    import contextlib
    import io
    import cli
    from quantas.IO.qha_reader import QHAInputFileReader
    from quantas.IO.qha_writer import QHAInputCreator
    sc = vq.scenarios('PhononOutputDesign', 'SPECIFICATION Spec\nCONSTANT MaxFiles = %d\nINVARIANT Meaning\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'
                      % vq.pick(3, 4))
    rng = vq.rng
    sc.sort(key=str)
    good = [y for y in sc if y['ok']]
    refs = [y for y in sc if not y['ok'] and all(f['fate'] == 'whole' for f in y['files'])]
    groups = {}
    for y in sc:
        if not y['ok']:
            b = [f for f in y['files'] if f['fate'] != 'whole']
            if b:
                groups.setdefault(str(b[0]), []).append(y)
    vq.log(len(sc), 'lists of outputs', len(good), 'usable', len(groups), 'ways to fail')
    pick = []
    for _ in range(vq.pick(1, 10)):
        pick += [rng.choice(groups[g]) for g in sorted(groups)]
        pick += [rng.choice(refs) for _ in range(30)]
        byk = {}
        for y in good:
            byk.setdefault(y['files'][0]['kind'], []).append(y)
        for kd in sorted(byk):
            pick += [rng.choice(byk[kd]) for _ in range(45)]
    rng.shuffle(pick)
    big = [y for y in good if y['files'][0]['kind'] == 'gamma' and len(y['files']) == 2][:vq.pick(1, 3)]
    pick += big

    def observe(y, docs, out, ttl, crash, error, before, how):
        now = open(out, 'rb').read() if os.path.exists(out) else None
        written = now is not None and now != before
        ev = dict(interface=y['interface'], docs=docs, ref=y['ref'], how=how, title=ttl, crash=crash, error=error, written=written,
                  completed=False, job='', natom=0, dim=[], V=[], E=[], q=[], w=[], f=[])
        if written:
            r = QHAInputFileReader(out)
            if r.completed:
                f = np.asarray(r.frequencies)
                ev.update(completed=True, job=str(r.jobname), natom=int(r.natoms), dim=r.data['supercell'], V=V.RL(np.atleast_1d(r.volume)), E=V.RL(np.atleast_1d(r.energy)),
                          q=[V.RL(p['q-position']) for p in r.data['phonon']], w=V.RL(r.weights), f=[V.RM(m) for m in f])
        vq.emit(**ev)
    k = n = 0
    while k < len(pick):
        creators, again = {}, []
        for y in pick[k:k + rng.choice([1, 2, 3])]:
            isbig = k >= len(pick) - len(big)
            k += 1
            n += 1
            badref = not 0 <= y['ref'] < len(y['files'])
            how = rng.choice(['command', 'command', 'class', 'class-reused'])
            if badref and all(f['fate'] == 'whole' for f in y['files']):
                how = 'command'
            folder = os.path.join(vq.scratch, 'g%d' % n)
            os.mkdir(folder)
            name, is_list, docs = produce(rng, y, folder, isbig)
            with vq.case('%s via %s: %s ref %d' % (y['interface'], how, ' '.join('%s/%s%s%s' % (f['kind'], f['fate'], f['keep'] if f['fate'] == 'killed' else '', '+' if f['cut'] else '')
                                                                                for f in y['files']), y['ref']), 20):
                ttl = rng.choice(TITLES)
                if how == 'command':
                    out, args = os.path.join(folder, 'quantas_ha.yaml'), []
                    if rng.random() < .7:
                        out, args = os.path.join(folder, 'new.yaml'), ['-o', os.path.join(folder, 'new')]
                    if is_list:
                        args.append(rng.choice(['-l', '--list']))
                    if y['ref'] or rng.random() < .3:
                        args += ['-r', str(y['ref'])]
                    before = None
                    if rng.random() < .2:
                        before = b'kept\n'
                        open(out, 'wb').write(before)
                    given = name
                    if not os.path.exists(name) and not is_list:
                        given = name
                    r = cli.run(['inpgen', 'ha', given, '-i', y['interface']] + args, ttl + '\n', cwd=folder)
                    observe(y, docs, out, ttl, r['crash'], 'shown' if r['error'] else '', before, how)
                else:
                    out = os.path.join(folder, 'lib.yaml')
                    g = QHAInputCreator(y['interface'])
                    if how == 'class-reused':
                        g = creators.setdefault(y['interface'], g)
                    with contextlib.redirect_stdout(io.StringIO()):
                        r = vq.attempt(g.read, name, is_list, y['ref'])
                    crash, error = '', ''
                    if r[0] == 'exc':
                        # the command turns these two into a message
                        crash, error = ('', r[1]) if r[1] in ('KeyError', 'UnicodeDecodeError') else ('%s: %s' % r[1:], '')
                    elif not r[1][0]:
                        error = str(r[1][1] or '')
                    else:
                        save(g, out, ttl, y['ref'])
                        if how == 'class':
                            again.append((y, docs, g, ttl))
                    observe(y, docs, out, ttl, crash, error, None, how)
        for y, docs, g, ttl in again:
            n += 1
            with vq.case('%s: written once more after others were generated' % y['interface']):
                out = os.path.join(vq.scratch, 'again%d.yaml' % n)
                save(g, out, ttl, y['ref'])
                observe(y, docs, out, ttl, '', '', None, 'again')
                os.remove(out)
    vq.validate('PhononOutputTrace')


def save(g, out, ttl, ref):
    if g.interface_flag == 'crystal-qha':
        g.write_from_single_file(out, ttl, ref)
    else:
        g.write_from_multiple_files(out, ttl, ref)


if __name__ == '__main__':
    V.main(check, 'I01')
