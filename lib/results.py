"""Result files of the analyses: made by the calculators, or written here with arbitrary values."""
import os
import numpy as np

HA = ['Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv']
QHA = HA + ['VT', 'Cp', 'Cp-Cv', 'KT', 'KS', 'Kp', 'H', 'G', 'alphaV', 'gruneisen']
PLANES = ['xy', 'xz', 'yz']
WIDTH = dict(E=1, LC=2, G=2, Nu=3, waves=3)


def unit_of(kind, k, eu, vu, pu):
    if k in ('Cv', 'S', 'Cp', 'Cp-Cv'):
        return 'm' + eu
    return {'VT': vu, 'KT': pu, 'KS': pu, 'Kp': '', 'gruneisen': '', 'alphaV': 'K^-1'}.get(k, eu)


def scale(rng, k):
    """typical values of a dataset"""
    lo, hi, sign = {'S': (1e-3, 1., 0), 'Cv': (1e-9, 1., 0), 'Cp': (1e-9, 1., 0), 'Cp-Cv': (1e-12, 1e-2, 0), 'VT': (5, 3000, 0), 'KT': (.5, 900, 0),
                    'KS': (.5, 900, 0), 'Kp': (1, 9, 0), 'alphaV': (1e-9, 1e-4, 1), 'gruneisen': (.01, 4, 1), 'U0': (.1, 9999, -1)}.get(k, (1e-6, 9999., 1))
    r = rng.random()
    if r < .04:
        return 0.
    if r < .12 and k in HA + ['Cp', 'Cp-Cv', 'alphaV']:
        lo, hi = 1e-60, 1e-6   # near zero temperature
    x = 10. ** rng.uniform(np.log10(lo), np.log10(hi))
    return -x if sign < 0 or (sign > 0 and rng.random() < .5) else x


def harmonic(rng, path, kind, names=None, shape=None):
    """a result file of the (quasi-)harmonic approximation with arbitrary values"""
    import h5py
    nt, nv = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 4, 8])
    nt, nv = shape or (nt, nv)
    eu, vu, tu, pu = rng.choice(['Ha', 'eV', 'Ry']), rng.choice(['A', 'bohr']), rng.choice(['K', 'C']), rng.choice(['GPa', 'kbar'])
    t0, dt = rng.choice([0., 273.15, -100., rng.uniform(0, 900)]), rng.choice([100., 25., .5, 1., 12.25, rng.uniform(1, 300)])
    with h5py.File(path, 'w') as f:
        f.attrs['info'] = '\nThis file was created with Quantas.\n\nJob: x\n'

        def put(k, a, unit):
            d = f.create_dataset(k, data=np.array(a, float))
            d.attrs['desc'] = k
            d.attrs['unit'] = unit
        put('T', [t0 + dt * i for i in range(nt)], tu)
        if kind == 'ha':
            v = sorted(rng.uniform(8, 3000) for _ in range(nv))
            if rng.random() < .3:
                rng.shuffle(v)
            put('V', v, vu)
            put('U0', [scale(rng, 'U0') for _ in range(nv)], eu)
        else:
            p0, dp = rng.choice([0., -1., rng.uniform(-5, 40)]), rng.choice([.5, 1., .001, rng.uniform(.1, 20)])
            put('P', [p0 + dp * i for i in range(nv)], pu)
        for k in (HA if kind == 'ha' else QHA):
            # the zero-point energies of a harmonic run do not depend on the temperature: one row
            put(k, [[scale(rng, k) for _ in range(nv)] for _ in range(1 if (kind, k) == ('ha', 'Uzp') else nt)], unit_of(kind, k, eu, vu, pu))


def elastic(rng, path, polar=True, waves=None):
    """a result file of the elastic analysis with arbitrary values"""
    import h5py
    n = rng.choice([2, 5, 13, 37])
    with h5py.File(path, 'w') as f:
        f.attrs['info'] = '\nThis file was created with Quantas.\n'

        def put(k, a, unit):
            f.create_dataset(k, data=np.array(a, float)).attrs['unit'] = unit
        for k in ('stiffness', 'compliance'):
            put(k, [[rng.uniform(-9, 400) for _ in range(6)] for _ in range(6)], 'GPa')
        if polar:
            w = waves if waves is not None else rng.random() < .6
            for q in ['E', 'LC', 'G', 'Nu'] + (['waves'] if w else []):
                for pl in PLANES:
                    rows = []
                    for i in range(n):
                        v = [rng.uniform(0, {'E': 900, 'LC': 99, 'G': 400, 'Nu': 2, 'waves': 15}[q]) for _ in range(WIDTH[q])]
                        if q == 'Nu':
                            v[0] = -v[0] if rng.random() < .5 else 0.
                        rows.append([360. * i / (n - 1)] + v)
                    put('polar_%s_%s' % (q, pl), rows, {'E': 'GPa', 'G': 'GPa', 'LC': 'TPa^-1', 'waves': 'km s^-1'}.get(q, ''))


SEISMIC = ['ssecondary', 'fsecondary', 'primary']
SEISMIC_INFO = """
This file was created with Quantas.

It contains the results of the Christoffel equation appliet to the second-order
elastic constants (SOECs, matrix in Voigt's notation), performed with the
following settings:
  - pressure scale:    {0}
  - density: {1}

This file contains three datasets:
  - slow secondary data (ssecondary)
  - fast secondary data (fsecondary)
  - primary data (primary)

Each dataset contains the following results (measurement unit):
  - Column 1     : Theta angle (rad)
  - Column 2     : Phi angle (rad)
  - Column 3     : Phase velocity (km s^-1)
  - Column 14    : Enhancement factor (log_10A)
"""


def seismic(rng, path):
    """a result file of the wave analysis with arbitrary values"""
    import h5py
    n = rng.choice([1, 2, 7, 24])
    span = [(0, 1.6), (0, 6.3), (.5, 15), (-90, 90), (-1, 1), (-1, 1), (-1, 1), (.5, 15), (-90, 90), (-15, 15), (-15, 15), (-15, 15), (0, 90), (-3, 9)]
    with h5py.File(path, 'w') as f:
        f.attrs['info'] = SEISMIC_INFO.format(rng.choice(['GPa', 'kbar']), 'kg m^-3')
        for k in SEISMIC:
            f.create_dataset(k, data=np.array([[rng.uniform(*s) if rng.random() > .03 else 0. for s in span] for _ in range(n)]))


def read(kind, path):
    """dict(offered, xunit, yunit, x, y, data): what such a file holds"""
    import h5py
    with h5py.File(path, 'r') as f:
        if kind == 'seismic':
            return dict(offered=list(SEISMIC), xunit='', yunit='', y=[], data={k: dict(x=[], values=np.array(f[k]), unit='', flat=False) for k in SEISMIC})
        if kind == 'soec':
            keys = [q for q in WIDTH if 'polar_%s_xy' % q in f]
            data = {}
            for q in keys:
                a = [np.array(f['polar_%s_%s' % (q, p)]) for p in PLANES]
                data[q] = dict(x=a[0][:, 0], values=np.hstack([b[:, 1:] for b in a]), unit=str(f['polar_%s_xy' % q].attrs['unit']), flat=False)
            return dict(offered=keys, xunit='', yunit='', y=[], data=data)
        yn = 'V' if kind == 'ha' else 'P'
        keys = [k for k in f if k not in ('T', yn)]
        data = {k: dict(x=np.array(f['T']), values=np.array(f[k]), unit=str(f[k].attrs['unit']), flat=f[k].ndim == 1 or len(f[k]) < len(f['T'])) for k in keys}
        return dict(offered=keys, xunit=str(f['T'].attrs['unit']), yunit=str(f[yn].attrs['unit']), y=np.array(f[yn]), data=data)


def table(kind, text):
    """the table in an exported file, numbers as floats"""
    L = text.split('\n')
    if kind == 'seismic':
        import re
        body = []
        for s in L:
            try:
                n = [float(t) for t in s.split()]
            except ValueError:
                n = []
            if n:
                body.append(n)
        told = [m.group(1) for m in re.finditer(r'data \((\w+)\)', text)]
        return dict(title=','.join(told), unit='', xlabel='', ylabel='', planes=[], y=[], x=[], rows=body)
    assert L[0].startswith('*-') and L[1] == '', L[:2]
    r = dict(title=L[2].strip() if not L[2].startswith('Data') else '', unit=L[3].strip(), planes=[], y=[], x=[], rows=[])
    bars = [i for i, s in enumerate(L) if s.startswith('+')]
    assert len(bars) == 3, len(bars)
    head = L[bars[0] + 1:bars[1]]
    import re
    m = re.match(r'\s*(\S+(?: \S+)*)\s{2,}(\S.*\S)\s*$', head[0])
    r['xlabel'], r['ylabel'] = (m.group(1), m.group(2)) if m else (head[0], '')
    if kind == 'soec':
        r['planes'] = head[1].split()
    else:
        r['y'] = [float(t) for t in head[1].split()]
    body = [s for s in L[bars[1] + 1:bars[2]] if s.strip()]
    for s in body:
        n = [float(t) for t in s.split()]
        if s[:11].strip():
            r['x'].append([n[0]])
            n = n[1:]
        else:
            r['x'].append([])
        r['rows'].append(n)
    return r
