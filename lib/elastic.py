"""Stiffness matrices, full runs of the elastic analysis in worker processes,
and reading of what they report."""
import math
import multiprocessing
import os
import re
import traceback

TITLES = ['Periclase (MgO)', 'alpha quartz at 300 K', 'P63/m phase', 'test crystal 7']
KINDS = ['cubic', 'hexagonal', 'trigonal_high', 'trigonal_low', 'tetragonal_high', 'tetragonal_low',
         'orthorhombic', 'monoclinic', 'triclinic']


def rotation(rng):
    import numpy as np
    q, r = np.linalg.qr(np.array([[rng.gauss(0, 1) for _ in range(3)] for _ in range(3)]))
    q = q * np.sign(np.diag(r))
    return q if np.linalg.det(q) > 0 else -q


def bond(R):
    import numpy as np
    P = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    M = np.zeros((6, 6))
    for a, (i, j) in enumerate(P):
        for b, (k, m) in enumerate(P):
            M[a, b] = R[i, k] * R[j, m] if b < 3 else R[i, k] * R[j, m] + R[i, m] * R[j, k]
    return M


def matrix(rng, kind, lowest=3.):
    """a positive definite stiffness matrix (numbers of at most 6 decimals)"""
    import numpy as np
    from R02 import stable
    from S03 import build, constants, UNIT
    for _ in range(2000):
        if kind == 'isotropic':
            K, G = rng.uniform(20, 400), rng.uniform(5, 250)
            c = np.zeros((6, 6))
            c[:3, :3] = K - 2 * G / 3
            c[range(3), range(3)] += 2 * G
            c[range(3, 6), range(3, 6)] = G
        elif kind == 'random':
            c = stable(rng)
            c = (c + c.T) / 2
        elif kind == 'turned':                  # a simple crystal in a general orientation
            M = bond(rotation(rng))
            c = M @ matrix(rng, rng.choice(['cubic', 'hexagonal', 'tetragonal_low', 'isotropic']), 2 * lowest) @ M.T
            c = (c + c.T) / 2
        elif kind == 'soft':                    # strongly anisotropic
            m = build(rng.choice(KINDS[:8]), constants(rng))
            f = rng.uniform(.05, .3)
            for k in (44, 55, 66):
                m[k] = m[k] * f
            for k in (12, 13, 23):
                m[k] = m[k] * 3
            c = np.array([[m[10 * min(i, j) + max(i, j)] for j in range(1, 7)] for i in range(1, 7)], dtype=float) / UNIT
        elif kind == 'auxetic':
            m = build(rng.choice(['cubic', 'orthorhombic', 'tetragonal_high', 'hexagonal']), constants(rng))
            for k in (12, 13, 23):
                m[k] = -abs(m[k]) * 1.5
            if rng.random() < .5:
                m[44] = m[55] = m[66] = m[11] * 0.8
            c = np.array([[m[10 * min(i, j) + max(i, j)] for j in range(1, 7)] for i in range(1, 7)], dtype=float) / UNIT
        else:
            m = build(kind, constants(rng))
            if rng.random() < .5:
                # larger off-diagonal blocks
                for k in (14, 15, 16, 25, 35, 46, 24, 26, 34, 36, 45, 56):
                    pass
            c = np.array([[m[10 * min(i, j) + max(i, j)] for j in range(1, 7)] for i in range(1, 7)], dtype=float) / UNIT
        c = np.round(c, 6)
        c = np.triu(c) + np.triu(c, 1).T
        if np.linalg.eigvalsh(c)[0] > lowest:
            return c
    raise RuntimeError('no stable matrix of kind ' + kind)


def unstable(rng):
    """a symmetric matrix with one or several clearly negative eigenvalues"""
    import numpy as np
    while True:
        c = matrix(rng, rng.choice(KINDS + ['random', 'turned']))
        w, v = np.linalg.eigh(c)
        how = rng.choice(['value', 'value', 'coupling', 'shear', 'diag'])
        if how == 'value':
            for k in rng.sample(range(6), rng.choice([1, 1, 2, 6])):
                w[k] = -rng.choice([rng.uniform(.02, 1), rng.uniform(1, 200)])
            c = (v * w) @ v.T
        elif how == 'coupling':          # positive diagonal, but C12 too large
            i, j = rng.sample(range(6), 2)
            c[i, j] = c[j, i] = math.sqrt(c[i, i] * c[j, j]) * rng.uniform(1.02, 1.6)
        elif how == 'shear':
            k = rng.choice([3, 4, 5])
            c[k, k] = -rng.uniform(.05, 80)
        else:
            k = rng.choice([0, 1, 2])
            c[k, k] = -rng.uniform(.05, 80)
        c = np.round((c + c.T) / 2, 6)
        w = np.linalg.eigvalsh(c)
        if w[0] < -.01 and min(abs(w)) > .01:
            return c


def write(path, title, c, rho):
    with open(path, 'w') as f:
        f.write(title + '\n' + '\n'.join(' '.join(repr(float(v)) for v in r) for r in c) + '\n')
        if rho:
            f.write(repr(rho) + '\n')


NUM = re.compile(r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)')


def nums(s):
    return [float(x) for x in NUM.findall(s)]


def parse(text):
    """the numbers of a report"""
    out = dict(averages={}, eig=[], vel=None, compliance=[], stiffness=[], tables=[], analysed=False)
    lines = text.split('\n')
    for i, ln in enumerate(lines):
        w = ln.split()
        if w and w[0] in ('Voigt', 'Reuss', 'Hill') and len(w) == 5:
            out['averages'][w[0]] = [float(x) for x in w[1:]]
        elif 'lambda_' in ln:
            out['eig'].append(float(w[-1]))
        elif 'Vs):' in ln or 'Vp):' in ln:
            out['vel'] = (out['vel'] or []) + [float(w[-2])]
        elif ln.startswith('Compliance'):
            out['compliance'] = [nums(x) for x in lines[i + 1:i + 7]]
        elif ln.startswith('Stiffness matrix'):
            out['stiffness'] = [nums(x) for x in lines[i + 1:i + 7]]
        elif 'ariations of' in ln:
            out['analysed'] = True
        elif 'E_min' in ln or 'G_min' in ln:
            out['tables'].append([ln.split('|')[1:]])
        elif ln.count(' min ') and ln.count('max') == 3:
            out['tables'].append([['V_s1', 'V_s2', 'V_p']])
        elif out['tables'] and ln.count('|') >= 2 and nums(ln.split('|', 1)[1]):
            out['tables'][-1].append((ln.split('|')[0].strip(), [nums(x) for x in ln.split('|')[1:]]))
    return out


def extremes(tables):
    """property -> dict(min, max, aniso, axes...) from the tables of a report"""
    res = {}
    for t in tables:
        head = t[0]
        rows = t[1:]
        for k in range(len(head)):
            name = {'E_min': 'E', 'beta_min': 'LC', 'G_min': 'G', 'nu_min': 'Nu'}.get(head[k].split()[0], head[k].split()[0])
            d = dict(min=rows[0][1][k][0], max=rows[0][1][k][1], aniso=rows[1][1][k][0])
            ax = [r[1][k] for r in rows[2:]]
            d['n'] = [[a[j] for a in ax[:3]] for j in (0, 1)]
            d['m'] = [[a[j] for a in ax[3:6]] for j in (0, 1)] if len(ax) >= 6 else None
            res[name] = d
    return res


def _job(args):
    """one full run; everything observable as plain data"""
    path, polar = args
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        import numpy as np
        import h5py
        from quantas.soec.soec import SOECCalculator
        log = path + '.log'
        if os.path.exists(log):
            os.remove(log)
        calc = SOECCalculator(dict(polar=polar, silent=True, debug=False, logfile=log, pressure_unit='GPa', plotting=False))
        err = calc.read_input(path)
        if err is not None:
            return dict(crash='input refused: ' + str(err))
        calc.report_input_data()
        calc.run()
        res = dict(completed=bool(calc.completed), error=str(calc.error or ''), log=open(log).read(), h5={}, units={})
        if calc.completed:
            calc.export_hdf5(path + '.h5')
            with h5py.File(path + '.h5', 'r') as f:
                for k in f:
                    res['h5'][k] = np.array(f[k])
                    res['units'][k] = str(f[k].attrs.get('unit', '?'))
            os.remove(path + '.h5')
        return res
    except BaseException:
        return dict(crash=traceback.format_exc())


def runs(jobs, limit=120, workers=8):
    """full runs in worker processes: yields (index, result)"""
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(workers, maxtasksperchild=20) as pool:
        todo = [pool.apply_async(_job, (j,)) for j in jobs]
        for k, r in enumerate(todo):
            try:
                yield k, r.get(timeout=limit)
            except multiprocessing.TimeoutError:
                yield k, dict(crash='no answer within %d s' % limit)
