"""Synthetic phonon data sets and their input files."""
import numpy as np

# CODATA 2018, independent of the code under test (the trace specification
# re-checks every conversion made with them)
C = 299792458.
EJ = {'Ha': 4.3597447222071e-18, 'eV': 1.602176634e-19, 'Ry': 2.1798723611035e-18}
FZ = {'cm^-1': 100 * C, 'THz': 1e12, 'Hz': 1.}
LM = {'A': 1.00001495e-10, 'bohr': 5.29177210903e-11}
NA = 6.02214076e23
PZ = {'GPa': 1e9, 'kbar': 1e8}


def fmt(x):
    return '%.17e' % x


class Phonons(object):

    def __init__(self, job, natom, V, E, w, nu, sup=None, eu='Ha', fu='cm^-1', vu='A'):
        self.job, self.natom = job, natom
        self.V, self.E, self.w = np.array(V, float), np.array(E, float), np.array(w, float)
        self.nu = np.array(nu, float)           # q, band, volume
        self.sup = sup or [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        self.eu, self.fu, self.vu = eu, fu, vu

    def copy(self):
        return Phonons(self.job, self.natom, self.V.copy(), self.E.copy(), self.w.copy(),
                       self.nu.copy(), self.sup, self.eu, self.fu, self.vu)

    def to_units(self, eu, fu, vu):
        n = self.copy()
        if eu != self.eu:
            n.E = n.E * (EJ[self.eu] / EJ[eu])
        if fu != self.fu:
            n.nu = n.nu * (FZ[self.fu] / FZ[fu])
        if vu != self.vu:
            n.V = n.V * (LM[self.vu] / LM[vu]) ** 3
        n.eu, n.fu, n.vu = eu, fu, vu
        return n

    def text(self, style='list', f=fmt):
        def row(vals):
            if style == 'string':
                return '[ ' + '  '.join(f(v) for v in vals) + ' ]'
            return '[ ' + ', '.join(f(v) for v in vals) + ' ]'
        t = 'job: %s\n' % self.job if self.job is not None else ''
        t += 'natom:   %d\nsupercell:\n' % self.natom
        for r in self.sup:
            t += '- [ %6d, %6d, %6d ]\n' % tuple(r)
        t += 'qpoints: %d\n' % len(self.w)
        t += 'volume: %s\nenergy: %s\nphonon:\n' % (row(self.V), row(self.E))
        for i in range(len(self.w)):
            t += '- q-position: [ %.7f, 0.0000000, 0.0000000 ]\n  weight: %s\n  band:\n' % (
                i / 7., ('%r' % float(self.w[i])))
            for j in range(self.nu.shape[1]):
                t += '  - # %d\n    frequency: %s\n' % (j + 1, row(self.nu[i, j]))
        return t

    def write(self, path, **k):
        with open(path, 'w') as fh:
            fh.write(self.text(**k))
        return path


def settings(trange, eu='Ha', fu='cm^-1', vu='A', tu='K', prange=(0., 0., 1.), pu='GPa',
             scheme='td', mini='poly', eos='birchmurnaghan', edeg=3, fdeg=3, kieffer=False,
             silent=True, debug=False, logfile=None):
    return {'trange': tuple(trange), 'prange': tuple(prange), 'energy_unit': eu,
            'lenght_unit': vu, 'frequency_unit': fu, 'temperature_unit': tu,
            'pressure_unit': pu, 'debug': debug, 'silent': silent, 'logfile': logfile,
            'qha_scheme': scheme, 'minimization': mini, 'kieffer': kieffer, 'edeg': edeg,
            'fdeg': fdeg, 'eos_function': eos,
            'eos': {'murnaghan': 'M', 'birchmurnaghan': 'BM', 'vinet': 'V',
                    'pouriertarantola': 'PT'}[eos]}


def random_phonons(rng, nv=None, nq=None, natom=None, wild=True, job='synthetic'):
    """Arbitrary data (harmonic runs): frequencies of every kind."""
    nv = nv or rng.randrange(1, 5)
    nq = nq or rng.randrange(1, 4)
    natom = natom or rng.randrange(1, 3)
    V = sorted(rng.uniform(10, 400) for _ in range(nv))
    E = [-rng.uniform(0.1, 3000) for _ in range(nv)]

    def one():
        k = rng.randrange(12) if wild else 6
        if k == 0:
            return 0.
        if k == 1:
            return -rng.uniform(0.01, 300)
        if k == 2:
            return 10. ** rng.uniform(-3, 1)
        if k == 3:
            return rng.uniform(3000, 12000)
        return rng.uniform(15, 3500)
    nu = [[[one() for _ in range(nv)] for _ in range(3 * natom)] for _ in range(nq)]
    w = [rng.choice([1, 1, 2, 3, 4, 8, 12, 0.5, rng.uniform(0.01, 5)]) for _ in range(nq)]
    return Phonons(job, natom, V, E, w, nu)
