"""Q02: thermodynamic identities and result file of a QHA run."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V
import phonon as P
from Q01 import crystal, run_qha, units

NAMES = ['Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv', 'VT', 'KT', 'Kp', 'KS', 'H', 'G', 'Cp', 'Cp-Cv',
         'alphaV', 'gruneisen']


def describe(c, st):
    return dict(eu=st['energy_unit'].lower(), vu=st['lenght_unit'].lower(), tu=st['temperature_unit'].lower(),
                pu=st['pressure_unit'].lower(), T=V.RL(c.temperature), P=V.RL(c.pressure),
                res={n: V.RM(c.results[n]) for n in NAMES})


def read_file(path):
    import h5py
    f = {}
    with h5py.File(path, 'r') as h:
        for n in h:
            a = h[n][()]
            f[n] = dict(value=V.RL(a) if a.ndim == 1 else V.RM(a), unit=str(h[n].attrs['unit']).lower()
                        if n not in ('alphaV',) else str(h[n].attrs['unit']))
        info = str(h.attrs['info'])
    return f, info


def check(vq):
    sc = vq.scenarios('QhaIdDesign', 'SPECIFICATION Spec\nCONSTANTS Ks = {1, 40, 160}\nVs = {8, 37}\nAs = {0, 3, 40}\n'
                      'Cs = {2, 25, 150}\nTs = {1, 300, 2000}\nCounts = {1, 2, 10, 49, 50, 51, 60}\n'
                      'INVARIANT Routes\nINVARIANT Signs\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n')
    rng = vq.rng
    counts = sorted(s['n'] for s in sc)
    k = 0
    for rep in range(vq.pick(6, 80)):
        for n in counts:
            k += 1
            eu, fu, vu, tu, pu = units(rng)
            ph, pmax = crystal(rng)
            ph.job = 'case %d of Q02' % k
            ph = ph.to_units(eu, fu, vu)
            t0 = rng.choice([0., 0., rng.uniform(1, 300)])
            dt = rng.choice([2., 10., rng.uniform(1, 25)])
            t0 -= 273.15 if tu == 'C' else 0.
            s = 10. if pu == 'kbar' else 1.
            np_ = rng.choice([1, 2, 3])
            p0 = rng.choice([0., -.1 * pmax, .1 * pmax]) * s
            dp = .3 * pmax * s
            mini = rng.choice(['poly', 'poly', 'eos'])
            st = P.settings((t0, t0 + dt * (n - 1) + .3 * dt, dt), eu, fu, vu, tu,
                            (p0, p0 + dp * (np_ - 1) + .3 * dp, dp), pu, rng.choice(['td', 'td', 'freq']), mini,
                            rng.choice(['birchmurnaghan', 'vinet', 'murnaghan', 'pouriertarantola']),
                            rng.choice([2, 3, 4]), rng.choice([2, 3]))
            with vq.case('run %d nT=%d %s T=%s P=%s %s %s' % (k, n, (eu, fu, vu, tu, pu), st['trange'], st['prange'],
                                                              st['qha_scheme'], mini)):
                c, txt = run_qha(vq, ph, st)
                if not c.completed:
                    raise RuntimeError('run failed: %s' % c.error)
                d = describe(c, st)
                vq.emit(ev='run', warned='WARNING' in txt.upper(), **d)
                path = os.path.join(vq.workdir, 'q02_%d.hdf5' % k)
                c.export_hdf5(path)
                f, info = read_file(path)
                os.remove(path)
                vq.emit(ev='file', file=f, jobinfile=ph.job in info, **d)
    vq.validate('QhaIdTrace')


if __name__ == '__main__':
    V.main(check, 'Q02')
