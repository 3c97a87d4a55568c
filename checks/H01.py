"""H01: harmonic sums and identities (spec/Harmonic*.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vq as V
import phonon as P

PROPS = ['Uzp', 'Uth', 'Utot', 'S', 'Fvib', 'F', 'Cv']


def run_ha(vq, ph, st, tag='x'):
    from quantas.harmonic.harmonic import HACalculator
    path = ph.write(os.path.join(vq.scratch, 'ha_%s.yaml' % tag))
    c = HACalculator(st)
    err = c.read_input(path)
    if err is not None:
        raise RuntimeError('input rejected: %s' % err)
    c.run()
    return c


def describe(c, ph, st):
    import numpy as np
    return dict(eu=st['energy_unit'].lower(), fu=st['frequency_unit'].lower(), vu=st['lenght_unit'].lower(),
                tu=st['temperature_unit'].lower(), T=V.RL(c.temperature), V=V.RL(ph.V),
                U0=V.RL(ph.E), w=V.RL(ph.w),
                nu=[[V.RL(b) for b in q] for q in ph.nu],
                res={p: V.RM(np.atleast_2d(c.results[p])) for p in PROPS})


def tranges(rng, tu):
    k = rng.randrange(7)
    if k == 0:
        r = (0., 0., 1.)
    elif k == 1:
        r = (0., 3000., 750.)
    elif k == 2:
        r = (298.15, 298.15, 1.)
    elif k == 3:
        r = (0., 4., 2.)
    elif k == 4:
        t = rng.uniform(1, 2500)
        r = (t, t + 300., 123.25)
    elif k == 5:
        r = (0.1, 12.1, 4.)
    else:
        t = rng.uniform(0, 40)
        r = (t, t + 20, 10.)
    return (r[0] - 273.15, r[1] - 273.15, r[2]) if tu == 'C' else r


def check(vq):
    vq.check_design('HarmonicDesign', 'SPECIFICATION Spec\n'
                    'CONSTANTS Freqs = {0, 50, 51, 60, 127, 550, 3383, 15050, 40050, 120050}\n'
                    'Temps = {0, 1, 20, 150, 1000, 2981, 10000, 30000}\n'
                    'INVARIANT Identity\nINVARIANT ThirdLaw\nINVARIANT Slopes\nINVARIANT Bounds\n'
                    'CHECK_DEADLOCK FALSE\n', 'oscillator identities')
    rng = vq.rng
    n = vq.pick(160, 1500)
    for k in range(n):
        ph0 = P.random_phonons(rng, wild=(k % 4 != 0))
        if k % 10 == 3:
            ph0.nu[:] = 0.                       # nothing but zero modes
        if k % 10 == 7:
            ph0.w[:] = 1.
        eu, fu, vu, tu = (rng.choice(['Ha', 'eV', 'Ry']), rng.choice(['cm^-1', 'THz', 'Hz']),
                          rng.choice(['A', 'bohr']), rng.choice(['K', 'C']))
        ph = ph0.to_units(eu, fu, vu)
        st = P.settings(tranges(rng, tu), eu, fu, vu, tu)
        with vq.case('run %d %s %s %s %s T=%s nq=%d natom=%d nv=%d' % (
                k, eu, fu, vu, tu, st['trange'], len(ph.w), ph.natom, len(ph.V))):
            c = run_ha(vq, ph, st)
            vq.emit(ev='run', **describe(c, ph, st))
    vq.validate('HarmonicTrace')


if __name__ == '__main__':
    V.main(check, 'H01')
