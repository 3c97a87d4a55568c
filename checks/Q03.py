"""Q03: scheme interpolation of QHA properties and unit invariance."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V
import phonon as P
from Q01 import crystal, run_qha, units, model, conditions
from Q02 import NAMES

OFF = {'K': 0., 'C': 273.15}


def one(vq, ph, st, tag):
    c, txt = run_qha(vq, ph, st, tag)
    if not c.completed:
        raise RuntimeError('run failed: %s' % c.error)
    d = model({}, ph, st)
    d.update(T=V.RL(c.temperature), P=V.RL(c.pressure), res={n: V.RM(c.results[n]) for n in NAMES})
    return d


def check(vq):
    vq.check_design('QhaInterpDesign', 'SPECIFICATION Spec\nCONSTANTS Ys = {0, 1}\nNPts = 5\nDegs = {2, 3}\n'
                    'INVARIANT Linear\nINVARIANT UnitFree\nINVARIANT Normal\nCHECK_DEADLOCK FALSE\n',
                    workers=8)
    rng = vq.rng
    for k in range(vq.pick(60, 900)):
        u = units(rng)
        ph0, pmax = crystal(rng, nv=7)
        sch, deg, fdeg = rng.choice(['td', 'freq']), rng.choice([2, 3, 4, 5]), rng.choice([2, 3, 4, 5])
        mini = rng.choice(['poly', 'eos'])
        eos = rng.choice(['birchmurnaghan', 'vinet', 'murnaghan', 'pouriertarantola'])
        tr, pr = conditions(rng, u[3], u[4], pmax, 3, 2)
        st = P.settings(tr, *u[:4], pr, u[4], sch, mini, eos, deg, fdeg)
        if mini == 'poly' and rng.random() < .5:                 # irregular vibrational data: the fit is not exact
            for q in range(len(ph0.w)):
                for b in range(ph0.nu.shape[1]):
                    for v in range(len(ph0.V)):
                        ph0.nu[q, b, v] *= 1. + rng.uniform(-.003, .003)
        ph = ph0.to_units(*u[:3])
        with vq.case('run %d %s %s/%s edeg %d fdeg %d T=%s P=%s' % (k, u, sch, mini, deg, fdeg, tr, pr)):
            vq.emit(ev='run', **one(vq, ph, st, 'a'))
    for k in range(vq.pick(24, 300)):
        ph0, pmax = crystal(rng, nv=rng.choice([7, 9]))
        sch, deg, fdeg = rng.choice(['td', 'freq']), rng.choice([2, 3, 4]), rng.choice([2, 3])
        mini = rng.choice(['poly', 'eos'])
        eos = rng.choice(['birchmurnaghan', 'vinet', 'murnaghan', 'pouriertarantola'])
        nt = rng.choice([2, 2, 50])
        dt = rng.uniform(10, 30)
        t0 = rng.choice([0., 20.])
        p0, dp = rng.choice([0., -.1 * pmax]), .4 * pmax
        runs = []
        with vq.case('restated %d %s/%s/%s edeg %d nt %d' % (k, sch, mini, eos, deg, nt), limit=120):
            u1 = ('Ha', 'cm^-1', 'A', 'K', 'GPa')
            for n, u in enumerate([u1, units(rng)]):
                s = 10. if u[4] == 'kbar' else 1.
                st = P.settings((t0 - OFF[u[3]], t0 - OFF[u[3]] + dt * (nt - 1) + .3 * dt, dt), *u[:4],
                                (p0 * s, (p0 + 1.3 * dp) * s, dp * s), u[4], sch, mini, eos, deg, fdeg)
                runs.append(one(vq, ph0.to_units(*u[:3]), st, 'b%d' % n))
            for r in runs:
                del r['nu'], r['w']
            vq.emit(ev='restated', base=runs[0], alt=runs[1])
    vq.validate('QhaInterpTrace')


if __name__ == '__main__':
    V.main(check, 'Q03')
