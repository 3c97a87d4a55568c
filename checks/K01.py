"""K01: Kieffer acoustic contributions (spec/Kieffer*.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V
import phonon as P


def check(vq):
    import numpy as np
    vq.check_design('KiefferDesign', 'SPECIFICATION Spec\nCONSTANTS Nus = %s\nTemps = %s\n'
                    'INVARIANT Norm\nINVARIANT Entropy\nINVARIANT HeatCap\nINVARIANT Bounds\nINVARIANT Classical\n'
                    'INVARIANT Cubic\nCHECK_DEADLOCK FALSE\n' % (
                        vq.pick('{3, 10, 30, 90, 300}', '{3, 5, 10, 20, 40, 60, 90, 150, 300}'),
                        vq.pick('{10, 50, 200, 1000, 3000, 20000}', '{5, 10, 50, 200, 500, 1000, 3000, 10000, 20000, 50000}')),
                    workers=8)
    from quantas.qha.utils.kieffer import Kieffer
    rng = vq.rng

    def triple(k, T):
        return [k.helmholtz(T), k.entropy(T), k.heat_capacity(T)]
    for n in range(vq.pick(250, 5000)):
        nus = [10 ** rng.uniform(11.5, 13.5) for _ in range(rng.choice([1, 2, 3, 3, 3, 6]))]
        if rng.random() < .2:
            nus = [float(round(x / 1e12) * 1e12 or 1e12) for x in nus]
        T = rng.choice([0., 298.15, 300., 10 ** rng.uniform(-1, 3.6), 10 ** rng.uniform(-1, 3.6),
                        10 ** rng.uniform(1, 3), float(rng.randrange(1, 3000))])
        arg = rng.choice([np.array, list, tuple])(nus)
        with vq.case('branches %s T %r' % (nus, T)):
            k = Kieffer(arg)
            order = rng.sample([0, 1, 2], 3)        # queries in any order, repeated
            got = {}
            for q in order + order[:1]:
                got[q] = float([k.helmholtz, k.entropy, k.heat_capacity][q](T))
            each = [triple(Kieffer(np.array([x])), T) for x in nus]
            vq.emit(nu=V.RL(nus), T=V.R(T), F=V.R(got[0]), S=V.R(got[1]), C=V.R(got[2]),
                    each=[V.RL(x) for x in each], rev=V.RL(triple(Kieffer(np.array(nus[::-1])), T)),
                    after=V.RL(arg))
    vq.validate('KiefferTrace')
    # acoustic option of a quasi-harmonic run (thermodynamic interpolation)
    from Q01 import crystal, units, model, conditions
    from Q02 import NAMES
    from quantas.qha.qha import QHACalculator
    for n in range(vq.pick(12, 200)):
        u = units(rng)
        ph0, pmax = crystal(rng, nv=7, nq=1)
        deg = rng.choice([2, 3, 4])
        tr, pr = conditions(rng, u[3], u[4], pmax, 3, 2)
        st = P.settings(tr, *u[:4], pr, u[4], 'td', 'poly', 'birchmurnaghan', deg, 3, kieffer=True)
        ph = ph0.to_units(*u[:3])
        g = rng.uniform(.5, 2)
        aco = np.array([[rng.uniform(20, 300) * P.FZ['cm^-1'] / P.FZ[u[1]] * (v / ph.V.mean()) ** -g for v in ph.V]
                        for _ in range(3)])
        with vq.case('acoustic run %d %s edeg %d T=%s P=%s' % (n, u, deg, tr, pr)):
            c = QHACalculator(st)
            err = c.read_input(ph.write(os.path.join(vq.scratch, 'k.yaml')))
            if err is not None:
                raise RuntimeError(err)
            c.input.acoustic_kieffer = aco.copy()
            import io, contextlib
            with contextlib.redirect_stdout(io.StringIO()):
                c.run()
            if not c.completed:
                raise RuntimeError('run failed: %s' % c.error)
            d = model({}, ph, st)
            d.update(aco=V.RM(aco), T=V.RL(c.temperature), P=V.RL(c.pressure),
                     res={x: V.RM(c.results[x]) for x in NAMES})
            vq.emit(ev='run', **d)
    vq.validate('QhaInterpTrace')


if __name__ == '__main__':
    V.main(check, 'K01')
