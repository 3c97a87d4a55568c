"""S05: wave analysis (spec/Seismic*.tla)."""
import math, os, sys, types
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V

FLAT = {'q', 'eigenval', 'phase_velocity', 'rel_phase_velocity', 'group_abs', 'rel_group_velocity', 'powerflow_angle', 'enhancement'}


def query(o, x):
    """(answered, encoded value)"""
    import numpy as np
    try:
        if x in ('solve', 'solve_group'):
            getattr(o, x)()
            return True, []
        if x == 'angles':
            if o.theta is None or o.phi is None:
                return False, []
            return True, V.RL([o.theta, o.phi])
        if x == 'isotropic':
            v = o.isotropic_velocity
            if list(v) != [o.iso_S, o.iso_S, o.iso_P]:
                return True, [[2, 0]] * 3
            return True, V.RL(v)
        if x == 'group_angles':
            return True, V.RM(np.array([o.group_theta, o.group_phi]).T)
        v = getattr(o, x)
    except Exception:
        return False, []
    if v is None:
        return False, []
    v = np.asarray(v, dtype=float)
    if v.ndim == 1:
        return True, V.RL(v)
    if v.ndim == 2:
        return True, V.RM(v)
    return True, [V.RM(m) for m in v]


def check(vq):
    import numpy as np
    import elastic
    from quantas.seismic.utils.seismic_obj import Seismic
    rng = vq.rng
    conf = 'SPECIFICATION Spec\nCONSTANTS\nObjects = {%s}\nDirections = {1, 2%s}\nDepth = %d\nINVARIANT Fresh\nINVARIANT Answered\n%sCHECK_DEADLOCK FALSE\n'
    vq.check_design('SeismicDesign', conf % ('1, 2', ', 3', vq.pick(4, 5), 'VIEW View\n'), 'SeismicDesign caches', workers=8)
    pairs = vq.scenarios('SeismicDesign', conf % ('1', '', 4, 'CONSTRAINT Alternating\nINVARIANT EmitPairs\n'), 'SeismicDesign pairs')
    walks = vq.scenarios('SeismicDesign', conf % ('1, 2, 3', ', 3', 14, 'INVARIANT Emit\n'), 'SeismicDesign walks', simulate=('num=%d' % vq.pick(60, 300), 16))
    walks.sort(key=str)
    rng.shuffle(walks)
    walks = walks[:vq.pick(350, 4000)]
    pairs.sort(key=str)
    rng.shuffle(pairs)
    kinds = elastic.KINDS + ['isotropic', 'random', 'turned', 'turned', 'soft', 'triclinic', 'monoclinic']

    def direction():
        if rng.random() < .22:
            v = [rng.choice([-1., 0., 1.]) for _ in range(3)]
            v = v if any(v) else [0., 0., 1.]
            if rng.random() < .4:
                # close to a direction where velocities coincide in symmetric crystals
                d = 10. ** rng.uniform(-2.2, -.7)
                return [x + d * rng.gauss(0, 1) for x in v]
            return [x * rng.choice([1., 2.5]) for x in v]
        return [rng.gauss(0, 1) * rng.choice([1., 10.]) for _ in range(3)]

    def spherical(v):
        r = math.sqrt(sum(x * x for x in v))
        t, p = math.acos(max(-1., min(1., v[2] / r))), math.atan2(v[1], v[0])
        if rng.random() < .2:
            p += 2 * math.pi
        return t, p
    for n, sc in enumerate(walks + pairs[:vq.pick(600, len(pairs))]):
        nobj = max(s['obj'] for s in sc)
        ks = [rng.choice(kinds) for _ in range(nobj)]
        cs = [elastic.matrix(rng, k) for k in ks]
        rhos = [rng.uniform(800, 9000) for _ in ks]
        dirs = {d: direction() for d in (1, 2, 3)}
        with vq.case('history %s of %s' % (' '.join('%d:%s%s' % (s['obj'], s['op'], s['dir'] or '') for s in sc), ks)):
            objs = [Seismic(c.copy(), r) for c, r in zip(cs, rhos)]
            steps = []
            for s in sc:
                o = objs[s['obj'] - 1]
                if s['op'] == 'spherical':
                    t, p = spherical(dirs[s['dir']])
                    o.spherical_direction(t, p)
                    steps.append(dict(obj=s['obj'], op=s['op'], t=V.R(t), p=V.R(p)))
                elif s['op'] == 'cartesian':
                    v = np.array(dirs[s['dir']])
                    o.cartesian_direction(v)
                    if list(v) != dirs[s['dir']]:
                        raise RuntimeError('the vector of the caller was modified')
                    steps.append(dict(obj=s['obj'], op=s['op'], v=V.RL(v)))
                elif s['op'] == 'clear':
                    o.clear()
                    steps.append(dict(obj=s['obj'], op=s['op']))
                else:
                    ok, r = query(o, s['op'])
                    steps.append(dict(obj=s['obj'], op=s['op'], ok=ok, r=r))
            vq.emit(kind='history', C=[V.RM(c) for c in cs], rho=V.RL(rhos), steps=steps)
    # the calculator; its plotting base class is not part of the package
    if 'quantas.core.plotter' not in sys.modules:
        try:
            import quantas.core.plotter
        except ImportError:
            m = types.ModuleType('quantas.core.plotter')
            m.BasicPlotter = type('BasicPlotter', (object,), {})
            sys.modules['quantas.core.plotter'] = m
    from quantas.seismic.seismic import SeismicCalculator
    import h5py
    for n in range(vq.pick(10, 60)):
        k = rng.choice(kinds)
        c = elastic.matrix(rng, k)
        rho = rng.uniform(800, 9000)
        nt, np_ = rng.choice([2, 3, 5, 8]), rng.choice([2, 4, 7, 13])
        path = os.path.join(vq.scratch, 's05.dat')
        elastic.write(path, 'crystal', c, rho)
        with vq.case('calculator %s ntheta=%d nphi=%d' % (k, nt, np_)):
            calc = SeismicCalculator(dict(silent=True, debug=False, logfile=None, ntheta=nt, nphi=np_, pressure_unit='GPa', plotting=False))
            err = calc.read_input(path)
            if err is not None:
                raise RuntimeError(err)
            with open(os.devnull, 'w') as f:
                out, sys.stdout = sys.stdout, f
                try:
                    calc.run()
                finally:
                    sys.stdout = out
            h5 = os.path.join(vq.scratch, 's05.hdf5')
            calc.export_hdf5(h5)
            with h5py.File(h5, 'r') as f:
                rows = [np.array(f[x]) for x in ('ssecondary', 'fsecondary', 'primary')]
            total = len(rows[0])
            for a in range(0, total, 12):
                vq.emit(kind='rows', C=[V.RM(c)], rho=V.RL([rho]), ntheta=nt, nphi=np_, total=total, first=a + 1, rows=[V.RM(r[a:a + 12]) for r in rows])
    vq.validate('SeismicTrace')


if __name__ == '__main__':
    V.main(check, 'S05')
