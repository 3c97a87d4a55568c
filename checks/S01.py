"""S01: averages, compliance and mechanical stability (spec/Elastic.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V

INVS = 'Tensors Covariant Transverse Ordered Unstable Isotropic Orthogonal'


def design(vq):
    vq.check_design('ElasticDesign', 'SPECIFICATION Spec\nCONSTANT Depth = %d\n' % vq.pick(2, 3) +
                    ''.join('INVARIANT %s\n' % i for i in INVS.split()) + 'CHECK_DEADLOCK FALSE\n', workers=8)


def check(vq):
    import numpy as np
    import elastic
    from quantas.soec.utils.soec_obj import SOEC
    rng = vq.rng
    design(vq)
    kinds = elastic.KINDS + ['isotropic', 'random', 'turned', 'soft', 'auxetic']
    for n in range(vq.pick(250, 2500)):
        k = rng.choice(kinds + ['unstable', 'unstable'])
        c = elastic.unstable(rng) if k == 'unstable' else elastic.matrix(rng, k, .02 if rng.random() < .2 else 3.)
        rho = rng.choice([0., rng.uniform(800, 9000), 3178.2])
        with vq.case('object %s %r rho=%r' % (k, c.tolist(), rho)):
            o = SOEC(c.copy(), rho)
            first = o.averages() if rng.random() < .3 else None
            vel = [] if (rho == 0. or k == 'unstable') else list(o.isotropic_velocities())
            avg = [list(r) for r in o.averages()]
            if first is not None and [list(r) for r in first] != avg:
                raise RuntimeError('a second call returns other averages')
            vq.emit(kind='object', C=V.RM(c), rho=V.R(rho), S=V.RM(o.compliance), avg=V.RM(avg), vel=V.RL(vel), C2=V.RM(o.stiffness))
    # full runs
    jobs, info = [], []
    for n in range(vq.pick(48, 300)):
        k = rng.choice(kinds) if n % 2 else 'unstable'
        c = elastic.unstable(rng) if k == 'unstable' else elastic.matrix(rng, k, rng.choice([.02, 3.]))
        rho = rng.choice([0., rng.uniform(800, 9000)])
        path = os.path.join(vq.scratch, 's01_%d.dat' % n)
        elastic.write(path, rng.choice(elastic.TITLES), c, rho)
        jobs.append((path, False))
        info.append((k, c, rho))
    for n, r in elastic.runs(jobs):
        k, c, rho = info[n]
        with vq.case('run %s %r rho=%r' % (k, c.tolist(), rho)):
            if 'crash' in r:
                raise RuntimeError(r['crash'])
            p = elastic.parse(r['log'])
            err = r['error'].lower()
            h5 = {x: (V.RL(r['h5'][x]) if x == 'eigenvals' else V.RM(r['h5'][x])) for x in ('stiffness', 'compliance', 'averages', 'eigenvals')
                  if x in r['h5']} if r['completed'] else dict(none=0)
            vq.emit(kind='run', C=V.RM(c), rho=V.R(rho), avg=V.RM([p['averages'].get(x, []) for x in ('Voigt', 'Reuss', 'Hill')]),
                    S=V.RM(p['compliance']), C2=V.RM(p['stiffness']), eig=V.RL(p['eig']), vel=V.RL(p['vel'] or []),
                    completed=r['completed'], analysed=p['analysed'], unstable='unstable' in err or 'positive' in err,
                    h5=h5, units=r['units'] or dict(none=''))
    vq.validate('SoecAveragesTrace')


if __name__ == '__main__':
    V.main(check, 'S01')
