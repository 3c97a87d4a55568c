"""S04: polar sections of the elastic properties (spec/Elastic.tla, SoecPolarTrace.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V


def check(vq):
    import elastic
    from S01 import design
    rng = vq.rng
    design(vq)
    kinds = elastic.KINDS + ['orthorhombic', 'isotropic', 'random', 'turned', 'soft', 'auxetic', 'auxetic']
    jobs, info = [], []
    for n in range(vq.pick(32, 160)):
        k = rng.choice(kinds)
        c = elastic.matrix(rng, k, rng.choice([.5, 3.]))
        rho = rng.choice([0., rng.uniform(800, 9000), rng.uniform(800, 9000)])
        path = os.path.join(vq.scratch, 's04_%d.dat' % n)
        elastic.write(path, rng.choice(elastic.TITLES), c, rho)
        polar = rng.random() < .85
        jobs.append((path, polar))
        info.append((k, c, rho, polar))
    for n, r in elastic.runs(jobs, limit=200):
        k, c, rho, polar = info[n]
        with vq.case('run %s %r rho=%r polar=%s' % (k, c.tolist(), rho, polar)):
            if 'crash' in r:
                raise RuntimeError(r['crash'])
            if not r['completed']:
                raise RuntimeError('not completed: ' + r['error'])
            names = sorted(x for x in r['h5'] if 'polar' in x)
            vq.emit(kind='file', polar=polar, density=rho > 0, names=names, units={x: r['units'][x] for x in names} or dict(none=''),
                    size=[len(r['h5'][x]) for x in names])
            every = n < vq.pick(3, 30)
            for x in names:
                a = r['h5'][x]
                q, plane = x.split('_')[1:3]
                ks = list(range(len(a))) if every else sorted(set([0, len(a) - 1] + [rng.randrange(len(a)) for _ in range(25)]))
                for j in range(0, len(ks), 30):
                    kk = ks[j:j + 30]
                    vq.emit(kind='rows', C=V.RM(c), rho=V.R(rho), q=q, plane=plane, n=len(a), k=kk, rows=V.RM(a[kk]))
    vq.validate('SoecPolarTrace')


if __name__ == '__main__':
    V.main(check, 'S04')
