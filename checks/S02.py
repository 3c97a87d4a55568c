"""S02: directional elastic properties and their extremes (spec/Elastic.tla)."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V


def perp(n):
    """two unit vectors perpendicular to the rows of n"""
    import numpy as np
    t = np.where(abs(n[:, 2:3]) < .9, np.array([[0., 0., 1.]]), np.array([[1., 0., 0.]]))
    a = np.cross(n, t)
    a /= np.linalg.norm(a, axis=1)[:, None]
    return a, np.cross(n, a)


def stress(n):
    import numpy as np
    return np.stack([n[:, 0] ** 2, n[:, 1] ** 2, n[:, 2] ** 2, n[:, 1] * n[:, 2], n[:, 0] * n[:, 2], n[:, 0] * n[:, 1]], 1)


def fields(c, rho, n):
    """values and extremal transverse directions (only to find witnesses)"""
    import numpy as np
    s = np.linalg.inv(c)
    v = stress(n)
    iy = np.einsum('ki,ij,kj->k', v, s, v)
    out = {'E': (1 / iy, 1 / iy, None, None)}
    lc = 1000 * v @ s[:, :3].sum(1)
    out['LC'] = (lc, lc, None, None)
    a, b = perp(n)

    def ext(f):
        f0, f9, f4 = f(a), f(b), f((a + b) / math.sqrt(2))
        av, x, y = (f0 + f9) / 2, (f0 - f9) / 2, f4 - (f0 + f9) / 2
        chi = .5 * np.arctan2(y, x)
        hi = np.cos(chi)[:, None] * a + np.sin(chi)[:, None] * b
        lo = -np.sin(chi)[:, None] * a + np.cos(chi)[:, None] * b
        r = np.hypot(x, y)
        return av - r, av + r, lo, hi

    def ishear(m):
        u = np.stack([n[:, 0] * m[:, 0], n[:, 1] * m[:, 1], n[:, 2] * m[:, 2], (n[:, 1] * m[:, 2] + n[:, 2] * m[:, 1]) / 2,
                      (n[:, 0] * m[:, 2] + n[:, 2] * m[:, 0]) / 2, (n[:, 0] * m[:, 1] + n[:, 1] * m[:, 0]) / 2], 1)
        return 4 * np.einsum('ki,ij,kj->k', u, s, u)
    lo, hi, ml, mh = ext(ishear)
    out['G'] = (1 / hi, 1 / lo, mh, ml)
    lo, hi, ml, mh = ext(lambda m: -np.einsum('ki,ij,kj->k', v, s, stress(m)) / iy)
    out['Nu'] = (lo, hi, ml, mh)
    if rho:
        z = np.zeros(len(n))
        x, y, w = n.T
        d = np.stack([np.stack([x, z, z, z, w, y], 1), np.stack([z, y, z, w, z, x], 1), np.stack([z, z, w, y, x, z], 1)], 1)
        e = np.linalg.eigvalsh(np.einsum('kai,ij,kbj->kab', d, c, d))
        for k, q in enumerate(('V_s1', 'V_s2', 'V_p')):
            u = np.sqrt(np.maximum(e[:, k], 0) * 1000 / rho)
            out[q] = (u, u, None, None)
    return out


def witnesses(rng, c, rho, count=20000):
    """property -> directions of (nearly) extremal value plus a few others"""
    import numpy as np
    g = np.random.RandomState(rng.randrange(2 ** 31))
    n = g.normal(size=(count, 3))
    n /= np.linalg.norm(n, axis=1)[:, None]
    special = np.array([[i, j, k] for i in (-1, 0, 1) for j in (-1, 0, 1) for k in (-1, 0, 1) if (i, j, k) > (0, 0, 0)], dtype=float)
    n[:len(special)] = special / np.linalg.norm(special, axis=1)[:, None]
    f = fields(c, rho, n)
    res = {}
    for q in f:
        w = []
        for side in (0, 1):
            best = n[np.argmin(f[q][0]) if side == 0 else np.argmax(f[q][1])]
            size = .05
            for _ in range(5):
                t = best + size * g.normal(size=(300, 3))
                t /= np.linalg.norm(t, axis=1)[:, None]
                t = np.vstack([best[None, :], t])
                h = fields(c, rho, t)[q]
                k = np.argmin(h[0]) if side == 0 else np.argmax(h[1])
                best = t[k]
                m = h[2 + side][k] if h[2] is not None else None
                size /= 8
            w.append((best, m))
        k = rng.randrange(count)
        w.append((n[k], f[q][2][k] if f[q][2] is not None else None))
        k = rng.randrange(len(special))
        w.append((n[k], perp(n[k:k + 1])[0][0] if f[q][2] is not None else None))
        res[q] = w
    return res


def check(vq):
    import numpy as np
    import elastic
    from S01 import design
    from R02 import calculator
    rng = vq.rng
    design(vq)
    kinds = elastic.KINDS + ['orthorhombic', 'orthorhombic', 'isotropic', 'random', 'turned', 'soft', 'auxetic']
    for n in range(vq.pick(120, 1200)):
        k = rng.choice(kinds)
        c = elastic.matrix(rng, k, rng.choice([.5, 3.]))
        rho = rng.choice([0., rng.uniform(800, 9000)])
        path = os.path.join(vq.scratch, 's02.dat')
        elastic.write(path, 'title', c, rho)
        with vq.case('directions %s %r rho=%r' % (k, c.tolist(), rho)):
            calc = calculator()
            err = calc.read_input(path)
            if err is not None:
                raise RuntimeError(err)
            o = calc.soec
            t0, p0, x0 = rng.uniform(0, math.pi), rng.uniform(0, 2 * math.pi), rng.uniform(0, 2 * math.pi)
            for t, p, x in ((t0, p0, x0), (math.pi - t0, p0 + math.pi, -x0), (t0, p0, x0 + math.pi),
                            (rng.choice([0., math.pi / 2, math.pi]), rng.choice([0., math.pi / 2, math.pi, 5.]), rng.choice([0., math.pi / 2, 1.])),
                            (rng.uniform(0, 3), rng.choice([0., math.pi / 4, math.pi / 2]), rng.uniform(0, 3))):
                w = dict(V=[], V1=[])
                if rho:
                    w = dict(V=V.RL(o.phase_velocity([t, p])), V1=V.RL([o.shear_wave_1([t, p]), o.shear_wave_2([t, p]), o.longitudinal_wave([t, p])]))
                vq.emit(kind='dir', C=V.RM(c), rho=V.R(rho), t=V.R(t), p=V.R(p), x=V.R(x), E=V.R(o.young_modulus([t, p])),
                        LC=V.R(o.linear_compressibility([t, p])), G=V.R(o.shear_modulus([t, p, x])), Nu=V.R(o.poisson_ratio([t, p, x])), **w)
    jobs, info = [], []
    for n in range(vq.pick(64, 500)):
        k = rng.choice(kinds)
        c = elastic.matrix(rng, k, rng.choice([1., 3.]))
        rho = rng.choice([0., rng.uniform(800, 9000), rng.uniform(800, 9000)])
        path = os.path.join(vq.scratch, 's02_%d.dat' % n)
        elastic.write(path, rng.choice(elastic.TITLES), c, rho)
        jobs.append((path, False))
        info.append((k, c, rho))
    for n, r in elastic.runs(jobs):
        k, c, rho = info[n]
        with vq.case('extremes %s %r rho=%r' % (k, c.tolist(), rho)):
            if 'crash' in r:
                raise RuntimeError(r['crash'])
            if not r['completed']:
                raise RuntimeError('the analysis of a stable crystal was not completed: ' + r['error'])
            ext = elastic.extremes(elastic.parse(r['log'])['tables'])
            want = ['E', 'LC', 'G', 'Nu'] + (['V_s1', 'V_s2', 'V_p'] if rho else [])
            if sorted(ext) != sorted(want):
                raise RuntimeError('properties reported: %r' % sorted(ext))
            wit = witnesses(rng, c, rho)
            for q in want:
                d = ext[q]
                vq.emit(kind='ext', C=V.RM(c), rho=V.R(rho), q=q, min=V.R(d['min']), max=V.R(d['max']), aniso=V.R(d['aniso']),
                        inf=d['aniso'] == math.inf, n=V.RM(d['n']), m=V.RM(d['m'] or []),
                        wit=[dict(n=V.RL(a), m=V.RL(b) if b is not None else []) for a, b in wit[q]])
    vq.validate('SoecDirectionsTrace')


if __name__ == '__main__':
    V.main(check, 'S02')
