"""E02: equation-of-state fits (sequences of requests from spec/EosFitDesign.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V
from E01 import equation, params


def dataset(rng, r, noise):
    """(volumes, pressures, sigma V, sigma P, true parameters in force)"""
    import numpy as np
    f, lin = r['f'], r['axis']
    p = params(rng, f, lin)
    # moderate derivatives: every parameter is determined by the data
    p[1] = rng.uniform(3., 6.) * (3 if lin else 1)
    p[2] = -rng.uniform(.3, 1.2) * p[1] / p[0] * (3 if lin else 1)
    if f == 'T':
        p[2] = -rng.uniform(.5, .9) * p[1] / p[0]
    q = np.array(p)
    n = rng.choice([7, 9, 12, 15])
    span = rng.uniform(.10, .18) / (3 if lin else 1)
    x = [1. - span * (k + (rng.uniform(-.2, .2) if k else 0.)) / (n - 1) for k in range(n)]
    v = np.array([p[3] * t for t in x])
    e = equation(f)
    P = np.array(e.eos(q, v, r['order'], lin, True))
    sP = np.array([p[0] * rng.uniform(2e-4, 1e-3) for _ in range(n)])
    sV = np.array([p[3] * rng.uniform(2e-5, 2e-4) for _ in range(n)])
    if noise:
        P = P + np.array([s * rng.gauss(0, 1) for s in sP])
        v = v + np.array([s * rng.gauss(0, 1) for s in sV])
    return v, P, sV, sP, q


def perform(r, data, start, how, inst=None):
    e = inst or equation(r['f'])
    v, P, sV, sP, q = data
    kw = dict(order=r['order'], linear=r['axis'], fixed=list(r['fixed']),
              sigmaV=sV if 'V' in r['w'] else None, sigmaP=sP if 'P' in r['w'] else None)
    if start is not None:
        kw['guess'] = start
    if how == 'default' and r['fixed'] == [1, 1, 1, 1]:
        del kw['fixed']
    return e, kw, e.fit(v, P, **kw)


def check(vq):
    import numpy as np
    sc = vq.scenarios('EosFitDesign', 'SPECIFICATION Spec\nCONSTANT MaxLen = 2\nINVARIANT Partition\nINVARIANT NoMemory\n'
                      'INVARIANT Emit\nCHECK_DEADLOCK FALSE\n')
    rng = vq.rng
    sc.sort(key=lambda s: str(s))
    rng.shuffle(sc)
    if vq.tier == 'quick':
        sc = sc[:420]
    else:
        sc = sc * 6
    k = 0
    while k < len(sc):
        seq = sc[k:k + rng.choice([1, 2, 3])]
        k += len(seq)
        insts, records = {}, []
        for s in seq:
            r = s['r']
            r = dict(r, fixed=list(r['fixed']))
            r['fixed'] = list(r['fixed'])
            noise = rng.random() < .7
            with vq.case('fit %s noise=%s' % (r, noise)):
                data = dataset(rng, r, noise)
                v, P, sV, sP, q = data
                inst = insts.setdefault(r['f'], equation(r['f']))
                g = inst.guess(v, P)
                if not noise and not r['axis'] and r['order'] == 3:
                    vq.emit(ev='guess', g=V.RL(g), p=V.RL(q))
                start = None
                if r['start'] == 'given':
                    start = [q[0] * rng.uniform(.8, 1.2), q[1] * rng.uniform(.8, 1.2), q[2] * rng.uniform(.8, 1.2),
                             q[3] * rng.uniform(.997, 1.003)]
                    if r['f'] == 'T' and r['order'] == 4:
                        start = [x * rng.uniform(.99, 1.01) for x in q]
                    if rng.random() < .5:
                        start = np.array(start)
                first = list(g if start is None else start)
                before = [np.array(a).copy() for a in (v, P, sV, sP, first)]
                e, kw, out = perform(r, data, start, rng.choice(['default', 'explicit']), inst)
                beta = np.array(out.beta)
                same = all(np.array_equal(a, b) for a, b in zip(before[:4], (v, P, sV, sP)))
                if start is not None:
                    same = same and np.array_equal(before[4], np.array(start))
                same = same and kw.get('fixed', r['fixed']) == r['fixed']
                ev = dict(ev='fit', f=r['f'], order=r['order'], linear=r['axis'], fixed=r['fixed'], V=V.RL(v), P=V.RL(P),
                          start=V.RL(before[4]), beta=V.RL(beta), delta=V.RL(out.delta), y=V.RL(out.y),
                          conv=out.info % 10 in (1, 2, 3) and out.info < 1000, untouched=same, given=start is not None,
                          finite=bool(np.all(np.isfinite(out.y)) and np.all(np.isfinite(beta))),
                          easy=r['order'] < 4 or (not noise and r['start'] == 'given'))
                if 'V' in r['w']:
                    ev['sV'] = V.RL(sV)
                if 'P' in r['w']:
                    ev['sP'] = V.RL(sP)
                if not noise and r['order'] < 4 and all(r['fixed'][j] or (j in (1, 2) and r['order'] == 2) or j == 2
                                                        for j in range(4)):
                    ev['true'] = V.RL(q)
                vq.emit(**ev)
                records.append((r, data, None if start is None else list(before[4]), beta))
        # the same requests again, in another order, on fresh objects
        rng.shuffle(records)
        for r, data, start, beta in records:
            with vq.case('again %s' % r):
                _, _, out = perform(r, data, start, 'explicit')
                vq.emit(ev='again', a=V.RL(beta), b=V.RL(out.beta))
    vq.validate('EosFitTrace')


if __name__ == '__main__':
    V.main(check, 'E02')
