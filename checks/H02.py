"""H02: restatements of a harmonic input and the result file
(spec/Restate.tla, spec/HarmonicTrace.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V
import phonon as P
from H01 import run_ha, describe, PROPS


def check(vq):
    import h5py
    import numpy as np
    rng = vq.rng
    NQ, NB, NV = 3, 3, 3
    sc = vq.scenarios('Restate', 'SPECIFICATION Spec\nCONSTANTS NQ = 3 NB = 3 NV = 3 MaxSteps = %d\n'
                      'INVARIANT WellFormed\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % vq.pick(3, 4))
    rng.shuffle(sc)
    must = [s for s in sc if s['n'] <= 1]
    sc = must + [s for s in sc if s['n'] > 1][:vq.pick(260, 3500)]
    # one full product of unit settings on top
    units = [dict(qs=[1, 2, 3], bs=[[1, 2, 3]] * 3, vs=[1, 2, 3], wf=4, eu=e, fu=f, vu=v, tu=t)
             for e in ('Ha', 'eV', 'Ry') for f in ('cm^-1', 'THz', 'Hz')
             for v in ('A', 'bohr') for t in ('K', 'C')]
    groups = [units + sc[i::4] for i in range(4)]
    for g, group in enumerate(groups):
        base = P.random_phonons(rng, nv=NV, nq=NQ, natom=1, wild=(g % 2 == 0), job='restated %d' % g)
        base.w = np.array([2., 5., 10.])
        lo, st, n = rng.choice([(0., 310.5, 4), (10., 7.25, 5), (295., 1., 3), (0., 55.5, 2)])
        tr = {'K': (lo, lo + st * (n - 1), st)}
        tr['C'] = (lo - 273.15, lo + st * (n - 1) - 273.15, st)
        cb = None
        with vq.case('base %d' % g):
            stb = P.settings(tr['K'])
            cb = run_ha(vq, base, stb)
            db = describe(cb, base, stb)
        if cb is None:
            continue
        for k, s in enumerate(group):
            alt = base.copy()
            q = [i - 1 for i in s['qs']]
            v = [i - 1 for i in s['vs']]
            nu = np.array([[[base.nu[qi, b - 1, vi] for vi in v] for b in s['bs'][qi]] for qi in q])
            alt.nu, alt.w = nu, base.w[q] * (s['wf'] / 4.)
            alt.V, alt.E = base.V[v], base.E[v]
            alt = alt.to_units(s['eu'], s['fu'], s['vu'])
            st = P.settings(tr[s['tu']], s['eu'], s['fu'], s['vu'], s['tu'])
            with vq.case('restate %d %s' % (g, {x: s[x] for x in ('qs', 'bs', 'vs', 'wf', 'eu', 'fu', 'vu', 'tu')})):
                c = run_ha(vq, alt, st)
                da = describe(c, alt, st)
                small = ('eu', 'vu', 'tu', 'T', 'V', 'U0', 'res')
                vq.emit(ev='restated', base={x: db[x] for x in small}, alt={x: da[x] for x in small},
                        vm=s['vs'])
                if k % 3 == 0:
                    out = os.path.join(vq.scratch, 'ha.hdf5')
                    c.export_hdf5(out)
                    f = {}
                    with h5py.File(out, 'r') as h:
                        for name in h:
                            val = h[name][()]
                            u = h[name].attrs.get('unit', '')
                            u = u.decode() if isinstance(u, bytes) else str(u)
                            f[name] = dict(unit=u, value=V.RL(val) if val.ndim == 1 else V.RM(val))
                    vq.emit(ev='file', eu=s['eu'], vu=s['vu'], tu=s['tu'], T=da['T'], V=da['V'],
                            U0=da['U0'], res=da['res'], file=f)
    vq.validate('HarmonicTrace')


if __name__ == '__main__':
    V.main(check, 'H02')
