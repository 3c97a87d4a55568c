"""E01: equation-of-state formulations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vq as V
import phonon as P

CODE = {'M': 'Murnaghan', 'BM': 'BirchMurnaghan', 'NS': 'NaturalStrain', 'V': 'Vinet', 'T': 'Tait'}
ORDERS = {'M': [3], 'BM': [2, 3, 4], 'NS': [2, 3, 4], 'V': [2, 3], 'T': [2, 3, 4]}
TAGS = {'M': 'murnaghan', 'BM': 'birchmurnaghan', 'V': 'vinet', 'NS': 'pouriertarantola'}


def params(rng, f, linear=False):
    """physical parameters K0, K', K'', V0 and a range of V/V0"""
    s = 3. if linear else 1.
    K = 10. ** rng.uniform(.5, 2.8) * s
    Kp = rng.uniform(1.6, 8.) * s
    kk = -rng.uniform(0., .8 * (1 + Kp)) if f == 'T' else -rng.uniform(0., 15.) * s * s
    if rng.random() < .15:
        kk = rng.uniform(0., .4)
    V0 = rng.uniform(2.5, 25.) if linear else 10. ** rng.uniform(.8, 3.2)
    return [K, Kp, kk / K, V0]


def equation(f):
    from quantas.eosfit.utils import pv_eos
    return getattr(pv_eos, CODE[f])()


def energy(f, v, E0, K, Kp, V0):
    from math import exp, log
    if f == 'M':
        return E0 + K * v / Kp * ((V0 / v) ** Kp / (Kp - 1) + 1) - V0 * K / (Kp - 1)
    if f == 'BM':
        x = (V0 / v) ** (2 / 3.) - 1
        return E0 + 9 / 16. * K * V0 * (Kp * x ** 3 + x * x * (2 - 4 * x))
    if f == 'NS':
        r = log(V0 / v)
        return E0 + K * V0 * r * r / 6 * (3 + r * (Kp - 2))
    y = 1.5 * (Kp - 1) * ((v / V0) ** (1 / 3.) - 1)
    return E0 + 4 * K * V0 / (Kp - 1) ** 2 * (1 - (1 + y) * exp(-y))


def report(vq, rng, f, mini):
    """pressures and parameters of the static energy in the report of a quasi-harmonic run"""
    import io, re, contextlib
    from quantas.qha.qha import QHACalculator
    eu, vu, pu = rng.choice(['Ha', 'eV', 'Ry']), rng.choice(['A', 'bohr']), rng.choice(['GPa', 'kbar'])
    kdens = 10. ** rng.uniform(-2.6, -.3) * {'Ha': 1., 'eV': 27.2, 'Ry': 2.}[eu] * (1. if vu == 'A' else .148)
    Kp, v0 = rng.uniform(2.6, 6.), 10. ** rng.uniform(1.3, 2.8)
    E0 = -kdens * v0 * rng.uniform(1., 40.)
    nv = rng.choice([7, 9, 11, 14])
    vol = [v0 * (.86 + .2 * (k + rng.uniform(-.2, .2)) / (nv - 1)) for k in range(nv)]
    ph = P.Phonons('report', 1, vol, [energy(f, v, E0, kdens, Kp, v0) for v in vol], [1.],
                   [[[300. + 40. * b] * nv for b in range(3)]], eu=eu, fu='cm^-1', vu=vu)
    st = P.settings((0., 100., 50.), eu, 'cm^-1', vu, 'K', (0., 1., 1.), pu, 'td', mini, TAGS[f], 3, 1)
    st['silent'] = False
    c = QHACalculator(st)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        err = c.read_input(ph.write(os.path.join(vq.scratch, 'e01.yaml')))
        if err is not None:
            raise RuntimeError('input rejected: %s' % err)
        c.report_input_data()
    txt = out.getvalue()
    rows = re.findall(r'^ +(-?[\d.]+|nan) +([\d.]+) +(-?[\d.]+e[+-]\d+)\s*$', txt, re.M)
    pars = re.findall(r"^(E0|K0|K'|V0) = (\S+?)\(", txt, re.M)
    vq.emit(ev='report', f=f, mini=mini, eu=eu.lower(), vu=vu.lower(), pu=pu.lower(), p=V.RL([E0, kdens, Kp, v0]),
            V=V.RL(vol), P=V.RL([float(r[0]) for r in rows]), pars=V.RL([float(x[1]) for x in pars]))


def check(vq):
    import numpy as np
    vq.check_design('EosDesign', 'SPECIFICATION Spec\nCONSTANTS Ks = {%s}\nKps = {%s}\nKpps = {%s}\nV0s = {%s}\n'
                    'Ratios = {60, 80, 95, 100, 105}\nINVARIANT Reference\nINVARIANT Sign\nINVARIANT Energy\n'
                    'INVARIANT TaitMurnaghan\nCHECK_DEADLOCK FALSE\n' %
                    vq.pick(('5, 160', '28, 45', '0, 40', '12, 747'),
                            ('5, 40, 160, 442', '18, 28, 45, 71', '0, 13, 40, 110', '12, 747')), workers=8)
    rng = vq.rng
    combos = [(f, o) for f in CODE for o in ORDERS[f]]
    for rep in range(vq.pick(12, 150)):
        for f, o in combos:
            for linear in (False, True):
                p = params(rng, f, linear)
                span = (.85, 1.04) if linear else (.62, 1.12)
                v = [p[3] * rng.uniform(*span) for _ in range(5)] + [p[3]]
                dofit = rng.random() < .7
                if not dofit and f == 'V' and rng.random() < .5:
                    p[2] = 0.
                e = equation(f)
                box = rng.choice([list, np.array])
                with vq.case('pv %s%d linear=%s dofit=%s p=%s' % (f, o, linear, dofit, p)):
                    pr = e.eos(box(p), np.array(v), o, linear, dofit)
                    p0 = e.eos(box(p), p[3], o, linear, dofit)
                    vq.emit(ev='pv', f=f, order=o, linear=linear, dofit=dofit, p=V.RL(p), V=V.RL(v), P=V.RL(pr), P0=V.R(p0))
        from quantas.qha.utils.ev_eos import EnergyEOS
        for f in TAGS:
            K, Kp, _, v0 = params(rng, f)
            K, E0 = K / 160., rng.uniform(-2000., 10.)
            v = [v0 * rng.uniform(.75, 1.15) for _ in range(6)]
            ev = EnergyEOS()
            with vq.case('ev %s %s' % (f, (E0, K, Kp, v0))):
                fun = getattr(ev, TAGS[f])
                en = fun(np.array(v), E0, K, Kp, v0)
                pr = ev.pressure(TAGS[f], np.array([E0, K, Kp, v0]), np.array(v))
                vq.emit(ev='ev', f=f, p=V.RL([E0, K, Kp, v0]), V=V.RL(v), E=V.RL(en), Eref=V.R(fun(v0, E0, K, Kp, v0)),
                        P=V.RL(pr))
        for f in ('BM', 'NS', 'V'):
            o = rng.choice(ORDERS[f])
            p = params(rng, f)
            v = sorted([p[3] * rng.uniform(.7, .995) for _ in range(6)], reverse=True)
            e = equation(f)
            q = np.array(p)
            pr = np.array(e.eos(q, np.array(v), o, False, True))      # q now holds the parameters in force
            with vq.case('normalised %s%d %s' % (f, o, p)):
                fc, Fc, fo, Fo, _, _ = e.normalize(q.copy(), np.array(v), pr, order=o)
                vq.emit(ev='norm', f=f, p=V.RL(q), V=V.RL(v), P=V.RL(pr), fc=V.RL(fc), Fc=V.RL(Fc), fo=V.RL(fo), Fo=V.RL(Fo))
    for rep in range(vq.pick(4, 60)):
        for f in TAGS:
            with vq.case('report %d %s' % (rep, f)):
                report(vq, rng, f, 'eos')
            with vq.case('report poly %d %s' % (rep, f)):
                report(vq, rng, f, 'poly')
    vq.validate('EosTrace')


if __name__ == '__main__':
    V.main(check, 'E01')
