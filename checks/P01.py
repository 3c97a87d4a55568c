"""P01: what a run reports (spec/Report*.tla)."""
import os, re, sys, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vq as V
import cli
import elastic
import reports
import phonon as P
import quantas_inputs as QI
from E03 import datafile

FORM = {'M': 'murnaghan', 'BM': 'birchmurnaghan', 'V': 'vinet', 'PT': 'pouriertarantola'}
SIG = {'p': 'pressure', 'v': 'volume', 'a': 'a-axis', 'b': 'b-axis', 'c': 'c-axis'}
JOBS = ['model solid', 'Mg2SiO4 forsterite (PBE)', 'run-7', 'x', 'hydroxylapatite, P63']
SUPS = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 0, 0], [0, 2, 0], [0, 0, 1]], [[-1, 1, 1], [1, -1, 1], [1, 1, -1]],
        [[2, 1, 0], [0, 1, 0], [0, 0, 3]], [[0, 1, 0], [1, 0, 0], [0, 0, 2]], [[1, 0, 0], [0, -2, 0], [0, 0, 2]]]


def subsequence(small, big):
    it = iter(big)
    return all(any(x == y for y in it) for x in small)


def nonblank(text):
    return [x.rstrip() for x in text.splitlines() if x.strip()]


def energies(form, K, Kp, V0, V, E0):
    """energy-volume curves (the specification has its own)"""
    import numpy as np
    if form == 'M':
        return E0 + K * V / Kp * ((V0 / V) ** Kp / (Kp - 1) + 1) - K * V0 / (Kp - 1)
    if form == 'BM':
        x = (V0 / V) ** (2. / 3) - 1
        return E0 + 9. / 16 * K * V0 * (Kp * x ** 3 + x ** 2 * (2 - 4 * x))
    if form == 'PT':
        r = np.log(V0 / V)
        return E0 + K * V0 * r ** 2 / 6 * (3 + r * (Kp - 2))
    x = (V / V0) ** (1. / 3)
    y = 1.5 * (Kp - 1) * (x - 1)
    return E0 + 4 * K * V0 / (Kp - 1) ** 2 * (1 - (1 + y) * np.exp(-y))


def noisy(rng, form, V, E, start, target):
    """noise which gives one parameter a standard error of the size wanted:
    target = (index 1..3, error in the units of the data)"""
    import numpy as np
    from scipy.optimize import curve_fit
    dev = np.array([rng.gauss(0, 1) for _ in V])
    scale = 1e-6 * start[1] * start[3]
    guess = [0.] + list(start[1:])
    mean = float(np.mean(E))
    E = E - mean
    for _ in range(6):
        y = E + scale * dev
        p, cov = curve_fit(lambda v, e0, k, kp, v0: energies(form, k * guess[1], kp, v0 * guess[3], v, e0 * abs(guess[1] * guess[3]) + guess[0]),
                           V, y, p0=[0., 1., guess[2], 1.], maxfev=20000)
        s = np.sqrt(np.diag(cov)) * [1., guess[1], 1., guess[3]]
        scale *= target[1] / s[target[0]]
    return E + scale * dev + mean


def prepare(rng, c):
    """a crystal for the configuration, in random units"""
    import numpy as np
    eu, fu, vu = rng.choice(['Ha', 'eV', 'Ry']), rng.choice(['cm^-1', 'THz', 'Hz']), rng.choice(['A', 'bohr'])
    tu, pu = rng.choice(['K', 'C']), rng.choice(['GPa', 'kbar'])
    natom, nq = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3])
    nv = rng.choice([6, 7, 8, 11])
    K0, V0, Kp = rng.uniform(.3, 2.5), rng.uniform(12, 300), rng.uniform(2.5, 6.5)
    span = rng.choice([.04, .06, .08])
    w = [rng.choice([1., 2., 6., .5, 12.]) for _ in range(nq)]
    ph = QI.nice_phonons(natom=natom, nv=nv, nq=nq, K0=K0, V0=V0, Kp=Kp, gamma=rng.uniform(.3, 2.), span=span,
                         E0=-rng.choice([0., 1., 12., 275., 2500.]), weights=w, job=rng.choice(JOBS))
    form = c.get('form', 'BM')
    K = K0 * 1e11 * P.LM['A'] ** 3 / P.EJ['Ha']
    ph.E = energies(form, K, Kp, V0, ph.V, ph.E.mean())
    noise = False
    if c['cmd'] == 'qha' and c['eos'] and c['fail'] == 'none' and rng.random() < .75:
        noise = True
        gpa = 1e9 * P.LM['A'] ** 3 / P.EJ['Ha'] * (1. if pu == 'GPa' else .1)
        mant = rng.choice([1.02, 1.3, 1.9, 4.7, 9.1, 9.62, 9.7, 9.97])
        k = rng.choice([1, 1, 2, 3])
        if k == 1:
            size = mant * 10. ** rng.choice([-3, -2, -1, 0] + ([1] if pu == 'kbar' else []))
            while size * gpa > .012 * K:
                size /= 10.
            target = (1, size * gpa)
        elif k == 2:
            target = (2, mant * 10. ** rng.choice([-4, -3, -2]))
        else:
            size = mant * 10. ** rng.choice([-5, -4, -3])
            target = (3, size if vu == 'A' else size * (P.LM['bohr'] / P.LM['A']) ** 3)
        ph.E = noisy(rng, form, ph.V, ph.E, [0., K, Kp, V0], target)
    if rng.random() < .4:
        # frequencies a polynomial does not describe
        for q in range(nq):
            for b in range(3 * natom):
                if rng.random() < .5 and ph.nu[q, b].max() > 0:
                    amp = rng.choice([.001, .003, .01, .03])
                    ph.nu[q, b] *= 1 + amp * np.array([rng.uniform(-1, 1) for _ in ph.V])
    ph.sup = rng.choice(SUPS)
    return ph.to_units(eu, fu, vu), (eu, fu, vu, tu, pu), (K, Kp, V0), noise, 100 * K0 * span * .4


def options(rng, c, u, pmax):
    eu, fu, vu, tu, pu = u
    off = 273.15 if tu == 'C' else 0.
    if c.get('many'):
        dt = rng.choice([5., 10., 12.5])
        T = (10. - off, 10. - off + dt * rng.choice([49.2, 50.2, 53.]), dt)
    else:
        dt = rng.choice([50., 100., 37.125])
        T = (rng.choice([0., 0., 25.5]) - off, 0., dt)
        T = (T[0], T[0] + dt * rng.choice([0., 1.2, 2.2]), dt)
    if c['fail'] == 'run':
        T = (T[0] - 500., T[1] - 480., dt)
    s = 10. if pu == 'kbar' else 1.
    n = c.get('np', 1)
    p0 = rng.choice([0., 0., -.05 * pmax, .1 * pmax])
    dp = round(pmax * .3, 3)
    p0 = round(p0, 2)
    Pr = tuple(x * s for x in (p0, p0 + dp * (n - 1) + .2 * dp, dp))
    a = ['--eunit', eu, '--vunit', vu, '--funit', 'cm-1' if fu == 'cm^-1' else fu, '--tunit', tu, '-T'] + [repr(float(x)) for x in T]
    edeg, fdeg = rng.choice([2, 3, 4]), rng.choice([2, 3, 4])
    if c['fail'] == 'volume':
        edeg = 2             # a parabola with a maximum
    if c['cmd'] == 'qha':
        a += ['--punit', pu, '-P'] + [repr(float(x)) for x in Pr]
        a += ['-s', c['scheme'], '-m', 'eos' if c['eos'] else 'poly', '--eos', c['form'], '--edeg', str(edeg), '--fdeg', str(fdeg)]
    return a, T, Pr, edeg, fdeg


def phonon_case(vq, rng, n, c):
    import h5py
    import numpy as np
    ph, u, (K, Kp, V0), noise, pmax = prepare(rng, c)
    eu, fu, vu, tu, pu = u
    sane = True
    if c['fail'] == 'volume':
        x = (ph.V - ph.V.mean()) / ph.V.mean()
        ph.E = ph.E.mean() - x ** 2 * (ph.E.max() - ph.E.min()) / (x ** 2).max() - .3 * x * (ph.E.max() - ph.E.min())
        ph.nu = ph.nu * 0 + ph.nu[:, :, :1]
        sane = False
    d = os.path.join(vq.scratch, 'run%d' % n)
    os.mkdir(d)
    path = os.path.join(d, 'in.yaml')
    text = ph.text()
    if c['fail'] == 'read':
        drop = rng.choice(['natom:', 'qpoints:', 'volume:', 'energy:'])
        text = '\n'.join(x for x in text.split('\n') if not x.startswith(drop))
    with open(path, 'w') as f:
        f.write(text)
    a, T, Pr, edeg, fdeg = options(rng, c, u, pmax)
    quiet = rng.random() < .2
    r = cli.run([c['cmd'], 'in.yaml', '-o', 'out'] + a + (['-q'] if quiet else []), cwd=d)
    log = os.path.join(d, 'out.txt')
    shown = open(log).read() if os.path.exists(log) else ''
    rep = reports.phonon(shown)
    e = dict(kind='phonon', c=c, crash=r['crash'], sane=sane, noisy=noise, reason=len(nonblank(shown.split('\\/ \\/')[-1])) > 0,
             logged=quiet or subsequence(nonblank(shown), nonblank(r['out'])),
             job=ph.job, natom=ph.natom, sup=ph.sup, eu=eu.lower(), fu=fu.lower(), vu=vu.lower(), tu=tu.lower(), pu=pu.lower(),
             as_given=[eu, vu, fu, tu, pu], edeg=edeg, fdeg=fdeg)
    f = {'A': 1., 'bohr': (P.LM['A'] / P.LM['bohr']) ** 3}[vu]
    start = [0., K * (P.EJ['Ha'] / P.EJ[eu]) / f, Kp, V0 * f]
    e.update(V=V.RL(ph.V), U0=V.RL(ph.E), w=V.RL(ph.w), nu=[[V.RL(b) for b in q] for q in ph.nu], start=V.RL(start),
             T3=V.RL(T), P3=V.RL(Pr))
    for k in ('outline', 'tsetu', 'psetu', 'units', 'poly', 'approach', 'jobshown', 'vhead', 'parnames'):
        e[k] = rep[k]
    e.update(tset=V.RL(rep['tset']), pset=V.RL(rep['pset']), counts=V.RL(rep['counts']), vtab=V.RM(rep['vtab']),
             pars=[{k: V.R(x[k]) for k in x} for x in rep['pars']], r2mean=V.RL(rep['r2mean']),
             r2=[dict(band=x['band'], freq=x['freq'], r2=V.R(x['r2']), word=x['word']) for x in rep['r2']],
             res=[dict(p=V.R(x['p']), unit=x['unit'], heads=x['heads'], rows=V.RM(x['rows'])) for x in rep['res']])
    h5 = os.path.join(d, 'out.hdf5')
    if c['cmd'] == 'qha' and c['fail'] == 'none' and os.path.exists(h5):
        with h5py.File(h5, 'r') as g:
            e.update(T=V.RL(np.array(g['T'])), P=V.RL(np.array(g['P'])), CpCv=V.RM(np.array(g['Cp-Cv'])))
            for k in ('VT', 'alphaV', 'KT', 'KS'):
                e[k] = V.RM(np.array(g[k]))
    vq.emit(**e)


def soec_case(vq, rng, n, c):
    d = os.path.join(vq.scratch, 'run%d' % n)
    os.mkdir(d)
    m = elastic.unstable(rng) if c['fail'] == 'run' else elastic.matrix(rng, rng.choice(elastic.KINDS), 3.)
    rho = rng.choice([rng.uniform(800., 9000.), 3210., 2650.5]) if c['dens'] else 0.
    job = rng.choice(elastic.TITLES)
    elastic.write(os.path.join(d, 'in.dat'), job, m, rho)
    if c['fail'] == 'read':
        with open(os.path.join(d, 'in.dat'), 'w') as f:
            f.write(job + '\n' + '\n'.join(' '.join('%g' % x for x in row) for row in m[:rng.choice([0, 3, 5])]) + '\n')
    a = (['--polar'] if c['polar'] else []) + (['-p'] if c['plots'] else []) + ['--dpi', '20']
    quiet = rng.random() < .2
    r = cli.run(['soec', 'in.dat', '-o', 'out'] + a + (['-q'] if quiet else []), cwd=d)
    log = os.path.join(d, 'out.txt')
    shown = open(log).read() if os.path.exists(log) else ''
    rep = reports.matrices(shown)
    vq.emit(kind='soec', c=c, crash=r['crash'], reason=len(nonblank(shown.split('\\/ \\/')[-1])) > 0,
            logged=quiet or subsequence(nonblank(shown), nonblank(r['out'])),
            job=job.strip(), C=V.RM(m), rho=[V.R(rho)] if c['dens'] else [], outline=rep['outline'], units=rep['units'],
            jobshown=rep['jobshown'], rhoshown=V.RL(rep['rhoshown']), rhounit=rep['rhounit'], Cs=V.RM(rep['Cs']), Ss=V.RM(rep['Ss']),
            figures=rep['figures'], pngs=sorted(os.path.basename(p) for p in glob.glob(os.path.join(d, '*.png'))))


def seismic_case(vq, rng, n):
    if 'quantas.core.plotter' not in sys.modules:
        try:
            import quantas.core.plotter
        except ImportError:   # not part of the package
            import types
            m = types.ModuleType('quantas.core.plotter')
            m.BasicPlotter = type('BasicPlotter', (object,), {})
            sys.modules['quantas.core.plotter'] = m
    from quantas.seismic.seismic import SeismicCalculator
    d = os.path.join(vq.scratch, 'run%d' % n)
    os.mkdir(d)
    m = elastic.matrix(rng, rng.choice(elastic.KINDS), 3.)
    rho, job = rng.uniform(800., 9000.), rng.choice(elastic.TITLES)
    path, log = os.path.join(d, 'in.dat'), os.path.join(d, 'log.txt')
    elastic.write(path, job, m, rho)
    c = SeismicCalculator(dict(silent=True, debug=False, logfile=log, ntheta=3, nphi=3, pressure_unit='GPa', plotting=False))
    err = c.read_input(path)
    if err is not None:
        raise RuntimeError('input refused: %s' % err)
    c.report_input_data()
    rep = reports.matrices(open(log).read())
    vq.emit(kind='seismic', job=job.strip(), C=V.RM(m), rho=[V.R(rho)], jobshown=rep['jobshown'], rhoshown=V.RL(rep['rhoshown']),
            rhounit=rep['rhounit'], Cs=V.RM(rep['Cs']), Ss=V.RM(rep['Ss']))


def eos_case(vq, rng, n, avail, sig):
    text, cols = datafile(rng, avail, sig)
    d = os.path.join(vq.scratch, 'run%d' % n)
    os.mkdir(d)
    path, log = os.path.join(d, 'data.dat'), os.path.join(d, 'data.log')
    with open(path, 'w') as f:
        f.write(text)
    # no answers: the session ends with the first question
    r = cli.run(['eosfit', path], cwd=d)
    if r['crash']:
        raise RuntimeError(r['crash'])
    rep = reports.eosdata(open(log).read())
    num = len(cols['p'])
    vq.emit(kind='eos', job='session data', jobshown=rep['jobshown'], heads=rep['heads'],
            data=[[V.RL([cols[k][j]]) if k in cols else [] for k in 'pvabc'] for j in range(num)],
            rows=[[V.RL(x) for x in r] for r in rep['rows']],
            weights=rep['weights'], sigmas=[SIG[k] for k in 'pvabc' if 'sigma' + k in cols])


def check(vq):
    body = ('SPECIFICATION Spec\nCONSTANT NP = {1, 2, 3}\nINVARIANT ErrorLast\nINVARIANT NothingSaved\nINVARIANT Whole\n'
            'INVARIANT EachPressure\nINVARIANT NoWavesWithoutDensity\nCHECK_DEADLOCK FALSE\n')
    vq.check_design('ReportDesign', body + 'PROPERTY Grounded\nPROPERTY Ends\n', 'reports of every configuration', workers=8)
    sc = vq.scenarios('ReportDesign', body + 'INVARIANT Emit\n', 'configurations')
    rng = vq.rng
    sc.sort(key=lambda s: sorted((k, str(v)) for k, v in s.items()))
    n = 0
    for rep in range(vq.pick(1, 12)):
        for c in sc:
            if c['cmd'] == 'qha' and c['eos'] and c['fail'] == 'none' and not c['many']:
                times = 2
            elif c['cmd'] == 'ha' and c['fail'] == 'none':
                times = 6
            elif c['cmd'] == 'soec' and c['fail'] != 'none' and (c['polar'] or c['plots']) and rep % 4:
                times = 0
            else:
                times = 1
            for k in range(times):
                n += 1
                with vq.case('report %d.%d %s' % (rep, k, ' '.join('%s=%s' % x for x in sorted(c.items()))), limit=120):
                    if c['cmd'] == 'soec':
                        soec_case(vq, rng, n, c)
                    else:
                        phonon_case(vq, rng, n, c)
        for k in range(4):
            n += 1
            with vq.case('seismic report %d.%d' % (rep, k)):
                seismic_case(vq, rng, n)
        for k in range(vq.pick(24, 20)):
            avail = rng.sample('vabc', rng.choice([1, 2, 3, 4]))
            sig = [x for x in ['p'] + avail if rng.random() < .5]
            n += 1
            with vq.case('eos report %d.%d %s / %s' % (rep, k, ''.join(avail), ''.join(sig))):
                eos_case(vq, rng, n, avail, sig)
    vq.validate('ReportTrace')


if __name__ == '__main__':
    V.main(check, 'P01')
