"""Q01: volume minimisation and bulk modulus (spec/Qha*.tla)."""
import os, sys, io, contextlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vq as V
import phonon as P
import quantas_inputs as QI

FORMS = {'murnaghan': 'M', 'birchmurnaghan': 'BM', 'vinet': 'V', 'pouriertarantola': 'NS'}
CLI = {'murnaghan': 'M', 'birchmurnaghan': 'BM', 'vinet': 'V', 'pouriertarantola': 'PT'}


def crystal(rng, nv=None, natom=None, nq=None, span=None):
    """A well behaved crystal with random elastic and vibrational parameters.
    Returns it with the largest pressure (GPa) its volumes cover."""
    span = span or rng.choice([.03, .05, .08])
    K0 = rng.uniform(.3, 2.5)
    natom = natom or rng.randrange(1, 3)
    nq = nq or rng.randrange(1, 3)
    ph = QI.nice_phonons(natom=natom, nv=nv or rng.choice([6, 7, 9, 11]), nq=nq, K0=K0,
                         V0=rng.uniform(12, 300) * natom, Kp=rng.uniform(2.5, 6.5), gamma=rng.uniform(.3, 2.2),
                         span=span, E0=-rng.choice([1., 12., 60., 275., 2500.]),
                         weights=[rng.choice([1., 2., 3.]) for _ in range(nq)])
    return ph, 100 * K0 * span * .5


def model(e, ph, st):
    e.update(eu=st['energy_unit'].lower(), fu=st['frequency_unit'].lower(), vu=st['lenght_unit'].lower(),
             tu=st['temperature_unit'].lower(), pu=st['pressure_unit'].lower(),
             V=V.RL(ph.V), U0=V.RL(ph.E), w=V.RL(ph.w), nu=[[V.RL(b) for b in q] for q in ph.nu],
             scheme=st['qha_scheme'], mini=st['minimization'], form=FORMS[st['eos_function']],
             edeg=st['edeg'], fdeg=st['fdeg'])
    return e


def run_qha(vq, ph, st, tag='q'):
    """(calculator, text shown) after a run through the public methods."""
    from quantas.qha.qha import QHACalculator
    path = ph.write(os.path.join(vq.scratch, 'qha_%s.yaml' % tag))
    c = QHACalculator(st)
    err = c.read_input(path)
    if err is not None:
        raise RuntimeError('input rejected: %s' % err)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        c.run()
    return c, out.getvalue()


def units(rng):
    return (rng.choice(['Ha', 'eV', 'Ry']), rng.choice(['cm^-1', 'THz', 'Hz']), rng.choice(['A', 'bohr']),
            rng.choice(['K', 'C']), rng.choice(['GPa', 'kbar']))


def conditions(rng, tu, pu, pmax, nt=3, np_=3):
    t0 = rng.choice([0., 0., rng.uniform(0, 400)])
    dt = rng.choice([50., 150., rng.uniform(10, 250)])
    if rng.random() < .15:
        nt = 1
    if rng.random() < .15:
        np_ = 1
    off = 273.15 if tu == 'C' else 0.
    tr = (t0 - off, t0 - off + dt * (nt - 1) + dt * .25, dt)
    s = 10. if pu == 'kbar' else 1.
    p0 = rng.choice([0., 0., -.1 * pmax]) * s
    dp = pmax * rng.uniform(.2, .5) * s
    return tr, (p0, p0 + dp * (np_ - 1) + .25 * dp, dp)


def check(vq):
    sc = vq.scenarios('QhaDesign', 'SPECIFICATION Spec\nCONSTANTS NT = 2\nNP = 2\nSchemes = {"td", "freq"}\n'
                      'Minis = {"poly", "murnaghan", "birchmurnaghan", "vinet", "pouriertarantola"}\n'
                      'Degs = {2, 3, 4, 5}\nINVARIANT NoFileOnError\nINVARIANT FileComplete\n'
                      'INVARIANT ErrorIffNoMin\nINVARIANT Emit\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n')
    rng = vq.rng
    import numpy as np
    good = [s for s in sc if not s['nomin'] and s['prior'] == 'none']
    bad = [s for s in sc if s['nomin']]
    for rep in range(vq.pick(8, 150)):
        for s in good:
            eu, fu, vu, tu, pu = units(rng)
            ph0, pmax = crystal(rng, nv=rng.choice([7, 9, 11]) if s['deg'] == 5 else None)
            # energies that scatter (the bulk modulus from a polynomial of high degree
            # through them varies too fast for its pressure derivative to be well defined)
            if rng.random() < .3 and (s['mini'] != 'poly' or s['deg'] <= 3):
                size = rng.choice([1e-5, 1e-4, 1e-3]) * (ph0.E.max() - ph0.E.min())
                ph0.E = ph0.E + size * np.array([rng.gauss(0, 1) for _ in ph0.V])
            ph = ph0.to_units(eu, fu, vu)
            if rng.random() < .3:                # volumes in any order
                o = list(range(len(ph.V)))
                rng.shuffle(o)
                ph.V, ph.E, ph.nu = ph.V[o], ph.E[o], ph.nu[:, :, o]
            tr, pr = conditions(rng, tu, pu, pmax, 2, 2)
            mini = 'poly' if s['mini'] == 'poly' else 'eos'
            eos = 'birchmurnaghan' if mini == 'poly' else s['mini']
            st = P.settings(tr, eu, fu, vu, tu, pr, pu, s['scheme'], mini, eos, s['deg'], rng.choice([2, 3, 4]))
            with vq.case('rep %d %s/%s/%s deg %d %s T=%s P=%s' % (
                    rep, s['scheme'], mini, eos, s['deg'], (eu, fu, vu, tu, pu), tr, pr)):
                c, txt = run_qha(vq, ph, st)
                e = model({}, ph, st)
                if c.completed:
                    vq.emit(outcome='done', T=V.RL(c.temperature), P=V.RL(c.pressure), VT=V.RM(c.results['VT']),
                            KT=V.RM(c.results['KT']), Kp=V.RM(c.results['Kp']), **e)
                else:
                    vq.emit(outcome='error', err=c.error or '', file=False, crash=False, T=V.RL(c.temperature),
                            P=V.RL(c.pressure), **e)
    # models without a minimum, through the command line
    from click.testing import CliRunner
    from quantas.cmdline.commands.cmd_quantas import cli
    os.chdir(vq.workdir)
    n = 0
    for rep in range(vq.pick(2, 30)):
        for s in bad:
            n += 1
            ph, pmax = crystal(rng, nv=9, natom=1, nq=1)
            x = (ph.V - ph.V.mean()) / ph.V.mean()
            kind = rng.randrange(3)
            if kind == 0:
                ph.E = -100. - rng.uniform(.5, 3) * x            # no stationary point
            elif kind == 1:
                ph.E = -100. - x ** 2 * rng.uniform(.3, 3)       # a maximum
            else:
                ph.E = ph.E - 40. * x                          # minimum far away, if any
            mini = 'poly' if s['mini'] == 'poly' else 'eos'
            eos = 'birchmurnaghan' if mini == 'poly' else s['mini']
            T, Pr = (0., 300., 300.), (0., 1., 1.)
            name = 'nomin%d' % n
            ph.write(name + '.yaml')
            old = b'previous results'
            res = name + '_QHA.hdf5'
            if s['prior'] == 'old':
                with open(res, 'wb') as f:
                    f.write(old)
            args = ['qha', name + '.yaml', '-s', s['scheme'], '-m', mini, '--eos', CLI[eos], '--edeg', str(s['deg']),
                    '-T'] + [str(v) for v in T] + ['-P'] + [str(v) for v in Pr]
            with vq.case('no minimum %d kind %d %s' % (n, kind, ' '.join(args))):
                r = CliRunner().invoke(cli, args, input='y\n')
                wrote = os.path.exists(res) and open(res, 'rb').read() != old
                st = P.settings(T, prange=Pr, scheme=s['scheme'], mini=mini, eos=eos, edeg=s['deg'])
                e = model({}, ph, st)
                ok = ('ERROR' in r.output.upper() or 'FAILED' in r.output.upper() or 'minimum' in r.output)
                if wrote:
                    import h5py
                    with h5py.File(res, 'r') as f:
                        vt, kt, kp = f['VT'][()], f['KT'][()], f['Kp'][()]
                        tt, pp = f['T'][()], f['P'][()]
                    vq.emit(outcome='done', T=V.RL(tt), P=V.RL(pp), VT=V.RM(vt), KT=V.RM(kt), Kp=V.RM(kp), **e)
                else:
                    vq.emit(outcome='error', err='explained' if ok else '', file=wrote,
                            crash=bool(r.exception), why=repr(r.exception), T=V.RL([0., 300.]), P=V.RL([0., 1.]), **e)
    vq.validate('QhaMinTrace')


if __name__ == '__main__':
    V.main(check, 'Q01')
