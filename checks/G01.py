"""G01: temperature and pressure grids (spec/Grid.tla, spec/GridTrace.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V
import phonon as P
from H01 import run_ha


def check(vq):
    import h5py
    from click.testing import CliRunner
    from quantas.harmonic.harmonic import HACalculator
    from quantas.qha.qha import QHACalculator
    from quantas.cmdline.commands.cmd_quantas import cli
    import quantas_inputs as Q
    rng = vq.rng
    sc = vq.scenarios('Grid', 'SPECIFICATION Spec\nCONSTANTS Los = {0, 1, 29815} Spans = {0, 1, 2, 3, 7, 10, 11, 30, 99}\n'
                      'Steps = {1, 2, 3, 7, 10, 25, 100} Exps = {0, 1, 2, 3}\n'
                      'INVARIANT NeverBeyond\nINVARIANT Complete\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n')
    # decimal ranges beyond the small model
    for _ in range(vq.pick(1500, 20000)):
        k = rng.randrange(0, 4)
        st = rng.choice([1, 2, 5, 10, 25, 50, 3, 7, 15, 33, rng.randrange(1, 999)])
        n = rng.randrange(0, 120)
        lo = rng.choice([0, 0, 100, 300, rng.randrange(0, 200000), rng.randrange(-3000, 0)])
        sc.append(dict(lo=lo, hi=lo + n * st + rng.choice([0, 0, 0, rng.randrange(0, st)]), st=st, k=k))

    def dec(i, k):
        """the number a user types"""
        s = '%s%d.%0*d' % ('-' if i < 0 else '', abs(i) // 10 ** k, k, abs(i) % 10 ** k) if k else '%d' % i
        return s
    for s in sc:
        r = tuple(float(dec(s[x], s['k'])) for x in ('lo', 'hi', 'st'))
        with vq.case('range %s' % (r,)):
            c = HACalculator(P.settings(r))
            vq.emit(ev='grid', what='temperature', grid=V.RL(c.temperature), **s)
            q = QHACalculator(P.settings(r, prange=r))
            vq.emit(ev='grid', what='temperature', grid=V.RL(q.temperature), **s)
            vq.emit(ev='grid', what='pressure', grid=V.RL(q.pressure), **s)
    # whole runs through the command line: what is saved
    small = [s for s in sc if 0 < (s['hi'] - s['lo']) // s['st'] + 1 <= 12 and s['lo'] >= 0]
    ph = Q.nice_phonons()
    inp = ph.write(os.path.join(vq.scratch, 'g.yaml'))
    for n in range(vq.pick(30, 200)):
        t, p = rng.choice(small), rng.choice([x for x in small if x['hi'] / 10. ** x['k'] < 12])
        targ = [dec(t[x], t['k']) for x in ('lo', 'hi', 'st')]
        parg = [dec(p[x], p['k']) for x in ('lo', 'hi', 'st')]
        if (t['hi'] / 10. ** t['k']) > 1500:
            continue
        out = os.path.join(vq.scratch, 'g%d' % n)
        with vq.case('saved T %s P %s' % (targ, parg)):
            for cmd, extra in (('ha', []), ('qha', ['-P'] + parg)):
                r = CliRunner().invoke(cli, [cmd, inp, '-q', '-o', out + cmd, '-T'] + targ + extra)
                if r.exception:
                    raise r.exception
                with h5py.File(out + cmd + '.hdf5', 'r') as h:
                    tds = {x: h[x].shape[0] for x in h if h[x].ndim == 2 and x != 'Uzp'}
                    vq.emit(ev='saved', what='temperature', grid=V.RL(h['T'][()]), rows=tds, **t)
                    if cmd == 'qha':
                        vq.emit(ev='saved', what='pressure', grid=V.RL(h['P'][()]),
                                rows={x: h[x].shape[1] for x in h if h[x].ndim == 2}, **p)
    vq.validate('GridTrace')


V.main(check, 'G01')
