"""E03: interactive equation-of-state sessions (spec/EosSession*.tla)."""
import os, sys, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V
from E01 import equation, params

NAMES = {'v': 'Volume', 'a': 'a-axis', 'b': 'b-axis', 'c': 'c-axis'}
SELS = {v: k for k, v in NAMES.items()}
TAG = {'Murnaghan': 'M', 'Birch-Murnaghan': 'BM', 'Natural Strain': 'NS', 'Vinet': 'V', 'Tait': 'T'}


def datafile(rng, avail, sig):
    """(text of an EoS input, columns as read)"""
    import numpy as np
    f = rng.choice(['BM', 'M', 'V', 'NS'])
    p = params(rng, f, False)
    p[1], p[2] = rng.uniform(3., 6.), -.05
    n = rng.randrange(7, 14)
    x = np.array([1. - .12 * (k + rng.uniform(-.2, .2)) / n for k in range(n)])
    V0 = p[3]
    P = np.array(equation(f).eos(np.array(p), V0 * x, 3, False, True))
    cols = {'p': P + np.array([rng.gauss(0, 2e-3) for _ in x])}
    axial = {'a': rng.uniform(.7, 1.3), 'b': rng.uniform(.7, 1.3), 'c': rng.uniform(.7, 1.3)}
    for q in avail:
        if q == 'v':
            cols[q] = V0 * x * (1 + np.array([rng.gauss(0, 2e-5) for _ in x]))
        else:
            cols[q] = V0 ** (1. / 3) * x ** (axial[q] / 3.) * (1 + np.array([rng.gauss(0, 1e-5) for _ in x]))
    for q in sig:
        base = 2e-3 if q == 'p' else (1e-3 if q == 'v' else 1e-4) * cols[q]
        cols['sigma' + q] = base * np.array([rng.uniform(.5, 2.) for _ in x]) * (1. if q == 'p' else .05)
    names = list(cols)
    rng.shuffle(names)
    rows = [['%.6f' % cols[q][k] if q[0] != 's' else '%.3e' % cols[q][k] for q in names] for k in range(n)]
    cols = {q: np.array([float(r[j]) for r in rows]) for j, q in enumerate(names)}
    text = 'job\nsession data\nformat\n%s\ndata\n' % ' '.join(names) + '\n'.join(' '.join(r) for r in rows) + '\n'
    return text, cols


def number(rng, a, guess):
    k = int(a[3]) - 1
    g = guess[k] if guess[k] == guess[k] and abs(guess[k]) > 1e-9 else 1.
    if k == 2:
        g = -4. / guess[0] * rng.choice([1., 1., 3., 9.]) if guess[0] else -.02
    x = g * (rng.uniform(.995, 1.005) if k == 3 else rng.uniform(.8, 1.2))
    return rng.choice(['%.6f' % x, '%.3f' % x if k != 2 else '%.5f' % x, repr(x), '%.4e' % x])


def text_of(rng, a, guess):
    if a == 'enter':
        return ''
    if a == 'y':
        return rng.choice(['y', 'Y', 'yes', 'YES'])
    if a == 'n':
        return rng.choice(['n', 'N', 'no', 'No'])
    if a == 'bad':
        return rng.choice(['zz', 'qq1', 'k', '?', 'yy'])
    if a.startswith('num'):
        return number(rng, a, guess)
    return a


def parse_reports(log):
    """The fit reports in a log: list of dicts (numbers as floats)."""
    out = []
    for blk in re.split(r'#\s*EOS results for ', log)[1:]:
        g = dict(sel=SELS.get(blk.split(' fitting')[0].strip(), '?'))
        m = re.search(r'EOS formulation: (.*)', blk)
        g['f'] = TAG.get(m.group(1).strip(), '?') if m else '?'
        m = re.search(r'EOS order: (\d+)', blk)
        g['o'] = int(m.group(1)) if m else 0
        w = re.findall(r'Results (not )?weighted (?:for )?for (\S+)', blk)
        d = {q: not n for n, q in w}
        g['wp'] = d.get('pressure', False)
        g['wv'] = d.get(NAMES.get(g['sel'], ''), False)
        rows = re.findall(r"^  (\S+) *= +(\S+) \+/- +(\S+)(.*)$", blk, re.M)
        g['labels'] = [r[0] for r in rows]
        g['beta'] = [float(r[1]) for r in rows]
        g['sd'] = [float(r[2]) for r in rows]
        g['fixed'] = ['FIXED' in r[3] for r in rows]
        g['implied'] = ['IMPLIED' in r[3] for r in rows]
        tab = blk[blk.index('Calculated data:'):].splitlines()[4:]
        num = []
        for line in tab:
            if not line.strip():
                break
            num.append([float(t) for t in line.split()])
        for j, k in enumerate(('x', 'dx', 'p', 'y', 'dy')):
            g[k] = [r[j] if j < len(r) else float('nan') for r in num]
        out.append(g)
    return out


def subsequence(small, big):
    it = iter(big)
    return all(any(x == y for y in it) for x in small)


def check(vq):
    import numpy as np
    import click
    from click.testing import CliRunner
    from quantas.cmdline.commands.cmd_quantas import cli
    base = ('SPECIFICATION Spec\nCONSTANT MaxReports = %d\nCONSTANT MaxAnswers = %d\nCONSTANT Files = %s\nCONSTANT Plain = %s\n'
            'INVARIANT NoLeak\nINVARIANT Sound\nCHECK_DEADLOCK FALSE\n')
    full = base + 'PROPERTY Declined\nVIEW View\n'
    vq.check_design('EosSessionDesign', full % (1, 40, '{%d}' % vq.pick(2, 4), 'FALSE'), 'sessions of one report, any answer', workers=8)
    vq.check_design('EosSessionDesign', full % (vq.pick(2, 3), 60, '{2}', 'TRUE'), 'sessions of several reports, plain answers', workers=8)
    sc = vq.scenarios('EosSessionDesign', base % (5, 70, '{1, 2, 3, 4, 5}', 'FALSE') + 'INVARIANT Replayable\nINVARIANT Emit\n',
                      'random sessions', simulate=('num=%d' % vq.pick(250, 2500), 160))
    rng = vq.rng
    sc.sort(key=lambda s: str(s['answers']))
    rng.shuffle(sc)
    # long sessions are the interesting ones
    sc.sort(key=lambda s: len(s['reports']) < 2)
    sc = sc[:vq.pick(130, 1500)]
    runner = CliRunner()
    for n, s in enumerate(sc):
        with vq.case('session %s %s %s' % (sorted(s['avail']), sorted(s['sig']), ' '.join(s['answers'])), limit=120):
            text, cols = datafile(rng, s['avail'], s['sig'])
            d = os.path.join(vq.scratch, 'sess%d' % n)
            os.mkdir(d)
            path = os.path.join(d, 'data.dat')
            with open(path, 'w') as f:
                f.write(text)
            # answers as typed; the numbers are of the size of the data selected
            sel, typed = None, {}
            lines = []
            guess = {q: equation('BM').guess(cols[q], cols['p']) for q in s['avail']}
            for k, a in enumerate(s['answers']):
                if a in guess:
                    sel = a
                t = text_of(rng, a, guess.get(sel, [100., 4., 0., 100.]))
                if a.startswith('num'):
                    typed[k + 1] = float(t)
                lines.append(t)
            args, log = ['eosfit', path], os.path.join(d, 'data.log')
            if rng.random() < .3:
                args += ['-o', os.path.join(d, 'out')]
                log = os.path.join(d, 'out.log')
            r = runner.invoke(cli, args, input='\n'.join(lines) + '\n')
            if r.exception is not None and not isinstance(r.exception, SystemExit):
                raise r.exception
            logtext = open(log).read() if os.path.exists(log) else ''
            got = parse_reports(logtext)
            screen = click.unstyle(r.output)
            # the same requests on fresh objects
            fits, requests = [], []
            def value(st, j, sel):
                if st['src'] == 'guess':
                    x = guess[sel][j]
                elif st['src'] == 'fit':
                    x = fits[st['n'] - 1].beta[j]
                else:
                    x = typed[st['n']]
                return float(np.round(x, 5)) if st['round'] else x
            for q in s['reports']:
                start = [value(st, j, q['sel']) for j, st in enumerate(q['start'])]
                out = equation(q['f']).fit(cols[q['sel']], cols['p'], guess=start,
                                           sigmaV=cols['sigma' + q['sel']] if q['wv'] else None,
                                           sigmaP=cols['sigmap'] if q['wp'] else None,
                                           order=q['o'], linear=q['sel'] != 'v', fixed=list(q['fix']))
                fits.append(out)
                requests.append(dict(q, beta=V.RL(out.beta), sd=V.RL(out.sd_beta), x=V.RL(cols[q['sel']]), p=V.RL(cols['p']),
                                     dx=V.RL(out.delta), y=V.RL(out.y), dy=V.RL(out.eps)))
            for g in got:
                for k in ('beta', 'sd', 'x', 'dx', 'p', 'y', 'dy'):
                    g[k] = V.RL(g[k])
            shown = [V.RL([float(x) for x in re.findall(r'^  \S+ *= +(\S+)$', b, re.M)[:4]])
                     for b in screen.split('EOS PARAMETERS')[1:]]
            inforce = []
            for h in s['shown']:
                inforce.append(dict(start=h['start'], values=V.RL([value(x, j, h['sel']) for j, x in enumerate(h['start'])])))
            vq.emit(ev='session', avail=sorted(s['avail']), sig=sorted(s['sig']), answers=s['answers'], exit=r.exit_code,
                    finished='fitting finished' in logtext and 'Thank you' in logtext,
                    logged=subsequence([x for x in logtext.splitlines() if x.strip()], screen.splitlines()),
                    reports=got, requests=requests, shown=shown, inforce=inforce)
    vq.validate('EosSessionTrace')


if __name__ == '__main__':
    V.main(check, 'E03')
