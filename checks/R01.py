"""R01: equation-of-state input files (spec/EosReader*.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vq as V

NAMES = {'p': ['p'], 'v': ['v'], 'a': ['a'], 'b': ['b'], 'c': ['c'], 'sigmap': ['sigmap', 'sigp'],
         'sigmav': ['sigmav', 'sigv'], 'sigmaa': ['sigmaa', 'siga'], 'sigmab': ['sigmab', 'sigb'],
         'sigmac': ['sigmac', 'sigc']}
FOREIGN = ['T', 'd', 'sigT', 'sigpump', 'sigvol', 'sigma', 'alpha', 'beta', 'pm', 'vol', 'a/c', 'sigbb', 'rho', '-']
PROPS = {'p': 'pressure', 'v': 'volume', 'a': 'a', 'b': 'b', 'c': 'c', 'sigmap': 'sigma_p', 'sigmav': 'sigma_v',
         'sigmaa': 'sigma_a', 'sigmab': 'sigma_b', 'sigmac': 'sigma_c'}
WORDS = ['Topaz', 'data', 'Data', 'FORMAT', 'job', 'set', '(Gatta', 'et', 'al.,', '2014)', 'P', 'V', '300', 'K', 'of', '#4']


def case_of(rng, w):
    return rng.choice([w.lower(), w.upper(), w.capitalize(), ''.join(rng.choice([c.lower(), c.upper()]) for c in w)])


def number(rng):
    x = rng.choice([rng.uniform(-1, 50), rng.uniform(100, 900), rng.uniform(0, .05), 0., float(rng.randrange(400))])
    return rng.choice(['%.5f' % x, '%.3e' % x, '%.2E' % x, repr(x), '%+.4f' % x, '%d' % x, '%.1f' % x, '%d.' % x])


def layout_file(rng, lay, cols, title):
    """(text, lines for the specification)"""
    text, lines = [], []
    skip = dict(kind='skip', words=[], text='', nums=[])
    sep = lambda ws: ''.join(rng.choice(['', ' ', '\t']) if k == 0 else rng.choice([' ', '  ', '\t', ' \t ', '     '])
                             for k in (0,)) + ''.join((rng.choice([' ', '  ', '\t', '    ']) if k else '') + w
                                                      for k, w in enumerate(ws))
    def add(ws, nums=None, raw=None):
        t = raw if raw is not None else sep(ws) + rng.choice(['', '', ' ', '\t'])
        text.append(t)
        lines.append(dict(kind='line', words=[w.lower() for w in t.split()], text=t.strip(), nums=nums or []))
    for tag in list(lay) + ['skip'] * rng.choice([0, 0, 1, 2]):
        if tag == 'skip':
            text.append(rng.choice(['', '   ', '\t', '# comment', '  # data', '#FORMAT', '#', '# 1.0 2.0 3.0']))
            lines.append(skip)
        elif tag in ('job', 'format', 'data'):
            add([case_of(rng, tag)])
        elif tag == 'title':
            add(None, raw=title)
        elif tag == 'cols':
            add(cols)
        else:
            ws = [number(rng) for _ in cols]
            add(ws, [V.R(float(w)) for w in ws])
    return '\n'.join(text) + rng.choice(['', '\n', '\n']), lines


def observe(vq, reader, lines, calc):
    import numpy as np
    d = {q: V.RL(reader.data[q]) for q in NAMES if isinstance(reader.data.get(q), np.ndarray)}
    p = {q: V.RL(getattr(reader, PROPS[q])) for q in d if getattr(reader, PROPS[q]) is not None}
    p = {q: p.get(q, []) for q in d}
    extra = {q: V.RL(v) for q, v in reader.data.items() if q not in NAMES and isinstance(v, np.ndarray)}
    if extra:
        d['sigma?'] = []
    vq.emit(ev='read', lines=lines, completed=bool(reader.completed), error=str(reader.error or ''),
            job=str(reader.jobname).strip(), data=d, prop=p, calc=calc)


def check(vq):
    import io, contextlib
    from quantas.IO.eos_reader import EoSInputFileReader
    from quantas.eosfit.eosfit import EoSFitCalculator
    sc = vq.scenarios('EosReaderDesign', 'SPECIFICATION Spec\nCONSTANT MaxSkips = %d\nCONSTANT MaxRows = %d\n'
                      'INVARIANT Faithful\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % vq.pick((2, 2), (3, 3)))
    lays = sorted(set(tuple(s['lay']) for s in sc))
    rng = vq.rng
    rng.shuffle(lays)
    if vq.tier == 'quick':
        lays = lays * 3
    else:
        lays = lays * 12
    k = 0
    while k < len(lays):
        batch = []
        for lay in lays[k:k + rng.choice([1, 2, 3])]:
            k += 1
            qs = rng.sample(sorted(NAMES), rng.randrange(1, 11))
            if 'p' not in qs and rng.random() < .85:
                qs.insert(rng.randrange(len(qs) + 1), 'p')
            cols = [case_of(rng, rng.choice(NAMES[q])) for q in qs]
            for _ in range(rng.choice([0, 0, 1, 3])):
                cols.insert(rng.randrange(len(cols) + 1), rng.choice(FOREIGN))
            title = ' '.join(rng.choice(WORDS) for _ in range(rng.randrange(1, 6)))
            title = title.lstrip('#') + ' ' * rng.choice([0, 0, 2])
            lay = list(lay)
            if 'row' in lay and rng.random() < .5:
                lay += ['row'] * rng.randrange(1, 25)
            for _ in range(rng.choice([0, 1, 2, 4])):
                lay.insert(rng.randrange(len(lay) + 1), 'skip')
            text, lines = layout_file(rng, lay, cols, title)
            with vq.case('file %d %r' % (k, text[:400])):
                path = os.path.join(vq.scratch, 'eos_%d.dat' % k)
                with open(path, 'w') as f:
                    f.write(text)
                reader = EoSInputFileReader(path)
                c = EoSFitCalculator(dict(lenght_unit='A', pressure_unit='GPa', logfile=None))
                with contextlib.redirect_stdout(io.StringIO()):
                    err = c.read_input(path)
                os.remove(path)
                calc = '' if err is None else str(err)
                observe(vq, reader, lines, calc)
                batch.append((k, reader, lines, calc))
        for n, reader, lines, calc in batch[:-1]:
            with vq.case('file %d after others were read' % n):
                observe(vq, reader, lines, calc)
    vq.validate('EosReaderTrace')


if __name__ == '__main__':
    V.main(check, 'R01')
