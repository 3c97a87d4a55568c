"""R02: input files of the elastic analysis (spec/SoecReader*.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vq as V

WORDS = ['Periclase', '(MgO)', 'SOEC', 'hydroxylapatite', 'at', '300', 'K', 'P63/m', 'C11', 'B3LYP', '-', '3.14', 'set#2']


def number(rng, x):
    t = rng.choice(['%.3f' % x, '%.4f' % x, '%10.4f' % x, '%.6e' % x, repr(round(x, 5)), '%+.3f' % x, '%d' % round(x), '%.1f' % x])
    t = t.strip()
    if t.startswith('0.') and rng.random() < .2:
        t = t[1:]
    return t


def stable(rng):
    """a random symmetric positive definite stiffness-like matrix"""
    import numpy as np
    q = np.array([[rng.gauss(0, 1) for _ in range(6)] for _ in range(6)])
    w = np.array([rng.uniform(20, 300) for _ in range(6)])
    o, _ = np.linalg.qr(q)
    c = (o * w) @ o.T
    for i in range(6):
        for j in range(i):
            if rng.random() < .4:
                c[i, j] = c[j, i] = 0.
    return c + np.eye(6) * max(0., 5. - np.linalg.eigvalsh(c)[0])


def write(rng, y):
    """(file text, lines as words) of a layout"""
    c = stable(rng)
    if rng.random() < .15:
        c[0, 0] = -abs(c[0, 0])
    s = [[None] * 6 for _ in range(6)]
    for i in range(6):
        for j in range(i, 6):
            s[i][j] = s[j][i] = number(rng, c[i][j])
    rows = []
    d = y['defect']
    for i in range(6):
        if y['form'] == 'full':
            r = [s[i][j] for j in range(6)]
        elif y['form'] == 'upper':
            r = [s[i][j] for j in range(i, 6)]
        else:
            r = [s[i][j] for j in range(i + 1)]
        if d['row'] == i + 1:
            k = rng.randrange(len(r))
            if d['what'] == 'short':
                r.pop(rng.choice([0, len(r) - 1]))
            elif d['what'] == 'long':
                r.insert(rng.choice([0, len(r)]), number(rng, rng.choice([0., 12.])))
            elif d['what'] == 'missing':
                continue
            elif d['what'] == 'nonnumeric':
                r[k] = rng.choice(['x', '12,5', 'C11', '--', '1.0.0', '*****'])
            elif d['what'] == 'nan':
                r[k] = rng.choice(['nan', 'NaN', 'inf', '-inf'])
            elif d['what'] == 'asym':
                k = rng.choice([j for j in range(6) if j != i])
                r[k] = repr(round(float(r[k]) + rng.choice([.01, -.05, .5, 3., -40.]), 5))
        rows.append(r)
    text, words = [], []
    title = None
    if y['title'] != 'none':
        ws = [rng.choice(WORDS) for _ in range(rng.randrange(1, 6))]
        if all(w.replace('.', '').replace('-', '').isdigit() for w in ws):
            ws.append('K')
        if y['title'] == 'digit':
            ws.insert(0, rng.choice(['2H-MoS2', '300', '1T', '3', '0.5Mg', '-1', '.5']))
            if ws == ws[:1] and ws[0] in ('300', '3', '-1', '.5'):
                ws.append('phase')
        elif ws[0][0].isdigit() or ws[0] in '-':
            ws.insert(0, 'Cubic')
        if rng.random() < .15:
            ws.insert(0, rng.choice(['#', '#1', '!', '//', '%']))
        if y['title'].startswith('number'):
            ws = [rng.choice(['2020', '300', '-1', '0.5', '1e3', '7'])]
            if y['title'] == 'numbers':
                ws += [rng.choice(['11', '20.5', '0']) for _ in range(rng.choice([1, 2, 3, 4, 7]))]
        rows.insert(0, ws)
        title = rng.choice([' ', '  ']).join(ws)
    if d['what'] == 'missing' and len(rows) < 6 + (title is not None) and rng.random() < .3:
        rows.append([])
    dens = {'none': None, 'blank': [], 'number': 1, 'extra': 2}[y['density']]
    if dens is not None:
        if dens == []:
            rows.append([])
        else:
            w = rng.choice(['abc', 'rho=3000', '3,178', 'density:']) if d['what'] == 'density' else number(rng, rng.uniform(500, 9000))
            rows.append([w] + (['kg/m^3'] if dens == 2 else []))
    for k, ws in enumerate(rows):
        if k == 0 and title is not None:
            text.append(title + rng.choice(['', '  ']))
        else:
            text.append(rng.choice(['', '  ', '\t']) + rng.choice([' ', '   ', '\t']).join(ws) + rng.choice(['', '  ']))
        line = []
        for w in ws:
            try:
                x = float(w)
                line.append(dict(num=x == x and abs(x) != float('inf'), v=V.R(x)))
            except ValueError:
                line.append(dict(num=False, v=[2, 0]))
        words.append(line)
    tail = rng.choice(['', '\n', '\n'])
    if tail and rng.random() < .3 and dens is not None and d['what'] != 'missing':
        tail += rng.choice(['\n', '# comment\n', '\nnotes\n'])
    return '\n'.join(text) + tail, words, title or ''


def calculator():
    from quantas.soec.soec import SOECCalculator
    return SOECCalculator(dict(polar=False, silent=True, debug=False, logfile=None, pressure_unit='GPa', plotting=False))


def check(vq):
    import numpy as np
    from quantas.IO.soec_reader import SOECInputFileReader
    sc = vq.scenarios('SoecReaderDesign', 'SPECIFICATION Spec\nCONSTANT Rows = %s\nINVARIANT Faithful\nINVARIANT Emit\n'
                      'CHECK_DEADLOCK FALSE\n' % vq.pick('{1, 2, 6}', '{1, 2, 3, 4, 5, 6}'))
    rng = vq.rng
    sc.sort(key=str)
    good = [y for y in sc if y['defect']['what'] == 'none']
    sc = sc * vq.pick(1, 4) + good * vq.pick(6, 40)
    rng.shuffle(sc)

    def observe(reader, words, title, c, err):
        s = reader.stiffness
        vq.emit(lines=words, first=title, completed=bool(reader.completed), error=str(reader.error or ''),
                job=str(reader.jobname).strip(), C=V.RM(s) if isinstance(s, np.ndarray) else [],
                rho=V.R(reader.density), calc='' if err is None else str(err),
                calcC=V.RM(c.soec.stiffness) if c.soec is not None else [],
                calcrho=V.R(c.soec.density) if c.soec is not None else [2, 0])
    k = 0
    while k < len(sc):
        batch = []
        for y in sc[k:k + rng.choice([1, 2, 3])]:
            k += 1
            text, words, title = write(rng, y)
            with vq.case('file %s %r' % (y, text)):
                path = os.path.join(vq.scratch, 'soec_%d.dat' % k)
                with open(path, 'w') as f:
                    f.write(text)
                reader = SOECInputFileReader(path)
                c = calculator()
                err = c.read_input(path)
                os.remove(path)
                observe(reader, words, title, c, err)
                batch.append((k, reader, words, title, c, err))
        for b in batch[:-1]:
            with vq.case('file %d after others were read' % b[0]):
                observe(*b[1:])
    vq.validate('SoecReaderTrace')


if __name__ == '__main__':
    V.main(check, 'R02')
