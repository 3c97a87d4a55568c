"""I02: generated inputs of the elastic analysis (spec/ElasticOutput*.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vq as V

VASP = ['XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX']
WORDS = ['MgO', 'Elastic', 'moduli', 'B3LYP', 'hydroxylapatite', '(hex)', 'P63/m', 'at', '0', 'GPa', '-', 'run#2']
NOISE = [' TTTTTTTTTTTTTTTTTTTTTTTTTTTTTT SYMM        TELAPSE        0.22 TCPU        0.10', '',
         ' *******************************************************************************', ' [ ... ]',
         ' CAPPA:IS1 12;IS2 12;IS3 12; K PTS MONK NET  72; SYMMOPS:K SPACE  48;G SPACE  48']


def tensor(rng):
    import numpy as np
    c = np.array([[rng.uniform(-80, 120) for _ in range(6)] for _ in range(6)])
    c = (c + c.T) / 2
    for i in range(6):
        c[i, i] = rng.choice([rng.uniform(5, 99), rng.uniform(100, 999), rng.uniform(1000, 1200)])
        if rng.random() < .06:
            c[i, i] = -rng.uniform(1, 60)   # a structure that is not stable
        for j in range(i):
            if rng.random() < .35:
                c[i, j] = c[j, i] = 0.
    return c


class Doc:
    """text and sections of an output"""
    def __init__(self, rng):
        self.rng, self.text, self.sections = rng, [], []

    def noise(self):
        for _ in range(self.rng.choice([0, 1, 3])):
            self.text.append(self.rng.choice(NOISE))

    def add(self, name, lines, **kw):
        self.noise()
        self.text += lines
        self.sections.append(dict(s=name, **kw))

    def table(self, name, head, rows, foot, spoiled, label=None, width=9, prec=3):
        """rows: printed numbers; spoiled: how the table is"""
        rng = self.rng
        txt = [['%*.*f' % (width, prec, x) for x in r] for r in rows]
        if spoiled == 'stars':
            i = rng.randrange(len(txt))
            txt[i][rng.randrange(len(txt[i]))] = '*' * width
        if spoiled == 'short':
            n = rng.randrange(0, 6)
            txt = txt[:n]
            if txt and rng.random() < .4 and len(txt[-1]) > 1:
                txt[-1] = txt[-1][:rng.randrange(1, len(txt[-1]))]
        out = []
        for i, r in enumerate(txt):
            if label:
                out.append(' ' + label[i] + '     ' + ''.join(r))
            else:
                cut = spoiled == 'short' and i == len(txt) - 1 and len(r) < 6 - i
                out.append(' |' + ' ' * (width * i) + ''.join(r) + ('' if cut else ' |'))
        if spoiled != 'short':
            out += foot
        self.add(name, head + out, rows=[[[] if '*' in w else V.R(float(w)) for w in r] for r in txt])


def crystal(rng, y):
    d = Doc(rng)
    sym = rng.choice(['CUBIC', 'HEXAGONAL', 'TRICLINIC', 'MONOCLINIC'])
    for k, s in enumerate(y['sections']):
        last = k == len(y['sections']) - 1
        spoiled = y['spoiled'] if last else 'none'
        if s in ('cell0', 'cell', 'cell2'):
            rho = '%.3f' % rng.uniform(.9, 22)
            vol = rng.uniform(10, 2000)
            d.add('cell', ['', ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.5291772083 ANGSTROM',
                           ' PRIMITIVE CELL - CENTRING CODE %d/0 VOLUME= %12.6f - DENSITY %6s g/cm^3' % (rng.randrange(1, 6), vol, rho),
                           '         A              B              C           ALPHA      BETA       GAMMA ',
                           '     2.98975014     2.98975014     2.98975014    60.000000  60.000000  60.000000'], rho=V.R(float(rho)))
        elif s == 'consistent':
            d.add(s, [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', ''])
        elif s == 'option':
            d.add(s, [' * ELASTCON OPTION, W.F. PERGER, B. CIVALLERI, R. DOVESI                *'])
        elif s == 'scf':
            d.add(s, [' == SCF ENDED - CONVERGENCE ON ENERGY      E(AU) -2.7546254270093E+02 CYCLES   9'])
        elif s == 'final':
            d.add(s, [' ************************', '                           FINAL RESULTS START', ' *********************'])
        elif s in ('constants', 'compliance'):
            c = tensor(rng)
            head = (['', ' SYMMETRIZED ELASTIC CONSTANTS FOR %-12sCASE, IN GPa' % sym, ''] if s == 'constants' else
                    ['', ' ELASTIC MODULI (COMPLIANCE TENSOR), IN TPa^-1', ''])
            d.table(s, head, [[c[i, j] for j in range(i, 6)] for i in range(6)], ['', ''], spoiled)
        elif s == 'end':
            d.add(s, [' EEEEEEEEEE TERMINATION  DATE 26 02 2020 TIME 10:02:56.6'])
    return d


def vasp(rng, y):
    d = Doc(rng)
    HEAD = {'moduli': '  ELASTIC MODULI  (kBar)', 'clamped': '  SYMMETRIZED ELASTIC MODULI (kBar)',
            'relaxation': ' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)', 'total': ' TOTAL ELASTIC MODULI (kBar)'}
    for k, s in enumerate(y['sections']):
        last = k == len(y['sections']) - 1
        if s == 'end':
            d.add(s, [' General timing and accounting informations for this job:'])
            continue
        c = 10 * tensor(rng)
        if s == 'moduli':
            c[0, 1] += 3.
        line = ' ' + '-' * 80
        d.table(s, ['', HEAD[s], ' Direction    XX          YY          ZZ          XY          YZ          ZX', line],
                [list(r) for r in c], [line, '', ''], y['spoiled'] if last else 'none', label=VASP, width=12, prec=4)
    return d


def title(rng):
    if rng.random() < .15:
        # nothing but numbers
        return ' '.join(rng.choice(['0', '25', '1.5', '-3', '2024', '300', '1e2']) for _ in range(rng.randrange(1, 6)))
    ws = [rng.choice(WORDS) for _ in range(rng.randrange(1, 5))]
    return ' '.join(ws)


def check(vq):
    import numpy as np
    import cli
    from quantas.IO.soec_reader import SOECInputFileReader
    from quantas.IO.soec_writer import SOECInputCreator
    sc = vq.scenarios('ElasticOutputDesign', 'SPECIFICATION Spec\nINVARIANT Meaning\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n')
    rng = vq.rng
    sc.sort(key=str)
    good = [y for y in sc if y['ok']]
    nearly = [y for y in sc if not y['ok'] and (y['spoiled'] != 'none' or 'constants' in y['sections'] or 'final' in y['sections'])]
    vq.log(len(sc), 'outputs', len(good), 'complete')
    pick = [rng.choice(g) for g in (good, good, nearly, sc) for _ in range(vq.pick(130, 1500))]
    rng.shuffle(pick)

    def observe(y, d, out, how, ttl, crash, error, before):
        now = open(out, 'rb').read() if os.path.exists(out) else None
        written = now is not None and now != before
        ev = dict(code=y['code'], doc=d.sections, how=how, title=ttl, crash=crash, error=error, written=written,
                  completed=False, job='', C=[], rho=[0, 0])
        if written:
            r = SOECInputFileReader(out)
            ev.update(completed=bool(r.completed))
            if r.completed:
                ev.update(job=str(r.jobname), C=V.RM(np.asarray(r.stiffness)), rho=V.R(r.density))
        vq.emit(**ev)
    k = 0
    n = 0
    while k < len(pick):
        creators, again = {}, []
        for y in pick[k:k + rng.choice([1, 2, 3, 4])]:
            k += 1
            n += 1
            d = (crystal if y['code'] == 'crystal' else vasp)(rng, y)
            how = rng.choice(['command', 'class', 'class-reused'])
            with vq.case('%s via %s, sections %s spoiled %s' % (y['code'], how, ' '.join(y['sections']), y['spoiled'])):
                folder = os.path.join(vq.scratch, 'g%d' % n)
                os.mkdir(folder)
                path = os.path.join(folder, 'job.out')
                with open(path, 'w') as f:
                    f.write('\n'.join(d.text) + rng.choice(['', '\n']))
                ttl = title(rng)
                if how == 'command':
                    if rng.random() < .5:
                        out, args = os.path.join(folder, 'job_soec_input.dat'), []
                    else:
                        out, args = os.path.join(folder, 'new.dat'), ['-o', os.path.join(folder, 'new')]
                    before = None
                    if rng.random() < .2:
                        before = b'kept\n'
                        open(out, 'wb').write(before)
                    r = cli.run(['inpgen', 'soec', path, '-i', y['code']] + args, ttl + '\n')
                    observe(y, d, out, how, ttl, r['crash'], 'shown' if r['error'] else '', before)
                else:
                    out = os.path.join(folder, 'lib.dat')
                    g = SOECInputCreator(y['code'])
                    if how == 'class-reused':
                        g = creators.setdefault(y['code'], g)
                    r = vq.attempt(g.read, path)
                    crash, error = '', ''
                    if r[0] == 'exc':
                        crash = '%s: %s' % r[1:]
                    elif not r[1][0]:
                        error = str(r[1][1] or '')
                    else:
                        g.write(out, ttl)
                        if how == 'class':
                            again.append((y, d, g, ttl))
                    observe(y, d, out, how, ttl, crash, error, None)
        for y, d, g, ttl in again:
            n += 1
            with vq.case('%s: written once more after others were generated' % y['code']):
                out = os.path.join(vq.scratch, 'again%d.dat' % n)
                g.write(out, ttl)
                observe(y, d, out, 'class', ttl, '', '', None)
                os.remove(out)
    vq.validate('ElasticOutputTrace')


if __name__ == '__main__':
    V.main(check, 'I02')
