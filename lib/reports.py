"""Reads the reports of the program: the parts in their order and every figure shown."""
import re

PARTS = [
    ('calculator', r'^Calculator: '), ('approach', r'^Quasi-Harmonic Approximation approach'),
    ('polynomial', r'^Polynomial fitting settings'), ('temperature', r'^Temperature settings'),
    ('pressure', r'^Pressure settings'), ('units', r'^Measurement units'), ('reading', r'^Reading input file'),
    ('job', r'^(Job: |Elastic analysis of |Analysis of the sound velocities in )'), ('system', r'^System:'),
    ('volumes', r'^Volume and energy values'), ('eos-parameters', r'^EoS fitting parameters for static energy'),
    ('eos-warning', r'^WARNING! EoS fit'), ('start', r'^#-+.*started-+#'), ('zero-point', r'^ - Start calculation of zero-point'),
    ('thermal', r'^ - Start calculation of thermal'), ('entropy', r'^ - Start calculation of entropy'),
    ('heat-capacity', r'^ - Start calculation of isochoric'), ('vibrational', r'^ - Start calculation of vibrational'),
    ('total', r'^ - Calculate total'), ('end', r'^#-+.*(finished|ended)-+#'),
    ('frequency-fit', r'^ - Fitting frequency'), ('free-energy', r'^ - Calculation of harmonic Helm'),
    ('harmonic', r'^ - Calculation of harmonic thermodynamic'), ('minimisation', r'^ - Volume minimization using'),
    ('properties', r'^ - Calculation of quasi-harmonic'),
    ('regression', r'^ - Polynomial regression'), ('interpolation', r'^ - Thermodynamic interpolation'),
    ('bulk-modulus', r'^ +- Calculation of bulk modulus'), ('few-temperatures', r'^ - WARNING! The calculation of'),
    ('expansion', r'^ +- Calculation of volumetric'), ('isobaric', r'^ +- Calculation of isobaric'),
    ('adiabatic', r'^ +- Calculation of adiabatic'), ('gruneisen', r'^ +- Calculation of Gruneisen'), ('enthalpy', r'^ - Calculation of enthalpy'),
    ('results', r'^# Results at '), ('stiffness', r'^Stiffness matrix'), ('compliance', r'^Compliance tensor'),
    ('averages', r'^Average properties'), ('velocities', r'^Average \(VRH\) wave'), ('eigenvalues', r'^Eigenvalues of the'),
    ('young-compressibility', r'.*E_min'), ('shear-poisson', r'.*G_min'), ('waves', r'.*V_s1 '),
    ('polar', r'^ - Calculation of polar'), ('time', r'^Calculation time'), ('figures', r'^Plotting results'),
    ('saved', r'^Calculated data exported to'), ('cite-quantas', r'^For the base use'), ('cite-method', r'^(For .*)?please cite:'),
    ('finish', r'^Thank you for using'), ('error', r'^_{31} _{8} _{10}\._\.'),
]
PARTS = [(k, re.compile(v)) for k, v in PARTS]


def outline(lines):
    out = []
    for ln in lines:
        for k, rx in PARTS:
            if rx.match(ln):
                out.append(k)
                break
    return out


def section(lines, title):
    """rows ' - key: value' under an underlined title"""
    for i, ln in enumerate(lines):
        if ln.startswith(title) and i + 1 < len(lines) and lines[i + 1].startswith('---'):
            rows = []
            for r in lines[i + 2:]:
                if not r.startswith(' - '):
                    break
                k, v = r[3:].split(':', 1)
                rows.append((k.strip(), v.strip()))
            return rows
    return []


def after(lines, start, default=''):
    for ln in lines:
        if ln.startswith(start):
            return ln[len(start):].strip()
    return default


def num(s):
    try:
        return float(s)
    except ValueError:
        return float('nan')


def compact(s):
    """value(error): value, error, unit of the last digit shown"""
    m = re.match(r'^([^()]+)\(([^()]+)\)$', s.strip())
    if not m:
        return None
    v, e = m.groups()
    if re.match(r'^\d+$', e) and re.match(r'^[-+]?\d+(\.\d*)?$', v):
        nd = len(v.split('.')[1]) if '.' in v else 0
        return dict(v=num(v), s=int(e) * 10. ** -nd, unit=10. ** -nd)
    if re.match(r'^\d+$', e) and re.match(r'^[-+]?\d+(\.\d*)?[eE][-+]?\d+$', v):
        man, ex = re.split('[eE]', v)
        nd = (len(man.split('.')[1]) if '.' in man else 0) - int(ex)
        return dict(v=num(v), s=int(e) * 10. ** -nd, unit=10. ** -nd)
    return dict(v=num(v), s=num(e), unit=0.)


def heads(line):
    return [re.sub(r'\s+', ' ', x) for x in re.findall(r'[^\s(]+(?:\(T\))?\s+\([^)]*\)', line)]


def table(lines, k):
    """(headings, rows) of the table whose headings are at line k"""
    rows = []
    for ln in lines[k + 2:]:
        if not ln.strip():
            break
        rows.append(ln.split())
    return heads(lines[k]), rows


def phonon(text):
    """the figures in a report of a harmonic or quasi-harmonic run"""
    lines = text.split('\n')
    out = dict(outline=outline(lines))
    t = section(lines, 'Temperature settings')
    out['tset'], out['tsetu'] = [num(v.split()[0]) for k, v in t], [v.split()[1] for k, v in t]
    out['tkeys'] = [k for k, v in t]
    t = section(lines, 'Pressure settings')
    out['pset'], out['psetu'] = [num(v.split()[0]) for k, v in t], [v.split()[1] for k, v in t]
    u = dict(section(lines, 'Measurement units'))
    out['units'] = [u[k] for k in ('energy', 'lenght', 'frequency', 'temperature', 'pressure') if k in u]
    p = dict(section(lines, 'Polynomial fitting settings'))
    out['poly'] = [int(p[k]) for k in ('energy', 'frequency') if k in p]
    a = dict(section(lines, 'Quasi-Harmonic Approximation approach'))
    out['approach'] = [a[k] for k in ('scheme', 'volume minimization', 'EoS formulation', "use Kieffer's approach") if k in a]
    out['jobshown'] = after(lines, 'Job: ')
    out['counts'] = [num(after(lines, '- ' + k, 'nan')) for k in ('Number of volumes', 'Number of atoms',
                                                                'Number of sampled k-points', 'Number of frequencies')]
    out['vhead'], out['vtab'] = [], []
    for i, ln in enumerate(lines):
        if ln.startswith('Volume and energy values'):
            k = next(j for j in range(i + 1, len(lines)) if 'Volume (' in lines[j])
            out['vhead'], rows = table(lines, k)
            out['vtab'] = [[num(x) for x in r] for r in rows]
    out['parnames'], out['pars'] = [], []
    for i, ln in enumerate(lines):
        if ln.startswith('EoS fitting parameters for static'):
            for r in lines[i + 1:]:
                if ' = ' not in r:
                    break
                n, v = r.split(' = ')
                out['parnames'].append(n.strip())
                out['pars'].append(compact(v) or dict(v=float('nan'), s=float('nan'), unit=0.))
    out['r2'], out['r2mean'], band = [], [], -1
    for ln in lines:
        m = re.match(r'^ - Band # (\d+)', ln)
        if m:
            band = int(m.group(1))
        m = re.match(r'^ +\* Frequency +(\d+): R\^2 = (\S+)\s+(\S+)', ln)
        if m:
            out['r2'].append(dict(band=band, freq=int(m.group(1)), r2=num(m.group(2)), word=m.group(3)))
        m = re.match(r'^ +Averaged R\^2: (\S+)', ln)
        if m:
            out['r2mean'].append(num(m.group(1)))
    out['res'] = []
    for i, ln in enumerate(lines):
        m = re.match(r'^# Results at (\S+) (\S+)', ln)
        if m:
            k = next(j for j in range(i + 2, len(lines)) if lines[j].strip())
            h, rows = table(lines, k)
            out['res'].append(dict(p=num(m.group(1)), unit=m.group(2), heads=h, rows=[[num(x) for x in r] for r in rows]))
    return out


def matrices(text):
    lines = text.split('\n')
    out = dict(outline=outline(lines), units=[v for k, v in section(lines, 'Measurement units')])
    job = [ln for ln in lines if re.match(r'^(Elastic analysis of |Analysis of the sound velocities in )', ln)]
    out['jobshown'] = re.sub(r'^(Elastic analysis of |Analysis of the sound velocities in )', '', job[0]).strip() if job else ''
    d = after(lines, 'Density: ')
    out['rhoshown'] = [] if not d or d == 'not provided' else [num(d.split()[0])]
    out['rhounit'] = ' '.join(d.split()[1:]) if out['rhoshown'] else ''
    for k, t in (('Cs', 'Stiffness matrix (values in GPa)'), ('Ss', 'Compliance tensor (values in TPa^-1)')):
        out[k] = []
        for i, ln in enumerate(lines):
            if ln.startswith(t):
                out[k] = [[num(x) for x in r.split()] for r in lines[i + 1:i + 7]]
    out['figures'] = [re.match(r'^ - figure (.*) generated$', ln).group(1) for ln in lines if re.match(r'^ - figure .* generated$', ln)]
    return out


def eosdata(text):
    lines = text.split('\n')
    out = dict(jobshown=after(lines, 'Job: '), heads=[], rows=[])
    for i, ln in enumerate(lines):
        if 'P (GPa)' in ln:
            out['heads'], rows = table(lines, i)
            out['rows'] = [[[] if x == '--' else [num(x)] for x in r] for r in rows]
            break
    out['weights'] = [ln[len(' - Found weights for '):].strip() for ln in lines if ln.startswith(' - Found weights for ')]
    return out
