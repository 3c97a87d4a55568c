"""R03: phonon input files (spec/PhononReader*.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vq as V


def number(rng, x, string=False):
    """(text, value); plain YAML floats need a point, strings do not"""
    t = rng.choice(['%.10f' % x, '%16.8f' % x, '%.12E' % x, '%.4f' % x, repr(float(x)), '%.3e' % x, '%d' % round(x)]).strip()
    if rng.random() < .1 and not t.startswith('-'):
        t = '+' + t
    return t, float(t)


def array(rng, xs, lay):
    """(yaml text after the colon, model node)"""
    ts = [number(rng, x) for x in xs]
    node = dict(lay=lay, items=[V.R(v) for _, v in ts])
    sp = rng.choice(['', ' ', '     '])
    if lay == 'list':
        return '[' + sp + (',' + rng.choice([' ', '   '])).join(t for t, _ in ts) + sp + ']', node
    if lay == 'string':
        gaps = rng.choice([[' '], ['   '], [' ', '  ', '    ']])
        return '[' + sp + ts[0][0] + ''.join(rng.choice(gaps) + t for t, _ in ts[1:]) + sp + ']', node
    return ts[0][0], node


def document(rng, s):
    """(yaml text, model document)"""
    n, nat, nq = s['n'], s['nat'], s['nq']
    if rng.random() < .3:
        nat = rng.choice([1, 2, 3, 5])
    if rng.random() < .5:
        nq = rng.choice([1, 2, 3, 4, 7])
    if n > 1 and rng.random() < .5:
        n = rng.choice([2, 3, 4, 5, 8, 12])
    if rng.random() < .5:
        m = [[rng.choice([-2, -1, 0, 1, 2, 3]) for _ in range(3)] for _ in range(3)]
    else:
        a = [rng.choice([1, 1, 2, 3, 4]) for _ in range(3)]
        m = [[a[i] if i == j else 0 for j in range(3)] for i in range(3)]
    ws = [rng.choice([1, 1, 2, 3, 6]) for _ in range(nq)]
    keys = set(s['keys'])
    parts = {}
    title = rng.choice(['MgO Gamma-point frequencies', 'Quasi-harmonic analysis of periclase (MgO)', '2019', '3.50', 'a', 'Run 7, PBE-D3',
                        'topaz & others'])
    parts['job'] = ['job: %s%s' % (title, rng.choice(['', '  ']))]
    if title == '3.50':
        title = '3.5'
    parts['natom'] = ['natom:   %d      ' % nat]
    parts['supercell'] = ['supercell:'] + ['- [ %6d, %6d, %6d ]' % tuple(r) for r in m]
    if rng.random() < .3:
        parts['supercell'] = ['supercell: [[%s], [%s], [%s]]' % tuple(', '.join(map(str, r)) for r in m)]
    qpoints = sum(ws) if s['total'] else nq
    parts['qpoints'] = ['qpoints: %d' % qpoints]
    t, vol = array(rng, [rng.uniform(10, 900) for _ in range(n)], s['lv'])
    parts['volume'] = ['volume: ' + t]
    t, en = array(rng, [rng.uniform(-2000, 10) for _ in range(n)], s['le'])
    parts['energy'] = ['energy: ' + t]
    ph, model = ['phonon:'], []
    for q in range(nq):
        w = ws[q]
        ph.append('- q-position: [ %12.7f, %12.7f, %12.7f ]' % tuple(rng.uniform(0, 1) for _ in range(3)))
        ph.append('  weight: %-5d' % w)
        ph.append('  band:')
        bands = []
        for b in range(3 * nat):
            lf = rng.choice(['list', 'string']) if rng.random() < .2 else s['lf']
            if lf == 'scalar' and n > 1:
                lf = 'list'
            t, node = array(rng, [rng.choice([rng.uniform(0, 1200), rng.uniform(-50, 50), 0.]) for _ in range(n)], lf)
            ph.append('  - # %d' % (b + 1))
            ph.append('    frequency: ' + t)
            bands.append(node)
        if rng.random() < .5:
            ph.append('')
        model.append(dict(weight=w, bands=bands))
    parts['phonon'] = ph
    order = ['job', 'natom', 'supercell', 'qpoints', 'volume', 'energy', 'phonon']
    if rng.random() < .4:
        rng.shuffle(order)
    text = []
    for k in order:
        if k in keys:
            text += parts[k]
        elif rng.random() < .4:      # the keyword without a value
            text.append(k + ':' + rng.choice(['', ' ', ' # to do']))
            if k in ('volume', 'energy', 'phonon') and rng.random() < .3:
                text[-1] = k + ': []'
            if k == 'job':
                text.pop()
    doc = dict(kind=s['kind'], keys=sorted(keys), title=title, natom=nat, supercell=m, qpoints=qpoints, volume=vol,
               energy=en, phonon=model)
    return '\n'.join(text) + rng.choice(['', '\n']), doc


def other(rng, kind, text):
    if kind == 'list':
        return '- a\n- volume\n- energy\n- phonon\n'
    if kind == 'text':
        return rng.choice(['hello', 'volume energy phonon', 'natom qpoints supercell volume energy phonon'])
    if kind == 'number':
        return rng.choice(['5', '3.2', '[]', 'true'])
    if kind == 'empty':
        return rng.choice(['', '\n\n', '# only a comment\n', '---\n'])
    if kind == 'broken':
        k = rng.randrange(4)
        return [text + '\nvolume: [ 1.0, 2.0\nenergy: 3', 'a: b: c\n' + text, '\tnatom: 2\n' + text, text + '\n}'][k]
    return None


def check(vq):
    import numpy as np
    from quantas.IO.qha_reader import QHAInputFileReader
    from quantas.harmonic.harmonic import HACalculator
    sc = vq.scenarios('PhononReaderDesign', 'SPECIFICATION Spec\nCONSTANT MaxVolumes = %d\nINVARIANT Faithful\nINVARIANT Emit\n'
                      'CHECK_DEADLOCK FALSE\n' % vq.pick(2, 3))
    rng = vq.rng
    sc.sort(key=str)
    sc = sc * vq.pick(1, 6) + [s for s in sc if s['kind'] != 'map'] * vq.pick(3, 5)
    rng.shuffle(sc)

    def observe(reader, doc, err):
        ev = dict(doc=doc, completed=bool(reader.completed), error=str(reader.error or ''), calc='' if err is None else str(err))
        if reader.completed:
            ev['seen'] = dict(title=str(reader.jobname), natoms=int(reader.natoms), qpoints=int(reader.qpoints), size=int(reader.kpoints),
                              nvol=int(reader.nvol), volume=V.RL(np.atleast_1d(reader.volume)), energy=V.RL(np.atleast_1d(reader.energy)),
                              weights=V.RL(reader.weights), freq=[V.RM(x) for x in reader.frequencies])
        vq.emit(**ev)
    k = 0
    while k < len(sc):
        batch = []
        for s in sc[k:k + rng.choice([1, 2, 3])]:
            k += 1
            text, doc = document(rng, s)
            raw = text.encode()
            if s['kind'] != 'map':
                t = other(rng, s['kind'], text)
                raw = bytes([0xff, 0xfe, 0x00, 0x81, 0xc3, 0x28]) + raw if t is None else t.encode()
            with vq.case('file %s %r' % (s, raw[:300])):
                path = os.path.join(vq.scratch, 'ph_%d.yaml' % k)
                with open(path, 'wb') as f:
                    f.write(raw)
                reader = QHAInputFileReader(path)
                err = describe_read(HACalculator, path)
                os.remove(path)
                observe(reader, doc, err)
                batch.append((k, reader, doc, err))
        for b in batch[:-1]:
            with vq.case('file %d after others were read' % b[0]):
                observe(*b[1:])
    vq.validate('PhononReaderTrace')


def describe_read(cls, path):
    from phonon import settings
    st = settings((0., 100., 50.))
    return cls(st).read_input(path)


if __name__ == '__main__':
    V.main(check, 'R03')
