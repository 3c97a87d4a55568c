"""X01: export of result files to text tables (spec/ExportSession*.tla, ExportTrace.tla)."""
import os, sys, io, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V
FREE = [['custom.txt', 'other.dat'], ['out 1.dat', '.hidden'], ['sub/t.dat', 'noext'], ['F.dat', 'x_F.dat']]
OLD = b'something of mine\n\x00\xff 12\n'


def result(vq, rng, kind, path, real):
    import results
    if not real:
        if kind == 'soec':
            results.elastic(rng, path)
        elif kind == 'seismic':
            results.seismic(rng, path)
        else:
            results.harmonic(rng, path, kind)
    elif kind == 'ha':
        import phonon as P
        from H01 import run_ha
        eu, fu, vu = rng.choice(['Ha', 'eV', 'Ry']), rng.choice(['cm^-1', 'THz']), rng.choice(['A', 'bohr'])
        ph = P.random_phonons(rng).to_units(eu, fu, vu)
        run_ha(vq, ph, P.settings((0., rng.uniform(10, 900), 120.), eu, fu, vu)).export_hdf5(path)
    elif kind == 'qha':
        import phonon as P
        from Q01 import crystal, conditions, run_qha, units
        while True:
            eu, fu, vu, tu, pu = units(rng)
            ph, pmax = crystal(rng)
            tr, pr = conditions(rng, tu, pu, pmax)
            c, _ = run_qha(vq, ph.to_units(eu, fu, vu), P.settings(tr, eu, fu, vu, tu, pr, pu, mini='poly'))
            if c.completed:
                c.export_hdf5(path)
                break
    elif kind == 'seismic':
        import elastic
        import contextlib, types
        if 'quantas.core.plotter' not in sys.modules:
            try:
                import quantas.core.plotter
            except ImportError:   # not part of the package: the base class of the plots only
                m = types.ModuleType('quantas.core.plotter')
                m.BasicPlotter = type('BasicPlotter', (object,), {})
                sys.modules['quantas.core.plotter'] = m
        from quantas.seismic.seismic import SeismicCalculator
        dat = path + '.dat'
        elastic.write(dat, 'crystal', elastic.matrix(rng, rng.choice(elastic.KINDS)), 3500.)
        c = SeismicCalculator(dict(silent=True, debug=False, logfile=None, ntheta=rng.choice([2, 3]), nphi=rng.choice([2, 3, 5]), pressure_unit='GPa', plotting=False))
        assert c.read_input(dat) is None
        with open(os.devnull, 'w') as f, contextlib.redirect_stdout(f):
            c.run()
            c.export_hdf5(path)
        os.remove(dat)
    else:
        import elastic
        from quantas.soec.soec import SOECCalculator
        dat = path + '.dat'
        elastic.write(dat, 'crystal', elastic.matrix(rng, rng.choice(elastic.KINDS)), rng.choice([0., 3500.]))
        c = SOECCalculator(dict(polar=True, silent=True, debug=False, logfile=None, pressure_unit='GPa', plotting=False))
        assert c.read_input(dat) is None
        c.run()
        c.export_hdf5(path)
        os.remove(dat)


def foreign(vq, rng, path, command, shape, good):
    import h5py, results
    if shape in good:
        shutil.copy(good[shape], path)
    elif shape == 'text':
        open(path, 'w').write(rng.choice(['job: x\nnatom: 2\n', 'not a result', '\x89HDF but not\n']))
    elif shape == 'empty':
        open(path, 'w').close()
    elif shape == 'directory':
        os.mkdir(path)
    elif shape == 'truncated':
        b = open(good[command], 'rb').read()
        open(path, 'wb').write(b[:rng.randrange(100, len(b) - 1)])
    elif shape == 'nopolar':
        results.elastic(rng, path, polar=False)
    else:
        shutil.copy(good[command], path)
        with h5py.File(path, 'a') as f:
            if shape == 'noinfo':
                del f.attrs['info']
            elif shape == 'nodata':
                for k in list(f):
                    del f[k]
            elif shape == 'nounit':
                k = rng.choice([k for k in f if command != 'soec' or k.startswith('polar')])
                del f[k].attrs['unit']
            elif shape == 'group':
                k = rng.choice(['primary'] if command == 'seismic' else [k for k in f if command != 'soec' or k.startswith('polar') or k == 'stiffness'])
                del f[k]
                f.create_group(k).create_dataset('a', data=[1., 2.])


def text_of(rng, a, base, sel, names):
    if a == 'y':
        return rng.choice(['y', 'Y', 'yes', 'YES'])
    if a == 'n':
        return rng.choice(['n', 'N', 'no', 'No'])
    if a == 'enter':
        return ''
    if a == 'bad':
        return rng.choice(['zz', '?', 'polar', 'T', 'P', '1'])
    return names.get(a, a)


def check(vq):
    import click
    import results
    import cli as C
    from click.testing import CliRunner
    from quantas.harmonic.utils.export import QuantasHarmonicExport
    from quantas.qha.utils.export import QuantasQHAExport
    from quantas.soec.utils.export import QuantasSOECExport
    from quantas.seismic.utils.export import QuantasSeismicExport
    classes = dict(seismic=QuantasSeismicExport, ha=QuantasHarmonicExport, qha=QuantasQHAExport, soec=QuantasSOECExport)
    rng = vq.rng
    base = ('SPECIFICATION Spec\nCONSTANT MaxAnswers = %d\nCONSTANT Deep = %s\nINVARIANT Kept\nINVARIANT Chosen\nINVARIANT Replayable\nCHECK_DEADLOCK FALSE\n')
    vq.check_design('ExportSessionDesign', base % (vq.pick(10, 14), 'TRUE') + 'PROPERTY OneFile\nPROPERTY Affirmed\nVIEW View\n', 'every dialogue', workers=8)
    sc = vq.scenarios('ExportSessionDesign', base % (vq.pick(5, 6), 'FALSE') + 'INVARIANT Emit\n', 'short dialogues')
    sc = [s for s in sc if s['answers']]
    ends = [s for s in sc if s['phase'] == 'end']
    cut = [s for s in sc if s['phase'] != 'end' and len(s['answers']) == vq.pick(5, 6)]
    walks = vq.scenarios('ExportSessionDesign', base % (16, 'TRUE') + 'INVARIANT Emit\n', 'long dialogues', simulate=('num=%d' % vq.pick(400, 4000), 17))
    long_ = [s for s in walks if len(s['answers']) > 5 and s['phase'] == 'end']
    for x in (ends, cut, long_):
        x.sort(key=str)
        rng.shuffle(x)
    todo = ends[:vq.pick(420, 3000)] + cut[:vq.pick(80, 600)] + long_[:vq.pick(150, 1500)]
    rng.shuffle(todo)
    vq.log(len(ends), len(cut), len(long_), 'dialogues;', len(todo), 'replayed')
    # every dataset of every kind is exported
    deck = []
    kept, keep_n = {}, 0
    n = k = 0
    while k < len(todo):
        group = todo[k:k + rng.choice([1, 1, 2])]
        kind0 = rng.choice(['ha', 'qha', 'soec', 'seismic'])
        lot = []
        for s in group:
            k += 1
            n += 1
            kind = kind0 if rng.random() < .8 else rng.choice(['ha', 'qha', 'soec', 'seismic'])
            folder = os.path.join(vq.scratch, 'x%d' % n)
            os.makedirs(os.path.join(folder, 'sub'))
            src = rng.choice(['run_HA.hdf5', 'a.b.hdf5', 'result', 'MgO_QHA.hdf5'])
            path = os.path.join(folder, src)
            with vq.case('result file of ' + kind, 60):
                result(vq, rng, kind, path, n <= 4 * vq.pick(6, 60))
            if not os.path.exists(path):
                continue
            h = results.read(kind, path)
            if not deck:
                deck = [(kd, q) for kd in ('ha', 'qha', 'soec', 'seismic') for q in (results.SEISMIC if kd == 'seismic' else results.HA + ['U0'] if kd == 'ha' else results.QHA if kd == 'qha' else list(results.WIDTH))]
                rng.shuffle(deck)
            pick = [q for kd, q in deck if kd == kind and q in h['offered']][:2]
            deck = [x for x in deck if not (x[0] == kind and x[1] in pick)]
            while len(pick) < 2:
                q = rng.choice(h['offered'])
                if q not in pick:
                    pick.append(q)
            k1, k2 = pick
            free = rng.choice(FREE)
            full = os.path.join(folder, os.path.splitext(src)[0])
            names = {'n1': free[0], 'n2': free[1], 'src': src, 'd_k1': os.path.splitext(src)[0] + '_' + k1 + '.dat', 'd_k2': os.path.splitext(src)[0] + '_' + k2 + '.dat'}
            if len(set(names.values())) < 5:
                names['n1'], names['n2'] = 'custom.txt', 'other.dat'
            for t in names:
                if s['pre'][t] == 'old' and t != 'src':
                    open(os.path.join(folder, names[t]), 'wb').write(OLD)
            before = {os.path.join(d, f): open(os.path.join(d, f), 'rb').read() for d, _, fs in os.walk(folder) for f in fs}
            lot.append(dict(s=s, kind=kind, folder=folder, path=path, src=src, h=h, k=dict(k1=k1, k2=k2), names=names, before=before))
        # the exporters are all loaded before the first dialogue, or each is a command of its own
        objects = len(lot) == 2 or rng.random() < .2
        made = []
        for g in lot:
            label = '%s %s: %s with %s' % (g['kind'], ' '.join(g['k'].values()), ' '.join(g['s']['answers']), ' '.join(t for t in g['names'] if g['s']['pre'][t]))
            with vq.case(('object: ' if objects else 'command: ') + label, 30):
                if objects:
                    x = classes[g['kind']]()
                    x.load(g['path'])
                    if x.error is not None:
                        raise RuntimeError(x.error)
                    made.append(x)
                else:
                    made.append(None)
        for g, x in zip(lot, made):
            s = g['s']
            label = '%s %s: %s with %s' % (g['kind'], ' '.join(g['k'].values()), ' '.join(s['answers']), ' '.join(t for t in g['names'] if s['pre'][t]))
            with vq.case(('object: ' if objects else 'command: ') + label + ' run', 30):
                said = []
                for a in s['answers']:
                    if a in ('k1', 'k2'):
                        said.append(g['k'][a])
                    elif a in g['names']:
                        nm = g['names'][a]
                        said.append(os.path.join(g['folder'], nm) if objects or rng.random() < .3 else nm)
                    else:
                        said.append(text_of(rng, a, g['src'], None, {}))
                inp = ''.join(t + '\n' for t in said)
                if objects:
                    r = CliRunner().invoke(click.Command('x', callback=x.run), [], input=inp)
                    crash = '' if r.exception is None or isinstance(r.exception, SystemExit) else repr(r.exception)
                    out = r.output
                else:
                    r = C.run(['export', g['kind'], g['path'] if rng.random() < .5 else g['src']], inp, cwd=g['folder'])
                    crash, out = r['crash'], r['out']
                real = lambda t: t.replace('k1', g['k']['k1']).replace('k2', g['k']['k2']) if t.startswith('d_') else g['k'].get(t, t)
                files = {}
                after = {os.path.join(d, f): open(os.path.join(d, f), 'rb').read() for d, _, fs in os.walk(g['folder']) for f in fs}
                for t, nm in g['names'].items():
                    p = os.path.join(g['folder'], nm)
                    rec = dict(content='')
                    if p in after:
                        if after[p] == g['before'].get(p):
                            rec = dict(content='old')
                        else:
                            try:
                                tb = results.table(g['kind'], after[p].decode('utf8'))
                                rec = dict(content='table', title=tb['title'], unit=tb['unit'], xlabel=tb['xlabel'], ylabel=tb['ylabel'], planes=tb['planes'],
                                           y=V.RL(tb['y']), x=[V.R(v[0]) if v else [] for v in tb['x']], rows=[V.RL(v) for v in tb['rows']])
                            except Exception as exc:
                                rec = dict(content='unreadable: %r' % exc)
                    files[real(t)] = rec
                expected = set(os.path.join(g['folder'], nm) for nm in g['names'].values())
                others = sorted(p for p in set(after) | set(g['before']) if p not in expected)
                m = re.search(r'Select data to export \(([^)]*)\)', out)
                h = g['h']
                data = {q: dict(x=V.RL(h['data'][q]['x']), values=V.RL(h["data"][q]["values"].reshape(-1)) if h['data'][q]['flat'] else V.RM(h['data'][q]['values']),
                                unit=h['data'][q]['unit'], flat=bool(h['data'][q]['flat'])) for q in g['k'].values()}
                vq.emit(what='session', kind=g['kind'], pre={real(t): s['pre'][t] for t in g['names']}, answers=[real(a) for a in s['answers']],
                        offered=h['offered'], shown=[t.strip() for t in m.group(1).split(',')] if m else [], crash=crash, others=others, files=files,
                        xunit=h['xunit'], yunit=h['yunit'], y=V.RL(h['y']), data=data)
            if g['kind'] not in kept or rng.random() < .05:
                keep_n += 1
                kept[g['kind']] = os.path.join(vq.scratch, 'good%d' % keep_n)
                open(kept[g['kind']], 'wb').write(g['before'][g['path']])
            shutil.rmtree(g['folder'])
    # files that are not results of that kind
    shapes = ['text', 'empty', 'directory', 'truncated', 'noinfo', 'nodata', 'nounit', 'group', 'nopolar', 'ha', 'qha', 'soec', 'seismic']
    for rep in range(vq.pick(4, 40)):
        for command in ('ha', 'qha', 'soec', 'seismic'):
            for shape in shapes:
                if command == 'seismic' and shape == 'nounit':
                    continue   # they have none
                n += 1
                folder = os.path.join(vq.scratch, 'r%d' % n)
                os.mkdir(folder)
                p = os.path.join(folder, 'file.hdf5')
                with vq.case('export %s of a file: %s' % (command, shape), 20):
                    foreign(vq, rng, p, command, shape, kept)
                    before = {f: open(os.path.join(folder, f), 'rb').read() if os.path.isfile(os.path.join(folder, f)) else None for f in os.listdir(folder)}
                    r = C.run(['export', command, p], rng.choice(['', 'F\nn\n', 'E\nn\n', 'primary\nn\n']) if shape != command else '', cwd=folder)
                    after = {f: open(os.path.join(folder, f), 'rb').read() if os.path.isfile(os.path.join(folder, f)) else None for f in os.listdir(folder)}
                    vq.emit(what='refusal', command=command, shape=shape, error=r['error'], crash=r['crash'], changed=before != after)
                shutil.rmtree(folder)
    vq.validate('ExportTrace')


if __name__ == '__main__':
    V.main(check, 'X01')
