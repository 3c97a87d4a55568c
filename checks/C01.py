"""C01: command lines of the calculation commands (spec/Command*.tla)."""
import os, sys, io, re, json, shutil, hashlib, contextlib, multiprocessing, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V

TEXTS = ['MgO periclase\n1 2 3\n', 'a: b\nc: [1, 2\n', '# nothing\n\n\n', 'job\nformat\nx y\ndata\n', 'qpoints: three\nnatom: 2\n', '{}\n', '- 1\n- 2\n', 'title\n1 2 3 4 5\n6 7 8\n', '\n' * 12, '\ntitle\n' + '1 2 3 4 5 6\n' * 6]


def options(rng, cmd, ranges, tame):
    """options of one run as name -> text"""
    o = {}
    if cmd in ('ha', 'qha'):
        for k, vals in (('eunit', ['Ha', 'eV', 'Ry']), ('vunit', ['A', 'bohr']), ('funit', ['cm-1', 'THz', 'Hz']), ('tunit', ['K', 'C'])):
            if rng.random() < .5:
                o[k] = rng.choice(vals)
    if cmd == 'qha':
        for k, vals, p in (('punit', ['GPa', 'kbar'], .5), ('scheme', ['td', 'freq'], .6), ('minimization', ['poly', 'eos'], .6), ('eos', ['M', 'BM', 'PT', 'V'], .6),
                           ('edeg', ['2', '3', '4', '5'], .5), ('fdeg', ['2', '3', '4', '5'], .5)):
            if rng.random() < p:
                o[k] = rng.choice(vals)
        if rng.random() < .07:
            o['acoustic'] = 'yes'
    if cmd == 'soec':
        if rng.random() < .6:
            o['polar'] = 'yes'
        if rng.random() < .3:
            o['punit'] = 'GPa'
    if cmd == 'eosfit':
        for k, v in (('punit', 'GPa'), ('vunit', 'A')):
            if rng.random() < .3:
                o[k] = v
    return o


def trange(rng, o, bad):
    off = 273.15 if o.get('tunit') == 'C' else 0.
    if bad:
        return rng.choice([(300., 300., 0.), (300., 200., 10.), (0., 100., -5.), (-50. - off, 100. - off, 25.), (float('nan'), 100., 10.), (0., float('inf'), 10.), (10., 20., float('nan'))])
    n = rng.choice([1, 2, 3, 5])
    t0, dt = rng.choice([0., 10., round(rng.uniform(1, 500), 2)]), rng.choice([1., 50., 12.5, round(rng.uniform(5, 200), 1)])
    t0 = round(t0 - off, 2) if t0 else (-273.15 if off else 0.)
    return (t0, t0 + dt * (n - 1) + .2 * dt * rng.random(), dt)


FLAG = dict(eunit='--eunit', vunit='--vunit', funit='--funit', tunit='--tunit', punit='--punit', scheme=('-s', '--scheme'), minimization=('-m', '--minimization'), eos='--eos',
            edeg='--edeg', fdeg='--fdeg', acoustic=('-a', '--acoustic'), polar='--polar', temperature=('-T', '--temperature'), pressure=('-P', '--pressure'))


def command(rng, run, o, quiet):
    parts = []
    for k, v in o.items():
        f = FLAG[k]
        f = rng.choice(f) if isinstance(f, tuple) else f
        if k in ('acoustic', 'polar'):
            parts.append([f])
        elif k in ('temperature', 'pressure'):
            parts.append([f] + v.split())
        else:
            parts.append([f, v])
    if run['out']:
        parts.append([rng.choice(['-o', '--outfile']), run['out']])
    if run['plot']:
        parts.append([rng.choice(['-p', '--plot'])])
        if rng.random() < .5:
            parts.append(['--dpi', str(rng.choice([20, 50, 72]))])
    if quiet:
        parts.append([rng.choice(['-q', '--quiet'])])
    if run['debug']:
        parts.append([rng.choice(['-d', '--debug'])])
    parts.append([run['stem'] + run['ext']])
    rng.shuffle(parts)
    cmd = run['cmd']
    u = run['usage']
    if u == 'command':
        cmd = rng.choice([cmd + 'x', cmd[:-1] + 'z', 'xyz', cmd.upper()])
    elif u == 'missing':
        parts = [p for p in parts if p != [run['stem'] + run['ext']]]
    elif u == 'number' and cmd in ('ha', 'qha'):
        parts.append(rng.choice([['-T', '0', '100', 'x'], ['-T', 'a', 'b', 'c']]))
    elif u == 'number' and cmd == 'soec':
        parts.append(rng.choice([['--dpi', '0'], ['--dpi', 'x'], ['--dpi', '-3']]))
    elif u == 'degree' and cmd == 'qha':
        parts.append(rng.choice([['--edeg', '1'], ['--edeg', '6'], ['--fdeg', '7'], ['--fdeg', '0'], ['--edeg', '3.5']]))
    elif u == 'choice':
        parts.append({'ha': ['--eunit', 'kJ'], 'qha': rng.choice([['--eos', 'bm'], ['--punit', 'Pa'], ['-s', 'x'], ['-m', 'bfgs'], ['--funit', 'cm^-1']]), 'soec': ['--punit', 'kbar'], 'eosfit': ['--vunit', 'nm']}[cmd])
    elif u:
        parts.append(['--nope'])
    return [cmd] + [t for p in parts for t in p]


def content(path):
    if os.path.isdir(path):
        return 'dir'
    with open(path, 'rb') as f:
        return hashlib.sha1(f.read()).hexdigest()[:10]


def snapshot(folder):
    out = {}
    for d, ds, fs in os.walk(folder):
        for n in ds + fs:
            p = os.path.join(d, n)
            out[os.path.relpath(p, folder)] = content(p)
    return out


def datasets(path):
    """identifiers of everything a result file holds"""
    import h5py
    import numpy as np
    out = {}
    with h5py.File(path, 'r') as f:
        out['info'] = hashlib.sha1(str(f.attrs['info']).encode()).hexdigest()[:10]
        for k in f:
            a = np.asarray(f[k])
            at = {q: str(f[k].attrs[q]) for q in sorted(f[k].attrs)}
            out[k] = hashlib.sha1((str(a.shape) + str(a.dtype) + json.dumps(at)).encode() + a.tobytes()).hexdigest()[:10]
    return out


def settings(cmd, o):
    """(as the specification states them, as the classes take them)"""
    s = {}
    if cmd in ('ha', 'qha'):
        s = dict(trange=o.get('temperature', '298.15 298.15 1.0'), energy_unit=o.get('eunit', 'Ha'), lenght_unit=o.get('vunit', 'A'),
                 frequency_unit={'cm-1': 'cm^-1'}.get(o.get('funit', 'cm-1'), o.get('funit')), temperature_unit=o.get('tunit', 'K'))
    if cmd == 'qha':
        s.update(prange=o.get('pressure', '0.0 0.0 1.0'), pressure_unit=o.get('punit', 'GPa'), qha_scheme=o.get('scheme', 'td'), minimization=o.get('minimization', 'poly'),
                 kieffer='yes' if 'acoustic' in o else 'no', edeg=o.get('edeg', '3'), fdeg=o.get('fdeg', '3'), eos=o.get('eos', 'BM'),
                 eos_function=dict(M='murnaghan', BM='birchmurnaghan', PT='pouriertarantola', V='vinet')[o.get('eos', 'BM')])
    if cmd == 'soec':
        s = dict(pressure_unit=o.get('punit', 'GPa'), polar='yes' if 'polar' in o else 'no')
    if cmd == 'eosfit':
        s = dict(pressure_unit=o.get('punit', 'GPa'), lenght_unit=o.get('vunit', 'A'))
    real = {}
    for k, v in s.items():
        real[k] = tuple(float(t) for t in v.split()) if k in ('trange', 'prange') else int(v) if k in ('edeg', 'fdeg') else v == 'yes' if k in ('kieffer', 'polar') else v
    return s, real


def reference(cmd, path, real, scratch):
    """(completed, identifiers of the results) of the same analysis with the classes"""
    real = dict(real, silent=True, debug=False, logfile=None)
    try:
        if cmd == 'ha':
            from quantas.harmonic.harmonic import HACalculator as C
        elif cmd == 'qha':
            from quantas.qha.qha import QHACalculator as C
        elif cmd == 'soec':
            from quantas.soec.soec import SOECCalculator as C
            real.update(plotting=False, dpi=80, outfig=None)
        else:
            return True, {}
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                c = C(real)
            except ValueError:
                return False, {}
            if c.read_input(path) is not None:
                return False, {}
            c.run()
            if not c.completed:
                return False, {}
            out = os.path.join(scratch, 'reference.hdf5')
            if os.path.exists(out):
                os.remove(out)
            c.export_hdf5(out)
        return True, datasets(out)
    except Exception:
        return False, {}


def lines(text, ids):
    """numbers of the lines (without questions; times masked)"""
    import click
    res = []
    for ln in click.unstyle(text).splitlines():
        ln = ln.strip()
        if not ln or '[y/N]' in ln or ln in ('Aborted!', 'Error: invalid input'):
            continue
        if 'time' in ln:
            ln = ' '.join(re.sub(r'[-+]?\d[\d.e+-]*', '#', ln).split())
        res.append(ids.setdefault(ln, len(ids)))
    return res


def populate(rng, folder, runs, disk, optlist):
    """the files of the directory; the units of a phonon file are those asked for by its first run"""
    import elastic
    from Q01 import crystal
    from E03 import datafile
    info = {}
    for name, kind in sorted(disk.items(), key=lambda t: (t[1] != 'dir', t)):
        p = os.path.join(folder, name)
        if kind == 'dir':
            os.makedirs(p, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if kind in ('phonons', 'few'):
            o = next((q for r, q in zip(runs, optlist) if r['stem'] + r['ext'] == name and r['cmd'] in ('ha', 'qha')), {})
            ph, pmax = crystal(rng, nv=None if kind == 'phonons' else 3, natom=1, nq=rng.choice([1, 2]))
            ph.to_units(o.get('eunit', 'Ha'), {'cm-1': 'cm^-1'}.get(o.get('funit', 'cm-1'), o.get('funit')), o.get('vunit', 'A')).write(p)
            info[name] = pmax
        elif kind in ('elastic', 'unstable', 'singular'):
            rho = rng.choice([0., round(rng.uniform(1500, 9000), 1)])
            if kind == 'singular':
                c = [[0.] * 6 for _ in range(6)]
                for k in range(rng.randrange(6)):
                    c[k][k] = 100.
            else:
                c = elastic.unstable(rng) if kind == 'unstable' else elastic.matrix(rng, rng.choice(elastic.KINDS))
            elastic.write(p, 'crystal', c, rho)
            info[name] = rho
        elif kind == 'pv':
            with open(p, 'w') as f:
                f.write(datafile(rng, ['v'], [])[0])
        else:
            with open(p, 'wb') as f:
                f.write({'binary': rng.choice([b'\x89HDF\r\n\x1a\n\xff\xfe\x00' * 20, bytes(rng.randrange(256) for _ in range(300)) + b'\xff\xfe']), 'empty': b'',
                         'words': rng.choice(TEXTS).encode()}[kind])
    return info


def reply(rng, run):
    if run['cmd'] == 'eosfit':
        # one fit with the proposed parameters, then the end
        return 'v\n%s\n' % rng.choice(['1\n3', '2\n2', '2\n3', '3\n3', '4\n3']) + 'n\n' * 5 if run['answers'] else ''
    t = {'y': ['y', 'Y', 'yes'], 'n': ['n', 'N', 'no'], 'enter': [''], 'bad': ['maybe', '1', 'o']}
    return ''.join(rng.choice(t[a]) + '\n' for a in run['answers'])


def session(job):
    import cli as C
    seed, runs, disk, root = job
    rng = random.Random(seed)
    folder = os.path.join(root, 'dir')
    os.makedirs(folder)
    optlist, quietlist = [], []
    for r in runs:
        r['usage'] = r['usage'] or ''
        o = options(rng, r['cmd'], r['ranges'], False)
        r['debug'] = rng.random() < .2
        r['plot'] = r['cmd'] == 'soec' and rng.random() < .7
        optlist.append(o)
    info = populate(rng, folder, runs, disk, optlist)
    steps, ids = [], {}
    for r, o in zip(runs, optlist):
        name = r['stem'] + r['ext']
        first = next((q for s, q in zip(runs, optlist) if s['stem'] + s['ext'] == name and s['cmd'] in ('ha', 'qha')), None)
        if first is not None and first is not o and r['cmd'] in ('ha', 'qha'):
            # the file has one set of units
            for k in ('eunit', 'vunit', 'funit'):
                o.pop(k, None)
                if k in first:
                    o[k] = first[k]
        ranges = []
        if r['cmd'] in ('ha', 'qha'):
            badt = r['ranges'] == 'bad' and (r['cmd'] == 'ha' or rng.random() < .6)
            if badt or rng.random() < .7:
                t = trange(rng, o, badt)
                o['temperature'] = ' '.join(repr(float(x)) for x in t)
            t = [float(x) for x in o.get('temperature', '298.15 298.15 1.0').split()]
            ranges.append(dict(what='temperature', unit=o.get('tunit', 'K'), v=V.RL(t)))
            if r['cmd'] == 'qha':
                badp = r['ranges'] == 'bad' and not badt
                if badp:
                    o['pressure'] = ' '.join(map(repr, rng.choice([(0., 0., 0.), (5., 1., 1.), (0., 5., -1.), (float('nan'), 1., 1.), (0., 1., float('inf'))])))
                elif rng.random() < .6:
                    s = (10. if o.get('punit') == 'kbar' else 1.) * (info.get(name) or 1.)
                    o['pressure'] = ' '.join(repr(round(x, 3)) for x in (0., s * .5 * rng.random(), max(s * rng.uniform(.1, .3), .01)))
                p = [float(x) for x in o.get('pressure', '0.0 0.0 1.0').split()]
                ranges.append(dict(what='pressure', unit='', v=V.RL(p)))
        quiet = bool(r['quiet']) and r['cmd'] != 'eosfit'
        if r['cmd'] == 'eosfit':
            r['debug'] = r['plot'] = False
        seedc = rng.randrange(1 << 30)
        args = command(random.Random(seedc), r, o, quiet)
        base = r['out'] or r['stem'] + {'ha': '_HA', 'qha': '_QHA', 'soec': '_SOEC', 'eosfit': ''}[r['cmd']]
        log, res = base + ('.log' if r['cmd'] == 'eosfit' else '.txt'), base + '.hdf5'
        refset, real = settings(r['cmd'], o)
        path = os.path.join(folder, name)
        able, ref = (False, {})
        if os.path.isfile(path) and not r['usage']:
            able, ref = reference(r['cmd'], path, real, root)
        typed = reply(rng, r)
        # the twin: other verbosity, no log of an earlier run
        twin = dict(crash='', shown=[], logged=[], stored={})
        if r['cmd'] != 'eosfit' and not r['usage'] and r['place'] == 'here' and os.path.exists(path):
            tw = os.path.join(root, 'twin')
            shutil.copytree(folder, tw)
            tlog = os.path.join(tw, log)
            if os.path.isfile(tlog) and log != name:
                os.remove(tlog)
            t = C.run(command(random.Random(seedc), r, o, not quiet), typed, tw)
            twin.update(crash=t['crash'], shown=lines(t['out'], ids))
            if os.path.isfile(tlog) and log != name:
                twin['logged'] = lines(open(tlog, errors='replace').read(), ids)
            try:
                twin['stored'] = datasets(os.path.join(tw, res))
            except Exception:
                pass
            shutil.rmtree(tw)
        before = snapshot(folder)
        g = C.run(args, typed, folder)
        after = snapshot(folder)
        stored = {}
        try:
            stored = datasets(os.path.join(folder, res))
        except Exception:
            pass
        plog = os.path.join(folder, log)
        logged = lines(open(plog, errors='replace').read(), ids) if os.path.isfile(plog) and log != name else []
        import click
        dense = bool(info.get(name)) if r['cmd'] == 'soec' else False
        steps.append(dict(cmd=r['cmd'], stem=r['stem'], ext=r['ext'], out=r['out'], place=r['place'], usage=r['usage'], ranges=ranges, answers=r['answers'], able=able, opts=o,
                          plot=r['plot'], quiet=quiet, refset=refset, ref=ref, dense=dense, crash=g['crash'], error=g['error'], code=g['code'], questions=click.unstyle(g['out']).count('Output file') and
                          click.unstyle(g['out']).count('[y/N]'), before=before, after=after, shown=lines(g['out'], ids), logged=logged, twin=twin, stored=stored,
                          line=' '.join(args)))
        # for the reader of a violation
        names = {v: k for k, v in ids.items()}
        steps[-1]['note'] = [names[k] for k in set(logged) ^ set(twin['logged'])][:4] + [names[k] for k in set(steps[-1]['shown']) - set(logged)][:4]
    shutil.rmtree(folder)
    return dict(pre=disk, steps=steps)


def work(job):
    try:
        return dict(ok=session(job))
    except Exception:
        import traceback
        return dict(bad=traceback.format_exc()[-1500:])
    finally:
        shutil.rmtree(job[3], ignore_errors=True)


def check(vq):
    base = ('SPECIFICATION Spec\nCONSTANT MaxRuns = %d\nCONSTANT Random = %s\nCONSTANT Few = %s\nCONSTANT Cmds = %s\nCHECK_DEADLOCK FALSE\n')
    props = ''.join('PROPERTY %s\n' % p for p in ('OwnInput', 'OnlyTargets', 'Affirmed', 'NoLoss', 'Safe'))
    every = '{"ha", "qha", "soec", "eosfit"}'
    vq.check_design('CommandSessionDesign', base % (1, 'FALSE', 'FALSE', every) + props, 'every single run', workers=8)
    vq.check_design('CommandSessionDesign', base % (vq.pick(2, 3), 'FALSE', 'TRUE', every) + props + 'VIEW View\n', 'sequences of runs', workers=8, timeout=800)
    sc = vq.scenarios('CommandSessionDesign', base % (3, 'TRUE', 'TRUE', every) + props + 'INVARIANT Emit\n', 'random sessions', simulate=('num=%d' % vq.pick(400, 4000), 4))
    one = vq.scenarios('CommandSessionDesign', base % (2, 'FALSE', 'TRUE', '{"ha"}') + 'INVARIANT Emit\n', 'pairs of ha')
    single = vq.scenarios('CommandSessionDesign', base % (1, 'FALSE', 'FALSE', every) + 'INVARIANT Emit\n', 'single runs')
    single = [s for s in single if s['runs'][0]['outcome'] in ('stored', 'kept', 'aborted', 'failed', 'done')]
    rng = vq.rng
    for x in (sc, one, single):
        x.sort(key=str)
        rng.shuffle(x)
    # sessions where much happens
    good = [s for s in sc if sum(r['outcome'] in ('stored', 'kept', 'aborted', 'failed') for r in s['runs']) >= 2]
    rest = [s for s in sc if s not in good]
    # every command, input, output name and outcome of a single run
    kinds = {}
    for s in single:
        r = s['runs'][0]
        kinds.setdefault((r['cmd'], r['stem'] + r['ext'], r['out'], r['outcome']), []).append(s)
    each = [s for k in sorted(kinds) for s in kinds[k][:vq.pick(1, 4)]]
    todo = good[:vq.pick(70, 900)] + rest[:vq.pick(30, 300)] + one[:vq.pick(25, 300)] + each
    jobs = [(rng.randrange(1 << 30), s['runs'], s['disk'], os.path.join(vq.scratch, 's%d' % n)) for n, s in enumerate(todo)]
    counts = {}
    for s in todo:
        for r in s['runs']:
            counts[r['cmd'] + ' ' + r['outcome']] = counts.get(r['cmd'] + ' ' + r['outcome'], 0) + 1
    vq.cov['runs_by_expected_outcome'] = counts
    # imports before the fork
    import elastic, cli, h5py
    from quantas.cmdline.commands.cmd_quantas import cli as _
    from quantas.soec.soec import SOECCalculator
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8, maxtasksperchild=20) as pool:
        todo_ = [pool.apply_async(work, (j,)) for j in jobs]
        for n, t in enumerate(todo_):
            key = 'session %d: %s' % (n, '; '.join('%s %s -o %s %s' % (r['cmd'], r['stem'] + r['ext'], r['out'] or '.', r['usage']) for r in jobs[n][1]))
            with vq.case(key, 200):
                g = t.get(timeout=180)
                if 'bad' in g:
                    raise RuntimeError(g['bad'])
                vq.emit(**g['ok'])
    vq.validate('CommandTrace')


if __name__ == '__main__':
    V.main(check, 'C01')
