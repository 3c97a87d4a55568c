"""C02: command lines of the input generators (spec/Generator*.tla)."""
import os, sys, io, contextlib, multiprocessing, random, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V

WORDS = ['just text\n\n', 'POSCAR\n1.0\n', '# nothing here\n', 'title\n1 2 3\n', 'a: b\n']


def populate(rng, folder, disk, lists):
    import I01
    import I02
    kind = rng.choice(['gamma', 'super', 'disp', 'hess'])
    c = I01.Crystal(rng, kind)
    c2 = I01.other(rng, c)
    cq = I01.Crystal(rng, 'qha')
    cp = I01.Crystal(rng, 'phonopy')
    whole = dict(kind=kind, fate='whole', keep=99, cut=False)
    v = list(range(20))
    rng.shuffle(v)

    def put(p, text, mode='w'):
        with open(p, mode) as f:
            f.write(text)
    for n, (name, what) in enumerate(sorted(disk.items(), key=lambda t: (t[1] != 'dir', t))):
        p = os.path.join(folder, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if what == 'dir':
            os.makedirs(p, exist_ok=True)
        elif what in ('freq', 'otherfreq'):
            put(p, '\n'.join(I01.frequencies(rng, c if what == 'freq' else c2, whole, v[n % 20])[0]) + '\n')
        elif what == 'cut':
            keep = rng.choice([1, 2])
            put(p, '\n'.join(I01.frequencies(rng, c, dict(whole, fate='killed', keep=keep), 3)[0]) + '\n')
        elif what == 'qhaout':
            put(p, '\n'.join(I01.quasiharmonic(rng, cq, dict(kind='qha', fate='whole', keep=99, cut=False), 0)[0]) + '\n')
        elif what == 'phonopy':
            I01.phonopy(rng, cp, dict(kind='phonopy', fate='whole', keep=1, cut=False), v[n % 20], p)
        elif what == 'tensor':
            put(p, '\n'.join(I02.crystal(rng, dict(sections=['consistent', 'cell', 'option', 'final', 'constants', 'end'], spoiled='none')).text) + '\n')
        elif what == 'vasptensor':
            put(p, '\n'.join(I02.vasp(rng, dict(sections=['moduli', 'clamped'] + rng.choice([[], ['relaxation', 'total']]) + ['end'], spoiled='none')).text) + '\n')
        elif what == 'list':
            put(p, '\n'.join(lists[name]) + rng.choice(['', '\n']) * (lists[name] != []))
        elif what == 'words':
            put(p, rng.choice(WORDS))
        elif what == 'empty':
            put(p, '')
        elif what == 'binary':
            put(p, rng.choice([b'\x89HDF\r\n\x1a\n\xff\xfe\x00' * 20, bytes(rng.randrange(256) for _ in range(300)) + b'\xff\xfe']), 'wb')
        # 'disp' comes with its phonopy output


def line(rng, r):
    o = [rng.choice([['-i', r['interface']], ['--interface', r['interface']]])]
    if r['interface'] == 'crystal' and rng.random() < .5:
        o = []
    if r['out']:
        o.append([rng.choice(['-o', '--outfile']), r['out']])
    if r['list']:
        o.append([rng.choice(['-l', '--list'])])
    if r['cmd'] == 'ha' and (r['ref'] or rng.random() < .3):
        o.append([rng.choice(['-r', '--ref']), str(r['ref'])])
    o.append([r['stem'] + r['ext']])
    u = r['usage']
    cmd = ['inpgen', r['cmd']]
    if u == 'choice':
        o = [x for x in o if x[0] not in ('-i', '--interface')] + [['-i', rng.choice(['castep', 'CRYSTAL', 'qha', ''])]]
    elif u == 'option':
        o.append(['--nope'])
    elif u == 'command':
        cmd = ['inpgen', rng.choice(['haa', 'elastic', 'qha'])]
    elif u == 'number':
        o = [x for x in o if x[0] not in ('-r', '--ref')] + [['-r', 'first'] if r['cmd'] == 'ha' else ['-r', '1']]
    elif u == 'missing':
        o = o[:-1]
    rng.shuffle(o)
    return cmd + [t for x in o for t in x]


def reference(r, folder, typed):
    """identifier of what the classes generate"""
    import cli
    import C01
    from I01 import save
    from quantas.IO.qha_writer import QHAInputCreator
    from quantas.IO.soec_writer import SOECInputCreator
    out = os.path.join(os.path.dirname(folder), 'reference')
    if os.path.exists(out):
        os.remove(out)
    try:
        with contextlib.redirect_stdout(io.StringIO()), cli.inside(folder):
            if r['cmd'] == 'ha':
                g = QHAInputCreator(r['interface'])
                if not g.read(r['stem'] + r['ext'], r['list'], r['ref'])[0]:
                    return 'unreadable'
                save(g, out, typed if r['title'] == 'text' else '', r['ref'])
            else:
                g = SOECInputCreator(r['interface'])
                if not g.read(r['stem'] + r['ext'])[0]:
                    return 'unreadable'
                g.write(out, typed if r['title'] == 'text' else 'Unknown')
    except Exception as e:
        return 'exception ' + type(e).__name__
    return C01.content(out)


def session(job):
    import cli
    import click
    import C01
    import I01
    import I02
    from quantas.IO.qha_reader import QHAInputFileReader
    from quantas.IO.soec_reader import SOECInputFileReader
    seed, runs, disk, root = job
    rng = random.Random(seed)
    folder = os.path.join(root, 'dir')
    os.makedirs(folder)
    lists = {r['stem'] + r['ext']: r['names'] for r in runs if r['list'] and disk.get(r['stem'] + r['ext']) == 'list'}
    populate(rng, folder, disk, {n: lists.get(n, ['gone.out']) for n in disk})
    steps = []
    for r in runs:
        typed = rng.choice(I01.TITLES) if r['cmd'] == 'ha' else I02.title(rng)
        if rng.random() < .2:
            typed = rng.choice(['6.2 300 17', 'y', 'MgO ' * 40 + 'end', '12'])
        ref0 = reference(r, folder, typed)
        before = C01.snapshot(folder)
        g = cli.run(line(rng, r), {'text': typed + '\n', 'enter': '\n', 'eof': ''}[r['title']], folder)
        after = C01.snapshot(folder)
        target = os.path.join(folder, ((r['out'] or 'quantas_ha') + '.yaml') if r['cmd'] == 'ha' else (r['out'] or r['stem'] + '_soec_input') + '.dat')
        name = '?'
        if os.path.isfile(target) and r['outcome'] == 'written':
            try:
                x = (QHAInputFileReader if r['cmd'] == 'ha' else SOECInputFileReader)(target)
                name = str(x.jobname) if x.completed else 'unreadable: %s' % x.error
            except Exception as e:
                name = 'exception %s' % type(e).__name__
        step = {k: r[k] for k in ('cmd', 'stem', 'ext', 'list', 'names', 'second', 'interface', 'ref', 'out', 'place', 'usage', 'title')}
        step.update(typed=typed, ref0=ref0, before=before, after=after, crash=g['crash'], error=g['error'], code=g['code'], job=name,
                    asked='short description' in click.unstyle(g['out']), shown=click.unstyle(g['out'])[-160:])
        steps.append(step)
    shutil.rmtree(folder)
    return dict(pre=disk, steps=steps)


def work(job):
    try:
        return dict(ok=session(job))
    except Exception:
        import traceback
        return dict(bad=traceback.format_exc()[-1500:])
    finally:
        shutil.rmtree(job[3], ignore_errors=True)


def check(vq):
    base = 'SPECIFICATION Spec\nCONSTANT MaxRuns = %d\nCONSTANT Random = %s\nCHECK_DEADLOCK FALSE\n'
    props = ''.join('PROPERTY %s\n' % p for p in ('OnlyTarget', 'SourcesKept', 'NoLoss')) + 'INVARIANT Again\n'
    vq.check_design('GeneratorSessionDesign', base % (1, 'FALSE') + props, 'every single run', workers=8)
    sc = vq.scenarios('GeneratorSessionDesign', base % (4, 'TRUE') + props + 'INVARIANT Emit\n', 'random sessions', simulate=('num=%d' % vq.pick(600, 6000), 5))
    single = vq.scenarios('GeneratorSessionDesign', base % (1, 'FALSE') + 'INVARIANT Emit\n', 'single runs')
    rng = vq.rng
    for x in (sc, single):
        x.sort(key=str)
        rng.shuffle(x)
    busy = [s for s in sc if sum(r['outcome'] in ('written', 'blocked', 'aborted') for r in s['runs']) >= 2]
    rest = [s for s in sc if s not in busy]
    kinds = {}
    for s in single:
        r = s['runs'][0]
        o = r['outcome']
        # every file, interface, output name and title that can come to something; a sample of what is refused
        kinds.setdefault((r['cmd'], r['stem'] + r['ext'], r['list'], r['interface'], o) + ((r['out'], r['title']) if o in ('written', 'blocked', 'aborted') else ()), []).append(s)
    each = [s for k in sorted(kinds) for s in kinds[k][:vq.pick(1, 4)]]
    rng.shuffle(each)
    # several single runs make one session: each works in its own directory, the process is the same
    todo = busy[:vq.pick(110, 1500)] + rest[:vq.pick(30, 300)] + each
    vq.log(len(busy), 'busy sessions', len(each), 'kinds of single runs')
    counts = {}
    for s in todo:
        for r in s['runs']:
            counts[r['cmd'] + ' ' + r['outcome']] = counts.get(r['cmd'] + ' ' + r['outcome'], 0) + 1
    vq.cov['runs_by_expected_outcome'] = counts
    jobs = [(rng.randrange(1 << 30), s['runs'], s['disk'], os.path.join(vq.scratch, 's%d' % n)) for n, s in enumerate(todo)]
    import cli, I01, I02, C01
    from quantas.cmdline.commands.cmd_quantas import cli as _
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8, maxtasksperchild=40) as pool:
        todo_ = [pool.apply_async(work, (j,)) for j in jobs]
        for n, t in enumerate(todo_):
            key = 'session %d: %s' % (n, '; '.join('inpgen %s %s%s -i %s -r %d -o %s %s (%s)' % (r['cmd'], '-l ' if r['list'] else '', r['stem'] + r['ext'], r['interface'], r['ref'], r['out'] or '.', r['usage'], r['title'])
                                                   for r in jobs[n][1]))
            with vq.case(key, 120):
                g = t.get(timeout=100)
                if 'bad' in g:
                    raise RuntimeError(g['bad'])
                vq.emit(**g['ok'])
    vq.validate('GeneratorTrace')


if __name__ == '__main__':
    V.main(check, 'C02')
