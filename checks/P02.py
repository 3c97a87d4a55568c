"""P02: the figures of the elastic analysis (spec/Figures*.tla)."""
import glob, multiprocessing, os, re, shutil, struct, sys, tempfile, traceback, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vq as V
import cli
import elastic

BODY = ('SPECIFICATION Spec\nCONSTANTS MaxRuns = %d\nRadiusFrom = "%s"\nReuse = %s\nINVARIANT Own\nINVARIANT Visible\n'
        'INVARIANT Complete\nCHECK_DEADLOCK FALSE\n')


def crystal(rng, kind):
    import numpy as np
    if kind == 'unstable':
        return elastic.unstable(rng)
    if kind == 'auxetic':            # contracts sideways in no direction
        G = rng.uniform(30, 200)
        K = G * rng.uniform(.1, .6)
        c = np.zeros((6, 6))
        c[:3, :3] = K - 2 * G / 3
        c[range(3), range(3)] += 2 * G
        c[range(3, 6), range(3, 6)] = G
        return np.round(c, 6)
    if kind == 'shrinking':          # expands in some directions under pressure, in whole planes even
        d = rng.uniform(.1, .2)
        s = np.array([[1., -.9, -d], [-.9, 1., -d], [-d, -d, 1.]])
        if rng.random() < .5:
            s[0, 1] = s[1, 0] = -.5
            s[0, 2] = s[2, 0] = -.65
            s[1, 2] = s[2, 1] = -.2
        o = [0, 1, 2]
        rng.shuffle(o)
        s = s[np.ix_(o, o)] / rng.uniform(50, 300)
        assert np.linalg.eigvalsh(s)[0] > 0
        c = np.zeros((6, 6))
        c[:3, :3] = np.linalg.inv(s)
        c[range(3, 6), range(3, 6)] = [rng.uniform(20, 150) for _ in range(3)]
        c = np.round(c, 6)
        c = np.triu(c) + np.triu(c, 1).T
        return c
    return elastic.matrix(rng, rng.choice(elastic.KINDS + ['soft', 'turned']), 3.)


def session(job):
    """the runs of one process, in its own directory"""
    seed, runs, scratch = job
    out = []
    d = tempfile.mkdtemp(prefix='figures', dir=scratch)
    try:
        import h5py
        import numpy as np
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.figure
        import warnings
        warnings.simplefilter('ignore')
        rng = random.Random(seed)
        seen = []
        if not hasattr(matplotlib.figure.Figure, 'vq_savefig'):
            matplotlib.figure.Figure.vq_savefig = matplotlib.figure.Figure.savefig
        real = matplotlib.figure.Figure.vq_savefig

        def savefig(fig, name, *a, **k):
            r = real(fig, name, *a, **k)
            panels = []
            key = {}
            legends = list(fig.legends)
            for ax in fig.axes:
                if ax.get_legend() is not None:
                    legends.append(ax.get_legend())
            names = [t.get_text() for g in legends for t in g.get_texts()]
            for g in legends:
                for h, t in zip(g.legend_handles, g.get_texts()):
                    key[(str(h.get_color()), str(h.get_linestyle()))] = t.get_text()
            for ax in fig.axes:
                lo, hi = ax.get_ylim()
                panels.append(dict(projection=ax.name, scale=ax.get_yscale(), rmin=lo, rmax=hi,
                                   text=' '.join([t.get_text() for t in ax.texts] + [ax.get_title()]).strip(),
                                   curves=[dict(name=key.get((str(x.get_color()), str(x.get_linestyle())), ''),
                                                a=np.array(x.get_xdata(), dtype=float), r=np.array(x.get_ydata(), dtype=float))
                                           for x in ax.lines if len(x.get_xdata()) > 2]))
            seen.append(dict(file=os.path.basename(str(name)), legend=names, panels=panels, inch=[float(x) for x in fig.get_size_inches()]))
            return r
        matplotlib.figure.Figure.savefig = savefig
        for n, c in enumerate(runs):
            del seen[:]
            m = crystal(rng, c['crystal'])
            rho = rng.uniform(900., 8000.) if c['dens'] else 0.
            name = rng.choice(['in', 'mgo', 'run.%d' % n, 'a b']) + str(n)
            elastic.write(os.path.join(d, name + '.dat'), 'figures', m, rho)
            a = ['soec', name + '.dat', '-o', 'res%d' % n]
            base = 'res%d' % n
            if c['polar']:
                a.append('--polar')
            dpi = 80
            if c['plots']:
                a.append('-p')
                dpi = rng.choice([20, 25, 40, 101] + ([350] if rng.random() < .3 else []))
                a += ['--dpi', dpi]
            before = set(os.listdir(d))
            r = cli.run(a, cwd=d)
            new = sorted(x for x in set(os.listdir(d)) - before if x.endswith('.png'))
            size = []
            for x in new:
                with open(os.path.join(d, x), 'rb') as f:
                    w, h = struct.unpack('>II', f.read(24)[16:24])
                inch = [s['inch'] for s in seen if s['file'] == x]
                if inch:
                    size.append(dict(px=V.R(w), py=V.R(h), inch=V.R(inch[0][0]), inchy=V.R(inch[0][1])))
            log = os.path.join(d, 'res%d.txt' % n)
            text = open(log).read() if os.path.exists(log) else ''
            ann = re.findall(r'figure (\S.*\.png) generated', text)
            prop = {x: re.sub(r'.*_(\w+)\.png$', r'\1', x) for x in [s['file'] for s in seen]}
            lines = [dict(kind='run', c=c, base=base, pngs=new, announced=ann, drawn=[s['file'] for s in seen], size=size, dpi=V.R(dpi),
                          crash=r['crash'], panels=[dict(prop=prop[s['file']], labels=[p['text'] for p in s['panels']]) for s in seen])]
            h5 = os.path.join(d, 'res%d.hdf5' % n)
            if seen and os.path.exists(h5):
                with h5py.File(h5, 'r') as f:
                    for s in seen:
                        q = prop[s['file']]
                        for plane, p in zip(('xy', 'xz', 'yz'), s['panels']):
                            if q not in ('E', 'LC', 'G', 'Nu', 'waves'):
                                continue
                            tab = np.array(f['polar_%s_%s' % (q, plane)])
                            k = sorted(set([0, len(tab) - 1] + [rng.randrange(len(tab)) for _ in range(24)]))
                            lines.append(dict(
                                kind='panel', prop=q, plane=plane, n=len(tab), rows=V.RM(tab[k]), projection=p['projection'], scale=p['scale'],
                                rmin=V.R(p['rmin']), rmax=V.R(p['rmax']), legend=s['legend'],
                                curves=[dict(name=x['name'], n=len(x['r']), low=V.R(x['r'].min()), high=V.R(x['r'].max()),
                                             a=V.RL([x['a'][j] for j in k if j < len(x['a'])]), r=V.RL([x['r'][j] for j in k if j < len(x['r'])]))
                                        for x in p['curves']]))
            out.append((c, lines))
        return out
    except BaseException:
        return traceback.format_exc()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(vq):
    vq.check_design('FiguresDesign', BODY % (2, 'all', 'FALSE') + 'PROPERTY Ends\n', 'figures of up to two runs', workers=8)
    vq.check_design('FiguresDesign', BODY % (1, 'usual', 'FALSE'), 'radius bounded by one column', expect_violation=True)
    vq.check_design('FiguresDesign', BODY % (2, 'all', 'TRUE'), 'panels kept from the figure before', expect_violation=True)
    sc = [s['runs'] for s in vq.scenarios('FiguresDesign', BODY % (2, 'all', 'FALSE') + 'INVARIANT Emit\n', 'sessions')]
    rng = vq.rng
    sc.sort(key=str)
    drawn = [s for s in sc if any(c['polar'] and c['plots'] and c['crystal'] != 'unstable' for c in s)]
    one = [s for s in sc if len(s) == 1]
    two = [s for s in drawn if len(s) == 2 and all(c['polar'] and c['plots'] and c['crystal'] != 'unstable' for c in s)]
    rest = [s for s in sc if len(s) == 2 and s not in two]
    todo = list(one) + [s for s in one if s in drawn] * vq.pick(1, 20)
    todo += rng.sample(two, vq.pick(8, len(two))) + rng.sample(rest, vq.pick(8, 200))
    import matplotlib.pyplot, h5py, quantas.soec.soec, quantas.cmdline.commands.cmd_quantas   # before the fork
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(8, maxtasksperchild=10) as pool:
        jobs = [pool.apply_async(session, ((rng.random(), s, vq.scratch),)) for s in todo]
        for n, (s, j) in enumerate(zip(todo, jobs)):
            with vq.case('session %d: %s' % (n, '; '.join(' '.join('%s=%s' % x for x in sorted(c.items())) for c in s)), limit=200):
                r = j.get(timeout=180)
                if isinstance(r, str):
                    raise RuntimeError(r)
                for c, lines in r:
                    if lines[0]['crash']:
                        raise RuntimeError(lines[0]['crash'])
                    for e in lines:
                        vq.emit(**e)
    vq.validate('FiguresTrace')


if __name__ == '__main__':
    V.main(check, 'P02')
