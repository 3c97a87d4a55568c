"""U01: unit conversions (spec/Units*.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vq as V


def check(vq):
    import numpy as np
    from quantas.utils.physics import units as U
    if vq.thorough:
        vq.check_design('RealCheck', open(os.path.join(V.VERIF, 'spec', 'RealCheck.cfg')).read(),
                        'number tower: overrides = definitions', workers=8, timeout=800)
    sc = vq.scenarios('UnitsDesign', 'SPECIFICATION Spec\nCONSTANT Hops = 2\n'
                      'INVARIANT PathIndependent\nINVARIANT RoundTrip\nINVARIANT Emit\n'
                      'CHECK_DEADLOCK FALSE\n')
    fns = {'temperature': U.convert_temperature, 'energy': U.convert_energy,
           'pressure': U.convert_pressure, 'frequency': U.convert_frequency,
           'length': U.convert_lenght, 'volume': U.convert_volume}
    rng = vq.rng

    def spell(n):
        n = n.replace('degc', u'\u00b0c')
        w = rng.randrange(5)
        if w == 0:
            return n
        if w == 1:
            return n.upper()
        if w == 2:
            return n.capitalize()
        if w == 3:
            return n.title()
        return ''.join(ch.upper() if rng.random() < .5 else ch for ch in n)

    def num():
        w = rng.randrange(8)
        if w == 0:
            return 0.0
        if w == 1:
            return float(rng.randrange(-5000, 5000))
        return rng.choice([-1, 1]) * rng.random() * 10.0 ** rng.randrange(-12, 13)

    def sample(kinds=('float', 'int', 'list', 'ilist', 'tuple', 'arr', 'iarr', 'nested', 'arr2',
                      'arr3', 'view', 'ro', 'npscalar', 'zerod', 'empty')):
        k = rng.choice(kinds)
        f = lambda *s: np.array([num() for _ in range(int(np.prod(s)))]).reshape(s)
        n = rng.randrange(1, 5)
        if k == 'float':
            return k, num()
        if k == 'int':
            return k, rng.randrange(-4000, 4000)
        if k == 'list':
            return k, [num() for _ in range(n)]
        if k == 'ilist':
            return k, [rng.randrange(-400, 400) for _ in range(n)]
        if k == 'tuple':
            return k, tuple(num() for _ in range(n))
        if k == 'arr':
            return k, f(n)
        if k == 'iarr':
            return k, np.array([rng.randrange(-400, 400) for _ in range(n)])
        if k == 'nested':
            return k, [[num(), num()], [num(), num()]]
        if k == 'arr2':
            return k, f(2, n)
        if k == 'arr3':
            return k, f(2, 1, n)
        if k == 'view':
            return k, f(3, 4).T[::2, 1:]
        if k == 'ro':
            a = f(n)
            a.setflags(write=False)
            return k, a
        if k == 'npscalar':
            return k, np.float64(num())
        if k == 'zerod':
            return k, np.array(num())
        return k, np.array([], dtype=float)

    def flat(v):
        return np.asarray(v, dtype=float).ravel()

    def snap(v):
        return repr(v) if not isinstance(v, np.ndarray) else (v.dtype.str, v.shape, v.tobytes())

    def record(ev, fn, val, args, **info):
        before, inp, sh = snap(val), flat(val).copy(), list(np.shape(val))
        r = vq.attempt(fn, val, *args)
        if r[0] == 'ok':
            out = flat(r[1])
            vq.emit(ev=ev, status='ok', inp=V.RL(inp), out=V.RL(out), shin=sh,
                    shout=list(np.shape(r[1])), untouched=(snap(val) == before), **info)
        else:
            vq.emit(ev=ev, status='exc', why=list(r[1:]), **info)
        return r

    # every ordered pair with every container form
    pairs = sorted(set((s['kind'], a, b) for s in sc for a, b in zip(s['chain'], s['chain'][1:])))
    for kind, a, b in pairs:
        for _ in range(vq.pick(6, 40)):
            form, val = sample()
            with vq.case('%s %s->%s (%s)' % (kind, a, b, form)):
                record('conv', fns[kind], val, (spell(a), spell(b)), kind=kind, **{'from': a, 'to': b})
    # chains of the design model
    for s in sc:
        kind, ch = s['kind'], s['chain']
        vals = np.array([num() for _ in range(2)])
        with vq.case('%s %s' % (kind, '->'.join(ch))):
            cur = vals.copy()
            ok = True
            for a, b in zip(ch, ch[1:]):
                r = vq.attempt(fns[kind], cur, spell(a), spell(b))
                if r[0] != 'ok':
                    ok = False
                    break
                cur = np.array(r[1], dtype=float)
            if not ok:
                continue
            d = vq.attempt(fns[kind], vals.copy(), spell(ch[0]), spell(ch[-1]))
            if d[0] == 'ok':
                vq.emit(ev='chain', kind=kind, chain=ch, start=V.RL(vals), final=V.RL(flat(cur)),
                        direct=V.RL(flat(d[1])))
    # energy densities
    eus = ["hartree", "ha", "electron volt", "ev", "rydberg", "ry"]
    vus = ["angstrom", "a", "bohr"]
    pus = ["pa", "kpa", "mpa", "gpa", "bar", "kbar", "mbar", "gbar"]
    for eu in eus:
        for vu in vus:
            for pu in pus:
                for d, fn in (('e2p', U.energy_to_pressure), ('p2e', U.pressure_to_energy)):
                    for _ in range(vq.pick(2, 20)):
                        form, val = sample()
                        with vq.case('%s %s %s %s (%s)' % (d, eu, vu, pu, form)):
                            record('density', fn, val, (spell(eu), spell(vu), spell(pu)),
                                   dir=d, eu=eu, vu=vu, pu=pu)
    # unknown names
    for kind, fn in fns.items():
        good = [p[1] for p in pairs if p[0] == kind]
        for badname in ['furlong', '', 'xyz', 'parsec', '12', good[0] + good[0], 'un' + good[-1]]:
            for args in ((badname, good[0]), (good[-1], badname), (badname, badname)):
                with vq.case('unknown %s %r' % (kind, args)):
                    r = vq.attempt(fn, 1.5, *args)
                    vq.emit(ev='unknown', status=r[0], kind=kind, names=list(args))
    for fn in (U.energy_to_pressure, U.pressure_to_energy):
        for args in (('xyz', 'a', 'gpa'), ('ha', 'furlong', 'gpa'), ('ha', 'a', 'torricelli'), ('', 'a', 'gpa')):
            with vq.case('unknown density %r' % (args,)):
                r = vq.attempt(fn, 1.5, *args)
                vq.emit(ev='unknown', status=r[0], kind=fn.__name__, names=list(args))
    vq.validate('UnitsTrace')


V.main(check, 'U01')
