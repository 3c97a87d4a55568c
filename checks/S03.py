"""S03: crystal class of a stiffness matrix (spec/Symmetry*.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vq as V

KEYS = [10 * i + j for i in range(1, 7) for j in range(i, 7)]
UNIT = 100000
INDEP = {'cubic': [11, 12, 44], 'hexagonal': [11, 12, 13, 33, 44], 'trigonal_high': [11, 12, 13, 33, 44, 14],
         'trigonal_low': [11, 12, 13, 33, 44, 14, 15], 'tetragonal_high': [11, 12, 13, 33, 44, 66],
         'tetragonal_low': [11, 12, 13, 33, 44, 66, 16], 'orthorhombic': [11, 12, 13, 22, 23, 33, 44, 55, 66],
         'monoclinic': [11, 12, 13, 22, 23, 33, 44, 55, 66, 15, 25, 35, 46], 'triclinic': KEYS}


def build(c, x):
    """mirror of Symmetry!Build (what is recorded is judged by Recognise, not by this)"""
    m = {k: (x[k] if k in INDEP[c] else 0) for k in KEYS}
    if c == 'cubic':
        m[22] = m[33] = m[11]; m[13] = m[23] = m[12]; m[55] = m[66] = m[44]
    elif c not in ('orthorhombic', 'monoclinic', 'triclinic'):
        m[22] = m[11]; m[23] = m[13]; m[55] = m[44]
        if c.startswith('tri') or c == 'hexagonal':
            m[66] = (m[11] - m[12]) // 2
        if c.startswith('tri'):
            m[24] = -m[14]; m[56] = m[14]
        if c == 'trigonal_low':
            m[25] = -m[15]; m[46] = -m[15]
        if c == 'tetragonal_low':
            m[26] = -m[16]
    return m


def constants(rng):
    """generic constants; now and then a small one, just above the tolerance"""
    x = {}
    for k in KEYS:
        if k in (11, 22, 33):
            x[k] = rng.randrange(200 * UNIT, 500 * UNIT)
        elif k in (44, 55, 66):
            x[k] = rng.randrange(60 * UNIT, 190 * UNIT)
        elif k in (12, 13, 23):
            x[k] = rng.choice([-1, 1, 1]) * rng.randrange(5 * UNIT, 60 * UNIT)
        else:
            x[k] = rng.choice([-1, 1]) * rng.choice([rng.randrange(200, 2000), rng.randrange(UNIT, 20 * UNIT)])
    return x


def check(vq):
    import numpy as np
    from quantas.soec.utils.symmetry import check_symmetry
    from R02 import calculator
    #           -10 GPa  -1      -0.00105 -0.00095 0  0.00095 0.00105 0.01   0.5    1        10
    shifts = [s + 30000000 for s in (-1000000, -100000, -105, -95, 0, 95, 105, 1000, 50000, 1000000)]
    sc = vq.scenarios('SymmetryDesign', 'SPECIFICATION Spec\nCONSTANT Shifts = {%s}\nINVARIANT Recognised\nINVARIANT Kept\n'
                      'INVARIANT Changed\nINVARIANT Rank2\nINVARIANT Lattice\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'
                      % ', '.join(map(str, shifts)))
    rng = vq.rng
    sc.sort(key=str)
    rng.shuffle(sc)

    def one(key, m, expect=''):
        full = [[m[10 * min(i, j) + max(i, j)] for j in range(1, 7)] for i in range(1, 7)]
        c = np.array(full, dtype=float) / UNIT
        before = c.copy()
        with vq.case('%s %r' % (key, m)):
            got = check_symmetry(c)
            kept = bool(np.array_equal(c, before))
            path = os.path.join(vq.scratch, 'sym.dat')
            with open(path, 'w') as f:
                f.write('title\n' + '\n'.join(' '.join('%.5f' % v for v in r) for r in c) + '\n')
            calc = calculator()
            err = calc.read_input(path)
            if err is not None:
                raise RuntimeError(err)
            said = []
            calc.echo = said.append
            calc.report_input_data()
            kept = kept and bool(np.allclose(calc.soec.stiffness, before, rtol=0, atol=1e-9))
            vq.emit(m=full, **{'class': str(got)}, calc=str(calc._system), kept=kept, expect=expect,
                    report=next((s for s in said if s.startswith('System is')), ''))
    for s in sc:
        for _ in range(vq.pick(1, 6)):
            m = build(s['class'], constants(rng))
            m[s['key']] += s['shift']
            one('%(class)s with C%(key)d displaced by %(shift)d' % s, m)
    for n in range(vq.pick(300, 3000)):
        c = rng.choice(sorted(INDEP))
        m = build(c, constants(rng))
        for _ in range(rng.choice([0, 1, 2, 3, 6])):     # several constants, within or beyond the tolerance
            m[rng.choice(KEYS)] += rng.choice([-1, 1]) * rng.choice([41, 31, 105, 300, 100000])
        one('%s with several displacements' % c, m)
    vq.validate('SymmetryTrace')


if __name__ == '__main__':
    V.main(check, 'S03')
