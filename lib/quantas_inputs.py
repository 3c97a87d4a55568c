"""Well behaved synthetic crystals for quasi-harmonic runs."""
import numpy as np
import phonon as P


def nice_phonons(natom=1, nv=7, nq=1, K0=1.0, V0=40., Kp=4.2, gamma=1.4, span=0.06, freqs=None,
                 weights=None, E0=-275., job='model solid', noise=None):
    """E(V): Birch-Murnaghan (K0 in units of 100 GPa), frequencies
    nu0 * (V/V0)^-gamma(mode)."""
    V = V0 * np.linspace(1 - span, 1 + span, nv)
    K = K0 * 1e11 * (P.LM['A'] ** 3) / P.EJ['Ha']
    eta = (V0 / V) ** (1. / 3.)
    E = E0 + 9. * K * V0 / 16. * (Kp * (eta ** 2 - 1) ** 3 + (eta ** 2 - 1) ** 2 * (6 - 4 * eta ** 2))
    nb = 3 * natom
    if freqs is None:
        freqs = [[0. if (q == 0 and b < 3 and natom > 1) else 120. + 97. * b + 41. * q
                  for b in range(nb)] for q in range(nq)]
    nu = np.zeros((nq, nb, nv))
    for q in range(nq):
        for b in range(nb):
            g = gamma * (0.7 + 0.1 * ((3 * b + q) % 7))
            nu[q, b] = freqs[q][b] * (V / V0) ** (-g)
    w = weights or [1.] * nq
    return P.Phonons(job, natom, V, E, w, nu)
