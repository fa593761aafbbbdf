"""Literal evaluation of the documented sums with 60-digit arithmetic, used to validate
the log-space reference model (not the code under test)."""
import mpmath as mp
import numpy as np

import land as L
import ref
from core import HarnessError

mp.mp.dps = 60
KB = mp.mpf('8.617333262145e-5')
H = mp.mpf('4.135667696e-3')


def z_literal(land, pfs, beta):
    out = []
    emin = min(land.energy.tolist())
    for a in range(land.n):
        z = mp.mpf(1)
        for k in pfs:
            if k in 'ES':
                z *= mp.exp(-beta * (mp.mpf(float(land.energy[a])) - mp.mpf(float(emin))))
                if k == 'S':
                    z *= mp.mpf(float(land.mult[a]))
            elif k == 'C':
                for nu in land.freq[a]:
                    z /= beta * H * mp.mpf(float(nu))
            elif k == 'Q':
                for nu in land.freq[a]:
                    x = beta * H * mp.mpf(float(nu)) / 2
                    z *= mp.exp(-x) / (1 - mp.exp(-2 * x))
            elif k == 'R':
                prod = mp.mpf(1)
                for i in land.mom[a]:
                    if i > 1e-6 * max(land.mom[a]):
                        prod *= mp.mpf(float(i))
                z *= mp.sqrt(prod) / mp.mpf(float(land.sym[a])) * beta ** (-mp.mpf(3) / 2)
        out.append(z)
    return out


def validate():
    """Compare ref.prob and ref.cap with the literal sums; returns the number of points."""
    n = 0
    cases = [{}, {'F': 'high'}, {'R': 'lin'}, {'N': 4, 'E': 'deg0'}, {'E': 'near', 'F': 'wide'},
             {'N': 3, 'D': 5, 'G': 'large'}]
    temps = [7., 60., 300., 2500.]
    for case in cases:
        land = L.build(case)[0]
        for pfs in ['E', 'SC', 'EQ', 'Q', 'SQR', 'SCR', 'ER', 'CQ', 'SQQ']:
            p = ref.prob(land, pfs, np.array(temps))
            c, _ = ref.cap(land, pfs, np.array(temps))
            for j, t in enumerate(temps):
                beta = 1 / (KB * mp.mpf(t))
                z = z_literal(land, pfs, beta)
                tot = mp.fsum(z)
                for a in range(land.n):
                    want = z[a] / tot
                    if abs(float(p[a, j]) - float(want)) > 1e-14 + 1e-12 * float(want):
                        raise HarnessError(f'reference P {case} {pfs} {t}: {p[a, j]} {want}')
                lnz = lambda b: mp.log(mp.fsum(z_literal(land, pfs, b)))
                h = beta * mp.mpf('1e-12')
                second = (lnz(beta + h) - 2 * lnz(beta) + lnz(beta - h)) / h ** 2
                want = float(beta ** 2 * second)
                if abs(float(c[j]) - want) > 1e-8 * (1 + abs(want)):
                    raise HarnessError(f'reference C {case} {pfs} {t}: {c[j]} {want}')
                n += 1
    return n


if __name__ == '__main__':
    print(validate(), 'reference points agree with literal 60-digit evaluation')
