"""Executable reference model of the particle interactions: plain sums over all pairs of particles and their images.

Written from the equations (grad-h SPH: Springel & Hernquist 2002, Price & Monaghan 2007; meshless: Gaburov & Nitadori 2011, Hopkins 2015),
with no tree, no cell and no neighbour list.  Rows are those of node.read_dump (H: hydro particles, S: stars)."""
import numpy as np

NORM = {"m4": {1: 2 / 3., 2: 10 / (7 * np.pi), 3: 1 / np.pi}, "quintic": {1: 1 / 120., 2: 7 / (478 * np.pi), 3: 1 / (120 * np.pi)}}
RANGE = {"m4": 2.0, "quintic": 3.0}


class Kernel:
    def __init__(self, name, nd):
        self.name, self.nd, self.norm, self.range = name, nd, NORM[name][nd], RANGE[name]

    def w(self, s):
        if self.name == "m4":
            return self.norm * np.where(s < 1, 1 - 1.5 * s ** 2 + 0.75 * s ** 3, np.where(s < 2, 0.25 * np.maximum(2 - s, 0) ** 3, 0.0))
        p = lambda a: np.maximum(a - s, 0) ** 5
        return self.norm * (p(3) - 6 * p(2) + 15 * p(1))

    def dw(self, s):
        """dW/ds"""
        if self.name == "m4":
            return self.norm * np.where(s < 1, -3 * s + 2.25 * s ** 2, np.where(s < 2, -0.75 * np.maximum(2 - s, 0) ** 2, 0.0))
        p = lambda a: np.maximum(a - s, 0) ** 4
        return -5 * self.norm * (p(3) - 6 * p(2) + 15 * p(1))

    def dwdh(self, s):
        """h^(n+1) dW/dh"""
        return -(self.nd * self.w(s) + s * self.dw(s))

    # gravity of a mass distribution of the shape of the M4 kernel in three dimensions
    def force(self, s):
        q = np.maximum(s, 1e-100)
        return np.where(s < 1, 4 * s / 3 - 1.2 * s ** 3 + 0.5 * s ** 4, np.where(s < 2, 8 * s / 3 - 3 * s ** 2 + 1.2 * s ** 3 - s ** 4 / 6 - 1 / (15 * q * q), 1 / (q * q)))

    def pot(self, s):
        q = np.maximum(s, 1e-100)
        return np.where(s < 1, 1.4 - 2 * s ** 2 / 3 + 0.3 * s ** 4 - 0.1 * s ** 5, np.where(s < 2, -1 / (15 * q) + 1.6 - 4 * s ** 2 / 3 + s ** 3 - 0.3 * s ** 4 + s ** 5 / 30, 1 / q))

    def dpotdh(self, s):
        """h^2 d(pot/h)/dh with the sign of the code of Price & Monaghan: -(pot + s pot')"""
        dpot = -self.force(s)
        return self.pot(s) + s * dpot


def bounds(p, v):
    nd = v["ndim"]
    return [(v["boxmin"][k], v["boxmax"][k], p.get("boundary_lhs[%d]" % k, "open"), p.get("boundary_rhs[%d]" % k, "open")) for k in range(nd)]


def images(H, bnd, reach):
    """rows of all particles and of those images of theirs that lie within `reach` of the box; index of the original"""
    rows, idx = [H], [np.arange(len(H))]
    for k, (lo, hi, bl, br) in enumerate(bnd):
        R, I = np.concatenate(rows), np.concatenate(idx)
        for kind, side, sh in ((bl, 0, hi - lo), (br, 1, lo - hi)):
            x = R[:, 8 + k]
            if kind == "periodic":
                m = x < lo + reach if side == 0 else x > hi - reach
                N = R[m].copy()
                N[:, 8 + k] += sh
            elif kind in ("mirror", "wall"):
                m = x < lo + reach if side == 0 else x > hi - reach
                N = R[m].copy()
                N[:, 8 + k] = 2 * (lo if side == 0 else hi) - N[:, 8 + k]
                N[:, 11 + k] *= -1
            else:
                continue
            rows.append(N)
            idx.append(I[m])
    return np.concatenate(rows), np.concatenate(idx)


def pairs(A, B, nd):
    """separation vectors (towards B) and distances"""
    d = [B[None, :, 8 + k] - A[:, None, 8 + k] for k in range(nd)]
    return d, np.sqrt(sum(x * x for x in d))


def blocks(A, B, size=400000):
    step = max(1, size // max(1, len(B)))
    for a in range(0, len(A), step):
        yield slice(a, min(a + step, len(A)))


def density(A, B, ker, numbers=False):
    """kernel sum at the places and smoothing lengths of A over B; (rho or number density, h^(n+1) * sum of dW/dh)"""
    nd, n, o = ker.nd, np.zeros(len(A)), np.zeros(len(A))
    for s in blocks(A, B):
        d, r = pairs(A[s], B, nd)
        h = A[s, 18][:, None]
        w = np.ones(len(B)) if numbers else B[:, 17]
        n[s] = (ker.w(r / h) * w).sum(1) / A[s, 18] ** nd
        o[s] = (ker.dwdh(r / h) * w).sum(1) / A[s, 18] ** (nd + 1)
    return n, o


def zeta_sum(A, B, ker):
    z = np.zeros(len(A))
    for s in blocks(A, B):
        d, r = pairs(A[s], B, ker.nd)
        x = r / A[s, 18][:, None]
        z[s] = (np.where(x < ker.range, ker.dpotdh(x), 0.0) * B[:, 17]).sum(1) / A[s, 18] ** 2
    return z


def sph_forces(A, B, ker, visc):
    """hydrodynamical acceleration, heating rate and divergence of velocity of A from all of B, and the sums of the absolute contributions"""
    nd = ker.nd
    acc, dudt, div = np.zeros((len(A), nd)), np.zeros(len(A)), np.zeros(len(A))
    size = np.zeros((3, len(A)))
    for s in blocks(A, B, 200000):
        d, r = pairs(A[s], B, nd)
        hi, hj = A[s, 18][:, None], B[None, :, 18]
        near = r < ker.range * np.maximum(hi, hj)
        ii, jj = np.nonzero(near & (r > 0))
        a, b = A[s][ii], B[jj]
        r = r[ii, jj]
        e = np.stack([x[ii, jj] / r for x in d], 1)
        wi, wj = ker.dw(r / a[:, 18]) / a[:, 18] ** (nd + 1), ker.dw(r / b[:, 18]) / b[:, 18] ** (nd + 1)
        vr = ((b[:, 11:11 + nd] - a[:, 11:11 + nd]) * e).sum(1)
        va = np.abs(b[:, 11:11 + nd] - a[:, 11:11 + nd]).sum(1) + 1e-7 * (np.abs(a[:, 11:11 + nd]) + np.abs(b[:, 11:11 + nd])).sum(1)
        f = a[:, 41] * a[:, 40] / a[:, 19] ** 2 * wi + b[:, 41] * b[:, 40] / b[:, 19] ** 2 * wj
        q = np.zeros(len(r))
        if visc["avisc"] != "none":
            al = visc["alpha"] if visc["td"] == "none" else 0.5 * (a[:, 38] + b[:, 38])
            w = 0.25 * (wi + wj) * (1 / a[:, 19] + 1 / b[:, 19])
            vs = a[:, 37] + b[:, 37] - visc["beta"] * al * vr
            f = f - np.where(vr < 0, al * vs * vr * w, 0.0)
            q = q - np.where(vr < 0, 0.5 * b[:, 17] * al * vs * vr * vr * w, 0.0)
        if visc["acond"] == "wadsley2008":
            q = q + np.where(vr < 0, b[:, 17] * vr * (b[:, 20] - a[:, 20]) * (wi / a[:, 19] + wj / b[:, 19]), 0.0)
        elif visc["acond"] == "price2008":
            w = 0.25 * (wi + wj) * (1 / a[:, 19] + 1 / b[:, 19])
            q = q + np.where(vr < 0, 0.5 * b[:, 17] * (a[:, 20] - b[:, 20]) * w * (1 / a[:, 19] + 1 / b[:, 19]) * np.sqrt(np.abs(a[:, 41] - b[:, 41])), 0.0)
        n = s.stop - s.start
        D = -np.bincount(ii, b[:, 17] * vr * wi, n) / A[s, 19]
        div[s] = D
        dudt[s] = np.bincount(ii, q, n) - A[s, 41] * D * A[s, 40] / A[s, 19]
        for k in range(nd):
            acc[s, k] = np.bincount(ii, b[:, 17] * f * e[:, k], n)
        c = np.bincount(ii, np.abs(b[:, 17] * va * wi), n) / A[s, 19]
        size[0, s], size[1, s], size[2, s] = np.bincount(ii, np.abs(b[:, 17] * f), n), np.bincount(ii, np.abs(q), n) + np.abs(A[s, 41] * A[s, 40] / A[s, 19]) * c, c
    return acc, dudt, div, size


def gravity(A, ia, B, S, ker, mfv, zeta=True):
    """gravitational acceleration and potential (positive, with the self-term) of the gas A from all of B and the stars S, and the sum of the absolute accelerations"""
    nd = ker.nd
    acc, pot, size = np.zeros((len(A), nd)), np.zeros(len(A)), np.zeros(len(A))
    for s in blocks(A, B, 200000):
        a = A[s]
        d, r = pairs(a, B, nd)
        hi, hj = a[:, 18][:, None], B[None, :, 18]
        f = 0.5 * (ker.force(r / hi) / hi ** 2 + ker.force(r / hj) / hj ** 2) * B[None, :, 17]
        if zeta:
            wi, wj = ker.dw(r / hi) / hi ** (nd + 1), ker.dw(r / hj) / hj ** (nd + 1)
            zi, zj = a[:, 42][:, None], B[None, :, 42]
            if mfv:
                f = f + 0.5 * (zi * wi + zj * wj) / a[:, 17][:, None]
            else:
                f = f + 0.5 * (zi * wi + zj * wj) * B[None, :, 17]
        g = 0.5 * (ker.pot(r / hi) / hi + ker.pot(r / hj) / hj) * B[None, :, 17]
        q = np.maximum(r, 1e-100)
        size[s] = np.abs(np.where(r > 0, f, 0.0)).sum(1)
        f = np.where(r > 0, f / q, 0.0)
        for k in range(nd):
            acc[s, k] = (f * d[k]).sum(1)
        pot[s] = g.sum(1)
    star = star_gravity(A, S, ker)
    return acc + star[0], pot + star[1], size + np.abs(star[0]).sum(1)


def star_gravity(A, S, ker):
    nd = ker.nd
    acc, pot = np.zeros((len(A), nd)), np.zeros(len(A))
    for st in S:
        d = st[None, :nd] - A[:, 8:8 + nd]
        r = np.sqrt((d * d).sum(1) + 1e-300)
        h = 0.5 * (A[:, 18] + st[10])
        acc += (st[9] * ker.force(r / h) / (h * h * r))[:, None] * d
        pot += st[9] * ker.pot(r / h) / h
    return acc, pot


def star_forces(S, H, ker, soft, bnd=()):
    """acceleration and potential of all stars from each other (softened or not) and from the gas H, and the sum of the absolute accelerations"""
    nd = ker.nd
    acc, pot, size = np.zeros((len(S), nd)), np.zeros(len(S)), np.zeros(len(S))
    for i, st in enumerate(S):
        for B, me in ((np.delete(S, i, 0)[:, [0, 1, 2, 10, 9]], True), (H[:, [8, 9, 10, 18, 17]], False)):
            if not len(B):
                continue
            d = B[:, :nd] - st[None, :nd]
            for k, (lo, hi, bl, br) in enumerate(bnd):
                if bl == "periodic" and me:
                    d[:, k] -= (hi - lo) * np.round(d[:, k] / (hi - lo))
            r = np.maximum(np.sqrt((d * d).sum(1)), 1e-100)
            h = 0.5 * (B[:, 3] + st[10]) if soft or not me else np.full(len(B), 1e-50)
            f = B[:, 4] * (ker.force(r / h) / h ** 2 if soft or not me else 1 / r ** 2)
            g = B[:, 4] * (ker.pot(r / h) / h if soft or not me else 1 / r)
            acc[i] += ((f / r)[:, None] * d).sum(0)
            pot[i] += g.sum()
            size[i] += f.sum()
    return acc, pot, size


def zeta_stars(A, S, ker, soft):
    z = np.zeros(len(A))
    for st in S:
        d = st[None, :ker.nd] - A[:, 8:8 + ker.nd]
        h = 0.5 * (A[:, 18] + (st[10] if soft else 0.0))
        x = np.sqrt((d * d).sum(1)) / h
        z += st[9] * np.where(x < ker.range, ker.dpotdh(x), 0.0) / h ** 2
    return z
