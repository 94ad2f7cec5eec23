"""Independent reference formulas: smoothing kernels, neighbour sums over periodic/mirror images, SPH forces, gravity.

Written from the definitions in the literature (Monaghan & Lattanzio 1985; Price & Monaghan 2004, 2007; Springel &
Hernquist 2002 conservative grad-h SPH), not from the code under test.  All loops are plain O(N^2) numpy.
"""
import numpy as np
from numpy.polynomial import polynomial as P

try:
    trapz = np.trapezoid
except AttributeError:
    trapz = np.trapz


class Kernel(object):
    """Compact radial kernel given as piecewise polynomials in s=r/h (or a Gaussian), normalised numerically.

    Everything else (W', dW/dh, softened gravity) is derived from W alone: force from the enclosed mass of the
    3-D kernel, potential by integration of the force, zeta from d(phi)/dh.
    """

    def __init__(self, name, nd):
        self.name, self.nd = name, nd
        if name == "m4":
            self.range = 2.0
            seg = [(0, 1, [1, 0, -1.5, 0.75]), (1, 2, list(0.25*P.polypow([2, -1], 3)))]
        elif name == "quintic":
            self.range = 3.0
            a3, a2, a1 = P.polypow([3, -1], 5), P.polypow([2, -1], 5), P.polypow([1, -1], 5)
            seg = [(0, 1, list(a3 - 6*a2 + 15*a1)), (1, 2, list(a3 - 6*a2)), (2, 3, list(a3))]
        elif name == "gaussian":
            self.range = 3.0
            seg = None
        else:
            raise ValueError(name)
        self.seg = seg
        self.norm = 1.0/self._integral(nd) if seg else np.pi**(-0.5*nd)
        if seg:
            self.norm3 = 1.0/self._integral(3)
            self._grav_setup()

    def _integral(self, nd):
        om = {1: 2.0, 2: 2*np.pi, 3: 4*np.pi}[nd]
        tot = 0.0
        for a, b, c in self.seg:
            ci = P.polyint(P.polymul(c, [0]*(nd-1) + [1]))
            tot += P.polyval(b, ci) - P.polyval(a, ci)
        return om*tot

    def _grav_setup(self):
        # enclosed mass fraction M(s) = 4 pi int W s^2, piecewise polynomials; potential int_s^inf M/s^2
        self.M = []
        acc = 0.0
        for a, b, c in self.seg:
            ci = 4*np.pi*self.norm3*P.polyint(P.polymul(c, [0, 0, 1]))
            ci = P.polyadd(ci, [acc - P.polyval(a, ci)])
            self.M.append((a, b, ci))
            acc = P.polyval(b, ci)
        # potential: phi(s) = phi(b) + int_s^b M(x)/x^2 dx ; M = c0 + c2.. (c1=0)
        self.Ph = []
        right = 1.0/self.range
        for a, b, c in reversed(self.M):
            def F(x, c=c):
                x = np.asarray(x, float)
                with np.errstate(divide="ignore", invalid="ignore"):
                    lo = np.where(abs(c[0]) > 1e-13, -c[0]/x, 0.0)
                    lo = lo + (c[1]*np.log(np.where(x > 0, x, 1)) if len(c) > 1 and abs(c[1]) > 1e-13 else 0.0)
                hi = P.polyint(c[2:]) if len(c) > 2 else np.array([0.0])
                return lo + P.polyval(x, hi)
            self.Ph.append((a, b, F, right))
            right = right + float(F(b) - F(a)) if a > 0 else right
        self.Ph.reverse()

    def _eval(self, s, coefs):
        s = np.asarray(s, float)
        out = np.zeros_like(s)
        for a, b, c in coefs:
            m = (s >= a) & (s < b)
            if m.any():
                out[m] = P.polyval(s[m], c)
        return out

    def w(self, s):
        s = np.asarray(s, float)
        if self.seg is None:
            return np.where(s < self.range, self.norm*np.exp(-s*s), 0.0)
        return self.norm*self._eval(s, self.seg)

    def dw(self, s):
        s = np.asarray(s, float)
        if self.seg is None:
            return np.where(s < self.range, -2*s*self.norm*np.exp(-s*s), 0.0)
        return self.norm*self._eval(s, [(a, b, P.polyder(c)) for a, b, c in self.seg])

    def womega(self, s):
        """h^{nd+1} dW/dh = -(nd W + s W')."""
        return -(self.nd*self.w(s) + np.asarray(s, float)*self.dw(s))

    def wgrav(self, s):
        """h^2 * force of a unit-mass smoothed source: M(s)/s^2."""
        s = np.asarray(s, float)
        with np.errstate(divide="ignore", invalid="ignore"):
            out = 1.0/(s*s)
            for a, b, c in self.M:
                m = (s >= a) & (s < b)
                if a == 0:
                    out[m] = P.polyval(s[m], c[2:])
                else:
                    out[m] = P.polyval(s[m], c)/s[m]**2
        return out

    def wpot(self, s):
        """-h * potential of a unit-mass smoothed source."""
        s = np.asarray(s, float)
        with np.errstate(divide="ignore"):
            out = 1.0/s
        for a, b, F, right in self.Ph:
            m = (s >= a) & (s < b)
            if m.any():
                out[m] = right + F(b) - F(s[m])
        return out

    def wzeta(self, s):
        """h^2 d(phi)/dh with phi = -wpot(r/h)/h."""
        s = np.asarray(s, float)
        out = self.wpot(s) - s*self.wgrav(s)
        return np.where(s < self.range, out, 0.0)


def images(nd, lo, hi, bl, br, reach):
    """Affine images (sign, offset) per dimension that can put a copy of a particle within `reach` of the box.

    bl/br: boundary types per dimension ('open','periodic','mirror').
    """
    per = []
    for k in range(nd):
        l = [(1.0, 0.0)]
        if bl[k] == "periodic":
            n = max(1, int(np.ceil(reach/(hi[k]-lo[k]))))
            for j in range(1, n+1):
                l += [(1.0, j*(hi[k]-lo[k])), (1.0, -j*(hi[k]-lo[k]))]
        else:
            if bl[k] == "mirror":
                l.append((-1.0, 2*lo[k]))
            if br[k] == "mirror":
                l.append((-1.0, 2*hi[k]))
        per.append(l)
    out = [((), ())]
    for l in per:
        out = [(s + (a,), o + (b,)) for s, o in out for a, b in l]
    return [(np.array(s), np.array(o)) for s, o in out]


def expand(r, v, nd, lo, hi, bl, br, reach):
    """All image positions/velocities and the index of their source; the originals come first."""
    ims = images(nd, lo, hi, bl, br, reach)
    R, V, I = [], [], []
    n = len(r)
    for s, o in ims:
        rr = r*s + o
        if np.all(s == 1) and np.all(o == 0):
            m = np.ones(n, bool)
        else:
            m = np.ones(n, bool)
            for k in range(nd):
                if np.isfinite(lo[k]) and abs(lo[k]) < 1e30:
                    m &= (rr[:, k] > lo[k]-reach) & (rr[:, k] < hi[k]+reach)
        R.append(rr[m]); V.append((v*s)[m]); I.append(np.nonzero(m)[0])
    order = sorted(range(len(ims)), key=lambda q: not (np.all(ims[q][0] == 1) and np.all(ims[q][1] == 0)))
    return (np.concatenate([R[q] for q in order]), np.concatenate([V[q] for q in order]),
            np.concatenate([I[q] for q in order]))


def kernel_sum(ri, h, R, w, kern, nd, func=None, block=200):
    """sum_j w_j K(|ri-Rj|/h_i)/h_i^nd"""
    f = func or kern.w
    out = np.zeros(len(ri))
    for b in range(0, len(ri), block):
        d = ri[b:b+block, None, :] - R[None, :, :]
        s = np.sqrt((d*d).sum(2))/h[b:b+block, None]
        m = s < kern.range
        val = np.zeros_like(s)
        val[m] = f(s[m])
        out[b:b+block] = (val*w[None, :]).sum(1)/h[b:b+block]**nd
    return out


def pairs(ri, radii, R, block=20000):
    """Flat list of (i, j, R_j - r_i) with |R_j - r_i| < radii_i, by an independent KD search (scipy)."""
    from scipy.spatial import cKDTree
    t = cKDTree(R)
    radii = np.broadcast_to(np.asarray(radii, float), (len(ri),))
    lists = t.query_ball_point(ri, radii*(1 + 1e-12))
    n = np.array([len(l) for l in lists])
    i = np.repeat(np.arange(len(ri)), n)
    j = np.fromiter((x for l in lists for x in l), dtype=np.int64, count=int(n.sum()))
    return i, j, R[j] - ri[i]


def box_of(p, nd):
    """(lo, hi, bl, br) from a parameter dict."""
    lo = np.array([p.get("boxmin[%d]" % k, -9.9e30) for k in range(nd)], float)
    hi = np.array([p.get("boxmax[%d]" % k, 9.9e30) for k in range(nd)], float)
    bl = [p.get("boundary_lhs[%d]" % k, "open") for k in range(nd)]
    br = [p.get("boundary_rhs[%d]" % k, "open") for k in range(nd)]
    return lo, hi, bl, br


class Neigh(object):
    """All gather neighbours of the selected particles (explicit images)."""

    def __init__(self, kern, nd, r, h, sel, p, v=None, factor=1.0, scatter_h=None):
        lo, hi, bl, br = box_of(p, nd)
        reach = kern.range*h.max()*factor
        vv = np.zeros_like(r) if v is None else v
        self.R, self.V, self.src = expand(r, vv, nd, lo, hi, bl, br, reach*1.0001)
        self.sel = sel
        self.i, self.j, self.d = pairs(r[sel], kern.range*h[sel]*factor, self.R)
        self.dist = np.sqrt((self.d*self.d).sum(1))
        self.nimage = len(self.R) - len(r)
        self.n = len(sel)

    def sum(self, val):
        return np.bincount(self.i, val, self.n)


class Pairs(object):
    """All interacting pairs (i in sel, image J) with |R_J - r_i| < K max(h_i, h_J): gather plus scatter."""

    def __init__(self, kern, nd, r, v, h, sel, p, live=None, src_ok=None):
        from scipy.spatial import cKDTree
        lo, hi, bl, br = box_of(p, nd)
        ok = np.ones(len(r), bool) if live is None else live
        idx = np.nonzero(ok if src_ok is None else ok & src_ok)[0]
        reach = kern.range*h[idx].max()*1.0001 if len(idx) else 0
        reach = max(reach, kern.range*h[sel].max()*1.0001)
        R, V, s = expand(r[idx], v[idx], nd, lo, hi, bl, br, reach)
        self.R, self.V, self.src = R, V, idx[s]
        self.real = np.zeros(len(R), bool)
        self.real[:len(idx)] = True
        i1, j1, _ = pairs(r[sel], kern.range*h[sel], R)
        ts = cKDTree(r[sel])
        lists = ts.query_ball_point(R, kern.range*h[self.src]*(1 + 1e-12))
        n = np.array([len(l) for l in lists])
        j2 = np.repeat(np.arange(len(R)), n)
        i2 = np.fromiter((x for l in lists for x in l), dtype=np.int64, count=int(n.sum()))
        key = np.unique(np.concatenate([i1.astype(np.int64)*len(R) + j1, i2*len(R) + j2]))
        self.i, self.j = key//len(R), key % len(R)
        own = self.real[self.j] & (self.src[self.j] == sel[self.i])
        self.i, self.j = self.i[~own], self.j[~own]
        self.sel, self.n = sel, len(sel)
        self.d = R[self.j] - r[sel][self.i]
        self.dist = np.sqrt((self.d**2).sum(1))
        self.js = self.src[self.j]                # source particle of the neighbour
        self.is_ = sel[self.i]
        self.dv = V[self.j] - v[self.is_]

    def sum(self, val):
        val = np.asarray(val)
        if val.ndim == 1:
            return np.bincount(self.i, val, self.n)
        return np.stack([np.bincount(self.i, val[:, k], self.n) for k in range(val.shape[1])], axis=1)
