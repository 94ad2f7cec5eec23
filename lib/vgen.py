"""Case generators: particle distributions and parameter sets."""
import numpy as np


def lattice(nd, n):
    """n per dimension, unit box."""
    g = (np.arange(n)+0.5)/n
    return np.stack([a.ravel() for a in np.meshgrid(*([g]*nd), indexing="ij")], axis=1)


def positions(rng, nd, N, kind):
    """Points in the unit box [0,1)^nd."""
    if kind == "uniform":
        r = rng.uniform(0, 1, (N, nd))
    elif kind == "lattice":
        n = max(3, int(round(N**(1.0/nd))))
        r = lattice(nd, n)
    elif kind == "jitter":
        n = max(3, int(round(N**(1.0/nd))))
        r = lattice(nd, n) + rng.uniform(-0.3, 0.3, (n**nd, nd))/n
    elif kind == "clustered":
        nc = 3
        c = rng.uniform(0.25, 0.75, (nc, nd))
        w = rng.uniform(0.02, 0.1, nc)
        i = rng.randint(0, nc, N)
        r = c[i] + rng.normal(0, 1, (N, nd))*w[i][:, None]
        m = rng.uniform(size=N) < 0.3
        r[m] = rng.uniform(0, 1, (m.sum(), nd))
    elif kind == "plummer":
        x = rng.uniform(0.02, 0.95, N)
        rr = 0.08/np.sqrt(x**(-2.0/3) - 1)
        rr = np.minimum(rr, 0.49)
        d = rng.normal(size=(N, nd))
        d /= np.sqrt((d*d).sum(1))[:, None]
        r = 0.5 + d*rr[:, None]
    elif kind == "line":   # strongly anisotropic
        r = rng.uniform(0, 1, (N, nd))
        r[:, 1:] = 0.5 + 0.05*(r[:, 1:]-0.5)
    elif kind == "shell":
        d = rng.normal(size=(N, nd))
        d /= np.sqrt((d*d).sum(1))[:, None]
        r = 0.5 + d*(0.35 + 0.1*rng.uniform(size=(N, 1)))
    else:
        raise ValueError(kind)
    return np.clip(r, 1e-6, 1-1e-6)


KINDS = ["uniform", "lattice", "jitter", "clustered", "plummer", "line", "shell"]


def masses(rng, N, kind):
    if kind == "equal":
        return np.full(N, 1.0/N)
    if kind == "random":
        m = rng.uniform(0.5, 1.5, N)
        return m/m.sum()
    if kind == "wide":
        m = 10**rng.uniform(-1, 1, N)
        return m/m.sum()
    raise ValueError(kind)


def box_params(nd, lo, hi, bl, br):
    p = {}
    for k in range(nd):
        p["boxmin[%d]" % k] = float(lo[k])
        p["boxmax[%d]" % k] = float(hi[k])
        p["boundary_lhs[%d]" % k] = bl[k]
        p["boundary_rhs[%d]" % k] = br[k]
    return p


def choose_boundaries(rng, nd, mode=None):
    """Boundary type pairs per dimension: mixes of open, periodic, mirror (also one-sided mirrors)."""
    bl, br = [], []
    for k in range(nd):
        m = mode if mode not in (None, "mixed") else rng.choice(["open", "periodic", "mirror", "ml", "mr"], p=[.2, .4, .2, .1, .1])
        if m == "ml":
            bl.append("mirror"); br.append("open")
        elif m == "mr":
            bl.append("open"); br.append("mirror")
        else:
            bl.append(m); br.append(m)
    return bl, br


BASE = {"ic": "python", "run_id": "V", "dimensionless": 1, "tend": 1e30, "dt_snap": 1e30, "tsnapfirst": 1e30, "tlitesnapfirst": 1e30,
        "noutputstep": 2000000000, "ndiagstep": 2000000000, "nrestartstep": 2000000000, "Nstar": 0, "Nhydro": 0}


def hydro_arrays(nd, r, v, m, u=None, h=None, typ="sph"):
    """script lines + array files for a python IC"""
    lines, arr = [], {}

    def add(q, a):
        fn = "%s_%s.raw" % (typ, q)
        arr[fn] = a
        lines.append("array %s %s %s" % (typ, q, fn))
    for k in range(nd):
        add("xyz"[k], r[:, k])
    for k in range(nd):
        add("v" + "xyz"[k], v[:, k])
    add("m", m)
    if u is not None:
        add("u", u)
    if h is not None:
        add("h", h)
    return lines, arr
