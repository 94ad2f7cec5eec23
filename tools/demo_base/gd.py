"""Small helper of the demonstrations: runs the real simulation code through gdrv and reads its state dumps."""
import json, os, subprocess, sys
import numpy as np
BASE = dict(run_id="D", ic="python", Nsteps_max=9999999, tend=1e9, dt_snap=1e9, noutputstep=9999999, dimensionless=1, sim="sph", ndim=2, hydro_forces=1, self_gravity=0,
            gas_eos="energy_eqn", gamma_eos=1.4, Nlevels=1, kernel="m4", tabulated_kernel=0, h_converge=0.0001, neib_search="kdtree", nbody="lfkdk", sub_systems=0,
            sph_integration="lfkdk", avisc="mon97", acond="none", create_sinks=0, sink_particles=0, Nstar=0, sph="gradh", python_time_interval=1e9)


class Tab(object):
    def __init__(self, cols, data):
        self.cols, self.data, self.n = {c: i for i, c in enumerate(cols)}, data, len(data)

    def __getitem__(self, c):
        return self.data[:, self.cols[c]]

    def vec(self, pre, nd):
        return np.stack([self[pre + "xyz"[k]] for k in range(nd)], 1)


class Dump(object):
    def __init__(self, fn):
        raw = open(fn, "rb").read()
        i = raw.index(b"\n")
        h = json.loads(raw[:i])
        self.s, off, self.t = h["scalars"], i + 1, {}
        for t in h["tables"]:
            n, c = t["n"], len(t["cols"])
            self.t[t["name"]] = Tab(t["cols"], np.frombuffer(raw, np.float64, n*c, off).reshape(n, c) if c else np.zeros((n, 0)))
            off += 8*n*c
        self.part, self.star = self.t.get("part"), self.t.get("star")
        self.ghost, self.cell, self.leafpart, self.sink = [self.t.get(k) for k in ("ghost", "cell", "leafpart", "sink")]


def box(nd, lo, hi, bl, br=None):
    br = br or bl
    p = {}
    for k in range(3):
        if k < nd:
            p.update({"boxmin[%d]" % k: lo[k], "boxmax[%d]" % k: hi[k], "boundary_lhs[%d]" % k: bl[k], "boundary_rhs[%d]" % k: br[k]})
    return p


def run(params, arrays, commands, wd, pre=(), must=True):
    os.makedirs(wd, exist_ok=True)
    p = dict(BASE)
    p.update(params)
    p.setdefault("Nhydro", len(arrays["sph.m"]) if "sph.m" in arrays else 0)
    p.setdefault("dimensionless", 1)
    ls = []
    for k, v in p.items():
        ls.append("param %s %s" % (k, v if not isinstance(v, float) else "0"))
    for k, v in p.items():
        if isinstance(v, float):
            ls.append("fparam %s %.17g" % (k, v))
    ls += ["sim", "prepython"] + list(pre)
    for k, v in arrays.items():
        ty, q = k.split(".")
        np.asarray(v, float).tofile(os.path.join(wd, "in_%s_%s.raw" % (ty, q)))
        ls.append("array %s %s in_%s_%s.raw" % (ty, q, ty, q))
    ls += list(commands)
    open(os.path.join(wd, "script"), "w").write("\n".join(ls) + "\n")
    r = subprocess.run([os.environ["GDRV"], "script"], cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
    if must and r.returncode != 0:
        print("the run failed:", r.returncode, r.stdout.decode(errors="replace")[-600:])
        sys.exit(4)
    return r.returncode


def jitter(nd, n, seed=1, amp=.3):
    g = np.random.RandomState(seed)
    x = (np.arange(n) + .5)/n
    r = np.stack([a.ravel() for a in np.meshgrid(*([x]*nd), indexing="ij")], 1)
    return r + g.uniform(-amp, amp, r.shape)/n


def gas(r, v, m, u):
    a = {}
    for k in range(r.shape[1]):
        a["sph." + "xyz"[k]] = r[:, k]
    for k in range(r.shape[1]):
        a["sph.v" + "xyz"[k]] = v[:, k]
    a["sph.m"] = m
    a["sph.u"] = u
    return a


def done(ok, what):
    print(("OK: " if ok else "BROKEN: ") + what)
    sys.exit(0 if ok else 1)
