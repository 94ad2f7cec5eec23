"""C18: smoothing kernels are normalised, mutually consistent, and the tables agree with the direct functions (monitor on direct calls)."""
import os
import numpy as np
import vlib
import sphref

DRIVERS = ["gdrv", "gunit"]
NOBUILD = [("asan", "gdrv")]
VARIANTS = ["plain", "asan"]
RULE = ("cases = kernel x dimension x {direct, tabulated} x random argument sets (VERIF_SEED) plus the table edges and the edge of the support in floating point; "
        "every returned value is compared with an independent quadrature/derivative of the kernel; non-trivial when >=1000 arguments were judged; distinct = case")
ASSUMPTIONS = ["gravity functions are judged for the kernels that provide them (m4, quintic; the Gaussian kernel has none)",
               "the tabulated kernels may differ from the direct ones by the variation over 1/500 of the support"]
COLS = ["w0", "w1", "womega", "wzeta", "wgrav", "wpot", "w0_s2", "womega_s2", "wzeta_s2"]


def cases(tier, seed):
    g = vlib.rng_for("C18", seed)
    out = []
    for rep in range(1 if tier == "quick" else 25):
        for kern in ("m4", "quintic", "gaussian"):
            for nd in (1, 2, 3):
                for tab in (0, 1):
                    out.append({"kernel": kern, "nd": nd, "tab": tab, "seed": int(g.randint(1 << 31)), "n": 4000 if tier == "quick" else 20000, "rep": rep,
                                "variant": "asan" if rep == 0 else "plain", "cost": 1 + tab})
    return out


def gauss_int(f, a, b, n=4000):
    x, w = np.polynomial.legendre.leggauss(16)
    e = np.linspace(a, b, n//16 + 1)
    h = 0.5*(e[1:] - e[:-1])
    m = 0.5*(e[1:] + e[:-1])
    return float(((f((m[:, None] + h[:, None]*x[None, :]).ravel()).reshape(len(m), 16)*w).sum(1)*h).sum())


def run_case(c, wd, res):
    nd, kern, tab = c["nd"], c["kernel"], c["tab"]
    g = np.random.RandomState(c["seed"])
    K = sphref.Kernel(kern, nd)
    R = K.range
    # arguments: uniform, log-spaced, table nodes of several table sizes and their neighbours in floating point, the edge of the support, beyond
    s = [g.uniform(0, 1.3*R, c["n"]), R*10**g.uniform(-8, 0, c["n"]//2), R*np.sqrt(g.uniform(0, 1, c["n"]//4)), R*10**g.uniform(0, 4, c["n"]//4)]
    nodes = R*np.arange(0, 1001)/1000.0
    edge = np.array([0.0, R, np.nextafter(R, 0), np.nextafter(R, 9), np.nextafter(R*R, 0)**.5, 1.0, np.nextafter(1, 0), 2.0, np.nextafter(2, 0), 1e-300])
    s += [nodes, np.nextafter(nodes, 0), np.nextafter(nodes, 9), edge]
    s = np.abs(np.concatenate(s))
    s[s == 0] = 0.0
    arr = {"s.raw": s}
    f = vlib.run_driver(["kernel %d %s %d s.raw o.raw x.raw" % (nd, kern, tab)], wd, arrays=arr, name="u", timeout=300, exe="gunit", variant=c["variant"])
    if f.failure():
        res.fail("crash:" + f.failure(), f.out[-800:])
        return
    raw = np.fromfile(os.path.join(wd, "o.raw"))
    ex = np.fromfile(os.path.join(wd, "x.raw")).reshape(-1, 2)
    kr, ikr, kr2, norm = raw[:4]
    v = raw[4:].reshape(-1, 9)
    D = dict(zip(COLS, v.T))
    res.check(kr == R, "kernrange", "%g vs %g" % (kr, R))
    res.bound("kernrange consistent", max(abs(ikr*R - 1), abs(kr2/R/R - 1)), 1e-14, "1/range, range^2")
    res.count("arguments", len(s)); res.count("values", v.size + len(s)*(1 + tab))
    tag = "tab" if tab else "dir"
    # ---- definition of every function, from the kernel alone
    ref = {"w0": K.w(s), "w1": K.dw(s), "womega": K.womega(s)}
    ref["w0_s2"] = ref["w0"]; ref["womega_s2"] = ref["womega"]
    if kern != "gaussian":
        with np.errstate(divide="ignore", invalid="ignore", over="ignore"):
            ref["wgrav"] = np.where(s > 0, K.wgrav(np.where(s > 0, s, 1)), 0.0)
            ref["wpot"] = np.where(s > 1e-9, K.wpot(np.where(s > 1e-9, s, 1e-9)), 0.0)
            ref["wpot"][s <= 1e-9] = K.wpot(np.array([1e-9]))[0]
            ref["wzeta"] = np.where(s < R, ref["wpot"] - s*ref["wgrav"], 0.0)
        ref["wzeta_s2"] = ref["wzeta"]
    fine = np.linspace(0, R, 200001)[1:-1]
    with np.errstate(all="ignore"):
        fr = {"w0": K.w(fine), "w1": K.dw(fine), "womega": K.womega(fine)}
        if kern != "gaussian":
            fr["wgrav"] = K.wgrav(fine); fr["wpot"] = K.wpot(fine); fr["wzeta"] = fr["wpot"] - fine*fr["wgrav"]
    inside, outside = s < R, s >= R
    for name, r in ref.items():
        base = name.replace("_s2", "")
        got = D[name]
        scale = np.abs(fr[base]).max()
        # at the kernel edge the squared argument may round across the support
        near = np.abs(s/R - 1) < 1e-12
        if tab:
            step = R/500.0
            slope = np.abs(np.diff(fr[base])/np.diff(fine)).max()*1.05
            if name.endswith("_s2"):
                # step in s^2
                slope2 = np.abs(np.diff(fr[base])/np.diff(fine**2))
                slope2 = slope2[fine[1:] > R/300.].max()*1.1 + (np.abs(np.diff(fr[base])[:5]/np.diff(fine**2)[:5]).max())
                lim = slope2*R*R/500.0
            else:
                lim = slope*step
            lim = np.where(inside, lim + 1e-12*scale, 1e-12*np.maximum(np.abs(r), 1e-300))
            if base in ("wgrav", "wpot"):
                lim = np.where(near, np.maximum(lim, slope*step), lim)
            else:
                lim = np.where(near, np.maximum(lim, slope*step), lim)
        else:
            lim = np.where(inside, 2e-11*scale, 1e-12*np.maximum(np.abs(r), 1e-300))
            if kern == "gaussian":
                lim = np.where(near, scale, lim)      # the Gaussian is truncated with a step at the edge of its support
            lim = np.where(near, np.maximum(lim, 1e-9*scale), lim)
        if tab and kern == "gaussian":
            lim = np.where(near, scale, lim)
        bad = np.abs(got - r)/np.where(lim > 0, lim, 1e-300)
        k = int(np.argmax(np.where(np.isfinite(bad), bad, 1e30)))
        res.bound("%s:%s" % (tag, name), float(bad[k]), 1.0, "%s nd=%d %s: s=%.17g got %.10g expected %.10g" % (kern, nd, name, s[k], got[k], r[k]))
    w0 = D["w0"]
    res.check((w0 >= -1e-11*norm).all(), tag + ":w0 negative", kern)
    res.check((w0[s > R*(1 + 1e-12)] == 0).all() and (D["w1"][s > R*(1 + 1e-12)] == 0).all(), tag + ":support", "non-zero beyond the support")
    o = np.argsort(s[inside])
    res.check((np.diff(w0[inside][o]) <= 1e-11*norm).all(), tag + ":w0 not monotone", kern)
    # ---- normalisation measured on the returned values (quadrature nodes in a second call)
    om = {1: lambda x: 2.0, 2: lambda x: 2*np.pi*x, 3: lambda x: 4*np.pi*x*x}[nd]
    n = 20000
    xm = (np.arange(n) + .5)*R/n
    q = np.concatenate([xm, np.linspace(0, 0.999*R, 60)])
    f = vlib.run_driver(["kernel %d %s %d q.raw qo.raw qx.raw" % (nd, kern, tab)], wd, arrays={"q.raw": q}, name="v", timeout=300, exe="gunit", variant=c["variant"])
    if f.failure():
        res.fail("crash:" + f.failure(), f.out[-800:])
        return
    v2 = np.fromfile(os.path.join(wd, "qo.raw"))[4:].reshape(-1, 9)
    x2 = np.fromfile(os.path.join(wd, "qx.raw")).reshape(-1, 2)
    wt = np.array([om(x) for x in xm])*R/n
    I = float((v2[:n, 0]*wt).sum())
    slack = 5e-3 if tab else 1e-6
    exact = 1.0
    if kern == "gaussian":
        exact = gauss_int(lambda x: np.array([om(y) for y in x])*K.w(x), 0, R, 1600)
        res.check(abs(exact - 1) < 1e-3, "gaussian truncation", str(exact))
    res.bound(tag + ":normalised", abs(I - exact), slack, "%s nd=%d integral %.9g (expected %.9g)" % (kern, nd, I, exact))
    # gradient is the derivative of what was returned: integral of w1 over [0,R] = -w0(0)
    if not tab:
        res.bound(tag + ":w1 integrates to w0", abs((v2[:n, 1].sum()*R/n) + K.w(np.array([0.0]))[0] - K.w(np.array([R*(1-1e-12)]))[0]), 1e-6*norm, kern)
    # drag kernel: double hump proportional to s^2 W with unit volume integral
    Id = float((x2[:n, 0]*wt).sum())
    res.bound(tag + ":wdrag normalised", abs(Id - 1), 4e-3, "%s nd=%d integral %.9g" % (kern, nd, Id))
    shp = xm*xm*K.w(xm)
    nrm = float((shp*wt).sum())
    dmax = shp.max()/nrm
    res.bound(tag + ":wdrag shape", np.abs(x2[:n, 0] - shp/nrm).max()/dmax, 2e-2 if tab else 4e-3, "%s nd=%d" % (kern, nd))
    if tab:
        b = q[n:]
        los = np.array([2*gauss_int(lambda z: K.w(np.sqrt(z*z + y*y)), 0, np.sqrt(max(R*R - y*y, 0)), 800) for y in b])
        res.bound("tab:wLOS", np.abs(x2[n:, 1] - los).max()/los[0], 6e-3, "%s nd=%d worst at s=%g" % (kern, nd, b[np.argmax(np.abs(x2[n:, 1] - los))]))
        res.check((ex[s >= R*(1 + 1e-12), 1] == 0).all(), "tab:wLOS beyond support", "")
    res.nontrivial = True
    res.sig = (kern, nd, tab, c["rep"])
