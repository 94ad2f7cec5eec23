"""Independent exact solution of the ideal-gas Riemann problem (Toro ch. 4), vectorised, pressure by bisection."""
import numpy as np


def f_side(p, pk, dk, ck, g):
    A = 2/((g+1)*dk); B = (g-1)/(g+1)*pk
    with np.errstate(all="ignore"):
        sh = (p - pk)*np.sqrt(A/(p + B))
        ra = 2*ck/(g-1)*((p/pk)**((g-1)/(2*g)) - 1)
    return np.where(p > pk, sh, ra)


def star(pl, pr, dl, dr, ul, ur, g):
    """p*, u*, vacuum flag."""
    pl, pr, dl, dr, ul, ur = [np.asarray(a, float) for a in (pl, pr, dl, dr, ul, ur)]
    cl, cr = np.sqrt(g*pl/dl), np.sqrt(g*pr/dr)
    vac = 2*(cl + cr)/(g-1) <= ur - ul
    F = lambda p: f_side(p, pl, dl, cl, g) + f_side(p, pr, dr, cr, g) + ur - ul
    lo = np.full_like(pl, -300.0)            # log10 p bracket
    hi = np.full_like(pl, 300.0)
    hi = np.log10(np.maximum(pl, pr)) + 1
    for _ in range(60):
        bad = F(10**hi) < 0
        if not bad.any():
            break
        hi = np.where(bad, hi + 3, hi)
    lo = np.minimum(np.log10(np.minimum(pl, pr)) - 2, hi - 1)
    for _ in range(200):
        bad = (F(10**lo) > 0) & (lo > -300)
        if not bad.any():
            break
        lo = np.where(bad, lo - 3, lo)
    for _ in range(120):
        m = 0.5*(lo + hi)
        v = F(10**m) > 0
        hi = np.where(v, m, hi); lo = np.where(v, lo, m)
    p = 10**(0.5*(lo + hi))
    u = 0.5*(ul + ur) + 0.5*(f_side(p, pr, dr, cr, g) - f_side(p, pl, dl, cl, g))
    p = np.where(vac, 0.0, p)
    return p, u, vac


def sample(s, pl, pr, dl, dr, ul, ur, g):
    """p, d, u at x/t = s (density and pressure zero inside a vacuum); also p*, u*, vac."""
    pl, pr, dl, dr, ul, ur, s = np.broadcast_arrays(*[np.asarray(a, float) for a in (pl, pr, dl, dr, ul, ur, s)])
    ps, us, vac = star(pl, pr, dl, dr, ul, ur, g)
    cl, cr = np.sqrt(g*pl/dl), np.sqrt(g*pr/dr)
    g6 = (g-1)/(g+1)

    def left(s, pk, dk, uk, ck, ps, us):
        with np.errstate(all="ignore"):
            r = ps/pk
            # shock
            S = uk - ck*np.sqrt((g+1)/(2*g)*r + (g-1)/(2*g))
            shock = ps > pk
            d_sh = np.where(s <= S, dk, dk*(r + g6)/(r*g6 + 1)); u_sh = np.where(s <= S, uk, us); p_sh = np.where(s <= S, pk, ps)
            # rarefaction
            head = uk - ck
            tail = np.where(vac, uk + 2*ck/(g-1), us - ck*r**((g-1)/(2*g)))
            c = 2/(g+1)*(ck + (g-1)/2*(uk - s))
            c = np.maximum(c, 0)
            d_f = dk*(c/ck)**(2/(g-1)); u_f = 2/(g+1)*(ck + (g-1)/2*uk + s); p_f = pk*(c/ck)**(2*g/(g-1))
            d_s = np.where(vac, 0.0, dk*r**(1/g)); p_s = np.where(vac, 0.0, ps); u_s = np.where(vac, 0.0, us)
            d_r = np.where(s <= head, dk, np.where(s < tail, d_f, d_s))
            u_r = np.where(s <= head, uk, np.where(s < tail, u_f, u_s))
            p_r = np.where(s <= head, pk, np.where(s < tail, p_f, p_s))
        return np.where(shock, p_sh, p_r), np.where(shock, d_sh, d_r), np.where(shock, u_sh, u_r)

    mid = np.where(vac, 0.5*(ul + 2*cl/(g-1) + ur - 2*cr/(g-1)), us)
    pL, dL, uL = left(s, pl, dl, ul, cl, ps, us)
    pR, dR, uR = left(-s, pr, dr, -ur, cr, ps, -us)
    isl = s <= mid
    return np.where(isl, pL, pR), np.where(isl, dL, dR), np.where(isl, uL, -uR), ps, us, vac


def wave_speeds(pl, pr, dl, dr, ul, ur, g):
    """All discontinuity/kink positions (heads, tails, shocks, contact) as a list of arrays."""
    ps, us, vac = star(pl, pr, dl, dr, ul, ur, g)
    cl, cr = np.sqrt(g*pl/dl), np.sqrt(g*pr/dr)
    with np.errstate(all="ignore"):
        L1 = np.where(ps > pl, ul - cl*np.sqrt((g+1)/(2*g)*ps/pl + (g-1)/(2*g)), ul - cl)
        R1 = np.where(ps > pr, ur + cr*np.sqrt((g+1)/(2*g)*ps/pr + (g-1)/(2*g)), ur + cr)
        L2 = np.where(ps > pl, L1, us - cl*(ps/pl)**((g-1)/(2*g)))
        R2 = np.where(ps > pr, R1, us + cr*(ps/pr)**((g-1)/(2*g)))
    return [L1, L2, us, R2, R1]
