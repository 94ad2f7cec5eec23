"""Independent lattice sums of 1/r in 1, 2 or 3 periodic dimensions of a 3-D box (no code shared with the program).
corr(d, L, per) -> (potential, acceleration) of all periodic images except the one at d itself; d = source - target; the potential has an arbitrary constant."""
import numpy as np
from scipy.special import erfc, erf, k0, k1


def own(d):
    r2 = (d*d).sum(-1)
    r = np.sqrt(r2)
    with np.errstate(all="ignore"):
        return 1/r, d/(r2*r)[..., None]


def row_direct(x, rho, L, M=300):
    """images n != 0 of a point at (x, rho) along an axis of period L -> psi, a_x, a_rho (psi relative to sum 2/(nL))"""
    n = np.arange(1, M + 1)
    xp = x[..., None] + n*L
    xm = x[..., None] - n*L
    r2 = (rho*rho)[..., None]
    rp, rm = np.sqrt(xp*xp + r2), np.sqrt(xm*xm + r2)
    T = 1.0/(L**3*(M + .5)**2)
    psi = (1/rp + 1/rm - 2/(n*L)).sum(-1) + (2*x*x - rho*rho)*T/2
    ax = (xp/rp**3 + xm/rm**3).sum(-1) - 2*x*T
    ar = rho*(1/rp**3 + 1/rm**3).sum(-1) + rho*T
    return psi, ax, ar


def row_full_minus_line(x, rho, L, K=9):
    """full row of images minus the line of the same mean density (psi relative to the same constant as row_direct + 1/r), both forms"""
    psi, ax, ar = np.zeros_like(x), np.zeros_like(x), np.zeros_like(x)
    far = rho > .45*L
    if far.any():
        X, R = x[far], rho[far]
        for k in range(1, K + 1):
            q = 2*np.pi*k/L
            psi[far] += 4/L*k0(q*R)*np.cos(q*X)
            ax[far] += 4/L*q*k0(q*R)*np.sin(q*X)
            ar[far] += 4/L*q*k1(q*R)*np.cos(q*X)
    nr = ~far
    if nr.any():
        X, R = x[nr], np.maximum(rho[nr], 1e-12*L)
        X = X - L*np.round(X/L)
        p, a, b = row_direct(X, R, L)
        r = np.sqrt(X*X + R*R)
        # constant: psi_row_direct + 1/r -> -(2/L) ln(rho) + C with C = (2/L)(ln(2L) - euler_gamma)
        C = 2/L*(np.log(2*L) - np.euler_gamma)
        psi[nr] = p + 1/r - (-2/L*np.log(R) + C)
        ax[nr] = a + X/r**3
        ar[nr] = b + R/r**3 - 2/(L*R)
    return psi, ax, ar


def corr(d, L, per):
    d = np.asarray(d, float)
    ax = [k for k in range(3) if per[k]]
    iso = [k for k in range(3) if not per[k]]
    a = np.zeros_like(d)
    if len(ax) == 1:
        k = ax[0]
        i, j = iso
        rho = np.hypot(d[:, i], d[:, j])
        psi, fx, fr = row_direct(d[:, k], rho, L[k])
        with np.errstate(all="ignore"):
            far = rho > .9*L[k]
            if far.any():
                p, x1, r1 = row_full_minus_line(d[far, k], rho[far], L[k])
                o = np.sqrt(d[far, k]**2 + rho[far]**2)
                C = 2/L[k]*(np.log(2*L[k]) - np.euler_gamma)
                psi[far] = p - 2/L[k]*np.log(rho[far]) + C - 1/o
                fx[far] = x1 - d[far, k]/o**3
                fr[far] = r1 + 2/(L[k]*rho[far]) - rho[far]/o**3
            u = np.where(rho > 0, 1/np.where(rho > 0, rho, 1), 0)
        a[:, k] = fx
        a[:, i] = fr*d[:, i]*u
        a[:, j] = fr*d[:, j]*u
        return psi, a
    if len(ax) == 2:
        p, q = ax
        c = iso[0]
        La, Lb = L[p], L[q]
        R = int(np.ceil(4*La/Lb)) + 2
        d = d.copy()
        d[:, c] = np.where(np.hypot(d[:, c], d[:, q]) < 1e-7*Lb, 1e-7*Lb, d[:, c])   # the line and row terms are singular on the axis, their sum is not
        w = d[:, c] + 1j*d[:, q]
        z = np.pi*w/Lb
        f = np.pi/Lb/np.tanh(z)
        a[:, c] = 2/La*f.real
        a[:, q] = -2/La*f.imag
        s = np.where(z.real < 0, -z, z)
        psi = -2/La*(s.real + np.log(np.abs(1 - np.exp(-2*s))))
        for m in range(-R, R + 1):
            db = d[:, q] + m*Lb
            rho = np.hypot(db, d[:, c])
            P, fx, fr = row_full_minus_line(d[:, p], rho, La)
            psi += P
            a[:, p] += fx
            rr = np.where(rho > 0, rho, 1)
            a[:, q] += fr*db/rr
            a[:, c] += fr*d[:, c]/rr
        o, ao = own(d)
        return psi - o, a - ao
    V = L[0]*L[1]*L[2]
    al = np.sqrt(np.pi)/V**(1/3.)
    psi = np.zeros(len(d))
    rc = 5.8/al
    nm = [int(np.ceil(rc/l + .5)) for l in L]
    for n0 in range(-nm[0], nm[0] + 1):
        for n1 in range(-nm[1], nm[1] + 1):
            for n2 in range(-nm[2], nm[2] + 1):
                v = d + np.array([n0, n1, n2])*np.asarray(L)
                r = np.sqrt((v*v).sum(1))
                if n0 == n1 == n2 == 0:
                    rr = np.maximum(r, 1e-9)
                    psi += -erf(al*rr)/rr
                    a += ((-erf(al*rr)/rr + 2*al/np.sqrt(np.pi)*np.exp(-(al*rr)**2))/rr**2)[:, None]*v
                else:
                    psi += erfc(al*r)/r
                    a += ((erfc(al*r)/r + 2*al/np.sqrt(np.pi)*np.exp(-(al*r)**2))/r**2)[:, None]*v
    kc = 2*al*5.8
    hm = [int(np.ceil(kc*l/(2*np.pi))) for l in L]
    H = np.array([(i, j, k) for i in range(-hm[0], hm[0] + 1) for j in range(-hm[1], hm[1] + 1) for k in range(-hm[2], hm[2] + 1) if (i, j, k) > (0, 0, 0)])
    K = 2*np.pi*H/np.asarray(L)
    k2 = (K*K).sum(1)
    K, k2 = K[k2 < kc*kc], k2[k2 < kc*kc]
    A = 2*4*np.pi/V*np.exp(-k2/(4*al*al))/k2
    ph = d @ K.T
    psi += np.cos(ph) @ A
    a += np.sin(ph) @ (A[:, None]*K)
    return psi - np.pi/(al*al*V), a
