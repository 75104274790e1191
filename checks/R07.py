"""R07: changing a Stokes I model's reference frequency does not change the model."""
import itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref
import numpy as np
from RMutils.util_misc import FitResult, calculate_StokesI_model, renormalize_StokesI_model

PID, LEVEL = "R07", "exploration"
RULE = ("one evaluation = one history of reference-frequency changes of one model (coefficient support, covariance); every prefix of the "
        "history is compared with the closed form; non-trivial = at least one coefficient besides the flux is non-zero")
ASSUMPTIONS = ["uncertainties are compared with exact first-order propagation (the code's documented approximation)"]
CHUNK = 4
RATIOS = [0.7, 0.95, 1.0, 1.08, 1.6]
AMP = [0.3, -0.7, 0.11, 0.25, -0.9, 2.5]  # coefficient values highest order first


def model(p6, x, ff):
    p6 = [float(t) for t in p6]
    if ff == "linear":
        return sum(p6[5 - i] * x**i for i in range(6))
    L = np.log10(x)
    return p6[5] * 10 ** (sum(p6[5 - i] * L**i for i in range(1, 6)))


def reexpress(p6, x, ff):
    """coefficients at a reference frequency x times the old one, by polynomial algebra"""
    p6 = np.array(p6, float)
    if ff == "linear":
        return p6 * x ** np.arange(5, -1, -1)
    L = np.log10(x)
    poly = np.poly1d(np.r_[p6[:5], 0.0])
    sh = poly(np.poly1d([1.0, L]))  # p(l + L)
    c = np.zeros(6)
    cc = sh.coeffs
    c[6 - len(cc):] = cc
    c0 = c[5]
    c[5] = p6[5] * 10**c0
    return c


def jac(p6, x, ff):
    p6 = np.array(p6, float)
    if ff == "linear":
        return np.diag(x ** np.arange(5, -1, -1))
    from math import comb

    L = np.log10(x)
    J = np.zeros((6, 6))
    for i in range(1, 6):  # old order i contributes comb(i,k) L^(i-k) to new order k
        for k in range(1, i + 1):
            J[5 - k, 5 - i] = comb(i, k) * L ** (i - k)
    s = 10 ** (sum(p6[5 - i] * L**i for i in range(1, 6)))
    J[5, 5] = s
    for i in range(1, 6):
        J[5, 5 - i] = p6[5] * s * np.log(10) * L**i
    return J


def covs():
    rng = np.arange(36).reshape(6, 6)
    A = np.cos(rng * 1.7) * 0.1
    d = np.array([0.05, 0.02, 0.1, 0.03, 0.04, 0.2])
    v = np.outer(d, d)
    return {"diag": np.diag(d**2), "full": v.copy(), "anti": v * np.outer([1, -1, 1, -1, 1, -1], [1, -1, 1, -1, 1, -1]),
            "mixed": A @ A.T, "zero": np.zeros((6, 6)), "fluxonly": np.diag([0, 0, 0, 0, 0, 0.04])}


def cases(tier):
    big = tier == "thorough"
    out = []
    hist = [h for k in (1, 2, 3) for h in itertools.product(range(len(RATIOS)), repeat=k)]
    for ff in ("log", "linear"):
        for cov in covs():
            for blk in range(0, 64):
                out.append(dict(ff=ff, cov=cov, support=blk, depth=3 if big else 2))
    return out


def run(case, out):
    ff = case["ff"]
    supp = [(case["support"] >> i) & 1 for i in range(6)]
    p = np.array([a * s for a, s in zip(AMP, supp)])
    C0 = covs()[case["cov"]]
    # parameters beyond the support of a fit have no uncertainty
    order = max([5 - i for i in range(6) if supp[i]] + [0])
    free = np.array([5 - i <= order for i in range(6)])
    C0 = C0 * np.outer(free, free)
    f0 = 1.1e9
    dof = (5, 0, 1, 12)[case["support"] % 4]
    freqs = np.array([0.6e9, 0.9e9, 1.1e9, 1.3e9, 2.0e9])
    for hist in [h for k in range(1, case["depth"] + 1) for h in itertools.product(range(len(RATIOS)), repeat=k)]:
        r = FitResult(params=p.copy(), fitStatus=3, chiSq=7.5, chiSqRed=1.5, AIC=11.0, polyOrd=order, nIter=4, reference_frequency_Hz=f0, dof=dof,
                      pcov=C0.copy(), perror=np.sqrt(np.diag(C0)), fit_function=ff)
        ip, ic = r.params.copy(), r.pcov.copy()
        base = model(p, freqs / f0, ff)
        cur, freq, C = p.copy(), f0, C0.copy()
        out.ev(any(supp[:5]))
        q = r
        for n, h in enumerate(hist + (None,)):
            newf = f0 if h is None else freq * RATIOS[h]
            info = lambda: "params %s, cov %s, %s history %s step %d" % (p, case["cov"], ff, [RATIOS[k] for k in hist], n)
            prev = q
            q = renormalize_StokesI_model(prev, newf)
            out.step()
            x = newf / freq
            J = jac(cur, x, ff)
            cur, C, freq = reexpress(cur, x, ff), J @ C @ J.T, newf
            out.check(q.reference_frequency_Hz == newf, "reffreq", lambda: "reference frequency %r not %r; %s" % (q.reference_frequency_Hz, newf, info()))
            got = np.array(q.params, float)
            out.check(got.shape == (6,) and np.allclose(got, cur, rtol=1e-9, atol=1e-12), "coef", lambda: "coefficients %s expected %s; %s" % (got, cur, info()))
            ev = np.array(calculate_StokesI_model(q, freqs))
            out.check(np.allclose(ev, base, rtol=1e-8, atol=1e-12), "model", lambda: "model changed: %s was %s; %s" % (ev, base, info()))
            d = np.sqrt(np.abs(np.diag(C)))
            pe = np.array(q.perror, float)
            out.check(np.allclose(pe, d, rtol=1e-6, atol=1e-9 * (1 + d.max())), "errors", lambda: "errors %s expected %s; %s" % (pe, d, info()))
            pc = np.array(q.pcov, float)
            out.check(pc.shape == (6, 6) and np.allclose(pc, C, rtol=1e-6, atol=1e-9 * (1e-12 + np.abs(C).max())), "cov", lambda: "covariance %s expected %s; %s" % (pc, C, info()))
            same = all(getattr(q, k) == getattr(r, k) for k in ("fitStatus", "chiSq", "chiSqRed", "AIC", "polyOrd", "nIter", "dof", "fit_function"))
            out.check(same, "stats", lambda: "fit statistics changed; " + info())
            out.state(ff, got, pe, newf)
        out.check(np.array_equal(r.params, ip) and np.array_equal(r.pcov, ic) and r.reference_frequency_Hz == f0, "inputs", lambda: "the given fit was modified; " + info())
        out.check(np.allclose(q.params, p, rtol=1e-8, atol=1e-10) and np.allclose(q.pcov, C0, rtol=1e-6, atol=1e-10), "return", lambda: "returning to the first frequency does not restore the model; " + info())
    out.sig = "o%d" % order


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
