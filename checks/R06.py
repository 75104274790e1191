"""R06: Stokes I fit recovers the model and reports its true quality."""
import itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref
import numpy as np
from scipy.optimize import least_squares
from RMutils.util_misc import fit_StokesI_model, calculate_StokesI_model

PID, LEVEL = "R06", "exploration"
RULE = ("one evaluation = one fit; batches enumerate every flag pattern of the channels for one generating model, family, order and "
        "error pattern; non-trivial = some channels are flagged or the data do not follow the model exactly")
ASSUMPTIONS = ["convergence of the least-squares fitter is judged on chi^2, not on individual coefficients, for orders above 3",
               "spectra whose dynamic-order decision depends on an AIC difference below 0.05 accept either order"]
CHUNK = 1

COEF = [  # highest order last: c0.. (flux, index, curvature, ...)
    [2.0], [0.5, -0.7], [3.0, 0.4], [2.0, -0.7, 0.3], [1.5, 0.0, -0.2], [1.0, -0.5, 0.2, -0.4], [2.0, 0.0, 0.0, 0.3],
    [1.0, -0.8, 0.1, 0.2, 0.3], [1.0, 0.5, -0.1, 0.2, 0.1, -0.2],
]


def model(p6, x, ff):
    """p6 highest order first, as returned"""
    a, b, c, d, f, g = [float(t) for t in p6]
    if ff == "linear":
        return a * x**5 + b * x**4 + c * x**3 + d * x**2 + f * x + g
    L = np.log10(x)
    return g * 10 ** (f * L + d * L**2 + c * L**3 + b * L**4 + a * L**5)


def cases(tier):
    big = tier == "thorough"
    out = []
    n = 7 if big else 6
    for ff in ("log", "linear"):
        for ci in range(len(COEF)):
            true = len(COEF[ci]) - 1
            orders = sorted({true, min(5, true + 1), max(0, true - 1), 2, -1, -2, -5} if not big else set(range(0, 6)) | {-1, -2, -3, -4, -5})
            for o in orders:
                for err in ("flat", "vary"):
                    for res in (0.0, 1.0):
                        if not big and err == "vary" and res == 0.0:
                            continue
                        out.append(dict(ff=ff, ci=ci, order=o, err=err, res=res, n=n, neg=False, lay="irr" if ci % 2 else "reg"))
        for o in (0, 1, 2, 3, -2, -4):
            out.append(dict(ff=ff, ci=0, order=o, err="zero", res=1.0, n=n, neg=False, lay="reg"))
            out.append(dict(ff=ff, ci=1, order=o, err="flat", res=1.0, n=n, neg=True, lay="desc"))
            for unit in (1e-8, 3e6, 1e10) if o in (0, 1, 2, -2) or big else ():  # other flux units
                for ci in (0, 1, 3):
                    out.append(dict(ff=ff, ci=ci, order=o, err="vary", res=1.0, n=n, neg=False, lay="irr", unit=unit))
            for m in (20, 60, 288):
                out.append(dict(ff=ff, ci=3, order=o, err="vary", res=1.0, n=m, neg=False, lay="reg"))
    return out


def unpack(q, order):
    p = np.zeros(6)
    p[5 - order:] = q
    return p


def best_fit(x, y, dy, order, ff, start):
    if ff == "linear":
        A = np.vander(x, order + 1) / dy[:, None]
        q, *_ = np.linalg.lstsq(A, y / dy, rcond=None)
        cov = np.linalg.pinv(A.T @ A)
        return unpack(q, order), float(((A @ q - y / dy) ** 2).sum()), cov
    fun = lambda q: (model(unpack(q, order), x, ff) - y) / dy
    best = None
    starts = [start[5 - order:]]
    if np.all(y > 0):
        L = np.log10(x)
        k = np.polyfit(L, np.log10(y), min(order, len(x) - 1))
        k = np.concatenate((np.zeros(order + 1 - len(k)), k))
        k[-1] = 10 ** k[-1]
        starts.append(k)
    for s in starts:
        try:
            r = least_squares(fun, s, method="lm" if len(x) >= order + 1 else "trf", xtol=1e-13, ftol=1e-13, gtol=1e-13)
        except Exception:
            continue
        if best is None or 2 * r.cost < best[1]:
            best = (unpack(r.x, order), 2 * r.cost, None)
    return best


def numjac(p, x, dy, order, ff):
    J = np.zeros((len(x), order + 1))
    for k in range(order + 1):
        h = 1e-5
        up, dn = p.copy(), p.copy()
        up[5 - order + k] += h
        dn[5 - order + k] -= h
        J[:, k] = (model(up, x, ff) - model(dn, x, ff)) / (2 * h) / dy
    return J


def run(case, out):
    ff, n, order, res = case["ff"], case["n"], case["order"], case["res"]
    f = ref.freqs(case["lay"], n) if n < 20 else np.linspace(0.8e9, 1.6e9, n)
    c = COEF[case["ci"]]
    f0 = 1.15e9
    p = np.zeros(6)
    for i, v in enumerate(c):
        p[5 - i] = v
    I = model(p, f / f0, ff)
    dI = np.full(n, 0.02) if case["err"] == "flat" else 0.01 * (1 + (np.arange(n) * 7 % 5)) if case["err"] == "vary" else np.zeros(n)
    I = I + res * 0.03 * np.cos(1 + np.arange(n) * 2.3) * (1 + np.arange(n) % 3)
    if case["neg"]:
        I[1] = -0.3
        I[-1] = -0.1
    if n < 20:
        patterns = list(itertools.product((0, 1, 2), repeat=n)) if n <= 5 else [
            tuple(b) for b in itertools.product((0, 1), repeat=n)] + [tuple(2 * x for x in b) for b in itertools.product((0, 1), repeat=n) if sum(b) in (1, n - 2)]
    else:
        patterns = [tuple([0] * n), tuple(int(i % 3 == 1) for i in range(n)), tuple(2 * int(i % 4 == 1) for i in range(n)), tuple(int(i < n // 2) for i in range(n))]
    unit = case.get("unit", 1.0)  # the fit is given data in these units; everything is judged in units of one
    per = np.array([1.0] * 5 + [unit]) if ff == "log" else np.full(6, unit)
    for pat in patterns:
        y, dy = I * unit, dI * unit
        y[[i for i in range(n) if pat[i] == 1]] = np.nan
        dy[[i for i in range(n) if pat[i] == 2]] = np.nan
        good = np.isfinite(y) & np.isfinite(dy)
        ng = int(good.sum())
        y0, dy0, f_ = y.copy(), dy.copy(), f.copy()
        info = lambda: "flags %s ngood %d" % ("".join(map(str, pat)), ng)
        r = fit_StokesI_model(f_, y, dy, order, ff)
        out.step()
        out.ev(ng < n or res != 0)
        out.check(np.array_equal(y, y0, equal_nan=True) and np.array_equal(dy, dy0, equal_nan=True) and np.array_equal(f, f_), "inputs", lambda: "inputs modified; " + info())
        lim = abs(order)
        if ng == 0 or (order >= 0 and ng < order + 1):
            out.check(r.fitStatus == 0 or r.fitStatus > 8, "fail-flag", lambda: "fit of %d channels with order %d not flagged (status %s); %s" % (ng, order, r.fitStatus, info()))
            out.check(np.shape(r.pcov) == (6, 6) and np.size(r.perror) == 6, "fail-shape", lambda: "failed fit returns no covariance; " + info())
            out.sig = "fail"
            continue
        params = np.array(r.params, float) / per
        k = int(r.polyOrd)
        if not out.check(params.shape == (6,) and 0 <= k <= lim and (order < 0 or k == order), "order", lambda: "order %s requested %s params %s; %s" % (r.polyOrd, order, params, info())):
            continue
        out.check(np.all(params[: 5 - k] == 0), "zeros", lambda: "coefficients beyond order %d not zero: %s; %s" % (k, params, info()))
        rf = 1 / np.sqrt(np.mean(1 / f[good] ** 2))
        out.check(abs(r.reference_frequency_Hz / rf - 1) < 1e-9, "reffreq", lambda: "reference frequency %r expected %r; %s" % (r.reference_frequency_Hz, rf, info()))
        out.check(r.fit_function == ff, "family", lambda: "family %s" % r.fit_function)
        x = f[good] / r.reference_frequency_Hz
        yy = y[good] / unit
        sg = dy[good] / unit if case["err"] != "zero" else np.ones(ng)
        mod = model(params, x, ff)
        chi = float((((mod - yy) / sg) ** 2).sum())
        out.check(abs(r.chiSq - chi) <= 1e-6 + 1e-6 * chi, "chisq", lambda: "chi^2 %r, of the returned model %r; %s" % (r.chiSq, chi, info()))
        out.check(r.dof == ng - k - 1, "dof", lambda: "dof %s expected %d; %s" % (r.dof, ng - k - 1, info()))
        if ng - k - 1 > 0:
            out.check(abs(r.chiSqRed - chi / (ng - k - 1)) <= 1e-6 + 1e-6 * chi, "chired", lambda: "reduced chi^2 %r expected %r; %s" % (r.chiSqRed, chi / (ng - k - 1), info()))
        out.check(abs(r.AIC - (2 * (k + 1) + chi)) <= 1e-6 + 1e-6 * chi, "aic", lambda: "AIC %r expected %r; %s" % (r.AIC, 2 * (k + 1) + chi, info()))
        with np.errstate(all="ignore"):
            ev = calculate_StokesI_model(r, f) / unit
        out.check(np.allclose(ev, model(params, f / r.reference_frequency_Hz, ff), rtol=1e-9, atol=1e-12), "eval", lambda: "evaluated model differs from its coefficients; " + info())
        # optimality
        b = best_fit(x, yy, sg, k, ff, params) if ng >= k + 1 else None
        if b is not None and not case["neg"]:
            out.check(chi <= b[1] * 1.01 + 0.01, "optimum", lambda: "chi^2 %g but %g is reachable with order %d (%s vs %s); %s" % (chi, b[1], k, params, b[0], info()))
        # covariance
        # (a free coefficient that is zero up to rounding has no usable finite-difference step in the fitter)
        if k <= 3 and ng >= k + 1 and np.all(np.abs(params[5 - k:]) > 1e-4) and not case["neg"] and b is not None and np.all(mod > 0):
            J = numjac(params, x, sg, k, ff)
            H = J.T @ J
            if np.linalg.cond(H) < 1e8:
                cov = np.linalg.inv(H)
                got = (np.array(r.pcov, float) / np.outer(per, per))[5 - k:, 5 - k:]
                d = np.sqrt(np.diag(cov))
                e = np.abs(got - cov) / np.outer(d, d)
                out.check(e.max() < 0.03, "covar", lambda: "covariance off by %g (in units of sigma_i sigma_j): %s expected %s; %s" % (e.max(), got, cov, info()))
                out.check(np.allclose((np.array(r.perror, float) / per)[5 - k:], np.sqrt(np.diag(got)), rtol=1e-6), "perror", lambda: "errors %s are not the root of the covariance diagonal; %s" % (r.perror, info()))
                out.check(np.all(np.array(r.perror, float)[: 5 - k] == 0), "perror0", lambda: "fixed coefficients have errors; " + info())
        # dynamic order
        if order < 0 and not case["neg"]:
            seq = []
            want, amb = 0, False
            aics = []
            for o in range(0, min(lim, ng - 1) + 1):
                bb = best_fit(x, yy, sg, o, ff, unpack(np.r_[np.zeros(o), yy.mean()], o))
                aics.append(2 * (o + 1) + bb[1])
                if o:
                    if abs(aics[o] - aics[o - 1]) < 0.05 + 0.01 * min(aics[o], aics[o - 1]):
                        amb = True
                    if aics[o] < aics[o - 1]:
                        want = o
                    else:
                        break
            if not amb:
                out.check(k == want, "dynamic", lambda: "dynamic order %d, expected %d (AIC by order %s); %s" % (k, want, aics, info()))
            else:
                out.check(k < len(aics) + 1, "dynamic-limit", lambda: "order %d" % k)
        out.state(params, k, ng)
        out.sig = "ok%d" % k


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
