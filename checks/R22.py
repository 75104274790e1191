"""R22: Added-scatter complexity measures the documented likelihood."""
import itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import numpy as np
from RMutils.util_RM import calc_sigma_add, measure_qu_complexity, measure_fdf_complexity
from RMutils.util_misc import calc_mom2_FDF
from RMtools_1D.do_RMsynth_1D import run_rmsynth
from RMtools_1D.do_RMclean_1D import run_rmclean

PID, LEVEL = "R22", "exploration"
RULE = ("one evaluation = one residual pattern; every assignment of 4 (thorough: 6) residuals and flags from a small alphabet, with every error pattern, its channel permutations and scalings is enumerated; "
        "second moments: every placement of up to 4 (thorough: 5) component amplitudes on a depth grid; tools: 1D synthesis and cleaning for every flag pattern of 5 channels; non-trivial = not all residuals equal")
ASSUMPTIONS = ["the likelihood is sampled as documented, at 1000 equally spaced values up to the range of the data including error bars, with the 1/sigma factor", "at least two channels have data"]
CHUNK = 4
CASE_TIMEOUT = 300
C = 299792458.0
RES = [0.0, 0.5, -1.0, 3.0, np.nan]
ERR = {"one": lambda n: np.ones(n), "vary": lambda n: np.linspace(0.5, 2.0, n), "small": lambda n: np.full(n, 0.01)}


def cases(tier):
    big = tier == "thorough"
    n = 6 if big else 4
    for first in range(len(RES)):
        for second in range(len(RES)):
            for e in ERR:
                yield dict(k="add", first=first, second=second, e=e, n=n)
    for n in (50, 300) + ((41, 1000) if big else ()):  # many channels
        for amp in (0.0, 0.7, 1.0, 4.0):
            for e in ERR:
                yield dict(k="long", n=n, amp=amp, e=e)
    for grid in ("sym", "off", "wide"):
        for cplx in (0, 1):
            yield dict(k="mom", grid=grid, cplx=cplx, n=5 if big else 4)
    for pat in itertools.product("kQUB", repeat=5):
        if pat.count("k") >= (1 if big else 2):
            for unit in (1.0, 2.0 ** -27, 2.0 ** 20) if big or pat.count("k") >= 4 else (1.0,):
                yield dict(k="tool", pat="".join(pat), clean=pat.count("k") >= 4, unit=unit)


def percentile(x, p, q):
    i = int(np.searchsorted(p, q, side="right"))
    if i == 0:
        return x[0]
    return x[i - 1] + (q - p[i - 1]) * (x[i] - x[i - 1]) / (p[i] - p[i - 1])


def oracle(y, dy, med, n=1000):
    good = np.isfinite(y) & np.isfinite(dy)
    y, dy = y[good], dy[good]
    r = np.max(y + dy) - np.min(y - dy)
    s = r * np.arange(1, n + 1) / n
    v = s[:, None] ** 2 + dy**2
    ln = -np.log(s) - 0.5 * np.sum(np.log(v) + (y - med) ** 2 / v, axis=1)
    p = np.exp(ln - ln.max())
    c = np.cumsum(p) / p.sum()
    m, lo, hi = [percentile(s, c, q) for q in (0.5, 0.1572, 0.8427)]
    return m, m - lo, hi - m


def near(a, b, scale):
    return all((np.isnan(x) and np.isnan(y)) or abs(x - y) <= 1e-7 * scale for x, y in zip(a, b))


def run(case, out):
    {"add": run_add, "long": run_long, "mom": run_mom, "tool": run_tool}[case["k"]](case, out)


def get(d, s=""):
    return d["sigmaAdd" + s], d["dSigmaAddMinus" + s], d["dSigmaAddPlus" + s]


def run_add(case, out):
    n = case["n"]
    dy = ERR[case["e"]](n)
    x = np.linspace(0.03, 0.1, n)
    for rest in itertools.product(range(len(RES)), repeat=n - 2):
        y = np.array([RES[case["first"]], RES[case["second"]]] + [RES[i] for i in rest])
        good = np.isfinite(y)
        if good.sum() < 2:
            continue
        keep = y.copy(), dy.copy()
        d, pl = calc_sigma_add(x, y, dy, yMed=0.0, noise=1.0, suffix="X")
        out.step()
        out.ev(np.ptp(y[good]) > 0)
        info = lambda: "residuals %s errors %s" % (y, dy)
        got = get(d, "X")
        want = oracle(y, dy, 0.0)
        sc = want[0] + want[1] + want[2]
        out.check(np.array_equal(y, keep[0], equal_nan=True) and np.array_equal(dy, keep[1]), "inputs", lambda: "inputs modified; " + info())
        if not out.check(near(got, want, sc), "likelihood", lambda: "sigma_add %s expected %s; %s" % (got, want, info())):
            continue
        out.check(got[0] > 0 and got[1] >= 0 and got[2] >= 0, "limits", lambda: "limits %s; %s" % (got, info()))
        # channel order
        if list(rest) == sorted(rest):
            for sh in ([n - 1 - i for i in range(n)], [(i + 2) % n for i in range(n)], [1, 0] + list(range(2, n))):
                g = get(calc_sigma_add(x[sh], y[sh], dy[sh], yMed=0.0, noise=1.0)[0])
                out.step()
                out.check(near(g, got, sc), "order", lambda: "in channel order %s: %s, was %s; %s" % (sh, g, got, info()))
            # more scatter, larger measure; common scale of residuals and errors scales the measure
            for z in (3.0, 1e-7, 2e5):
                g = get(calc_sigma_add(x, z * y, z * dy, yMed=0.0, noise=z)[0])
                out.check(near(g, [z * a for a in got], z * sc), "scale", lambda: "%g times residuals and errors: %s, was %s; %s" % (z, g, got, info()))
            if np.ptp(y[good]) > 0:
                g = get(calc_sigma_add(x, 3 * y, dy, yMed=0.0, noise=1.0)[0])
                out.check(g[0] >= got[0] * (1 - 1e-9), "scatter", lambda: "three times the residuals: %s, was %s; %s" % (g, got, info()))
            # removing flagged channels changes nothing; default centre is the median
            g = get(calc_sigma_add(x[good], y[good], dy[good], yMed=0.0, noise=1.0)[0])
            out.check(near(g, got, sc), "flags", lambda: "without the flagged channels %s, with them %s; %s" % (g, got, info()))
            if good.all():
                g = get(calc_sigma_add(x, y, dy)[0])
                w = oracle(y, dy, np.median(y))
                out.check(near(g, w, sum(w)), "median", lambda: "about the median %s expected %s; %s" % (g, w, info()))
        out.state(y, case["e"])
    out.sig = "add"


def run_long(case, out):
    n = case["n"]
    dy = ERR[case["e"]](n)
    x = np.linspace(0.03, 0.1, n)
    for j, flags in itertools.product(range(6), (0, 1, 2, 3)):
        y = case["amp"] * dy * np.cos(np.arange(n) * (1.7 + 0.31 * j) + j) + 0.01 * dy * np.arange(n) / n
        bad = [[], [0], range(0, n, 3), range(4, n - 2)][flags]
        y[list(bad)] = np.nan
        d, pl = calc_sigma_add(x, y, dy, yMed=0.0, noise=1.0, suffix="X")
        out.step()
        out.ev(flags > 0)
        got, want = get(d, "X"), oracle(y, dy, 0.0)
        info = lambda: "%d channels, residuals of %g errors (%s), pattern %d, flags %d" % (n, case["amp"], case["e"], j, flags)
        out.check(near(got, want, sum(want)), "likelihood", lambda: "sigma_add %s expected %s; %s" % (got, want, info()))
        p = np.argsort(np.cos(np.arange(n) * 2.1))
        g = get(calc_sigma_add(x[p], y[p], dy[p], yMed=0.0, noise=1.0)[0])
        out.check(near(g, got, sum(want)), "order", lambda: "channels reordered: %s, was %s; %s" % (g, got, info()))
        out.state(n, case["amp"], case["e"], j, flags)
    out.sig = "long"


def run_mom(case, out):
    phi = {"sym": np.linspace(-20, 20, 9), "off": np.linspace(-20, 20, 9) + 3.3, "wide": np.linspace(-2000, 2000, 9)}[case["grid"]]
    amps = [1.0, 0.25, 2.0, 0.5, 1.5]
    n = case["n"]
    for k in range(1, n + 1):
        for pos in itertools.product(range(9), repeat=k):
            f = np.zeros(9, complex if case["cplx"] else float)
            for j, i in enumerate(pos):
                if case["cplx"]:
                    f[i] = amps[j] * np.exp(1j * (1 + 2.1 * j + i))
                else:
                    f[i] = amps[j] * (-1) ** j
            a = np.abs(f)
            mean = np.sum(a * phi) / a.sum()
            want = np.sqrt(np.sum(a * (phi - mean) ** 2) / a.sum())
            got = measure_fdf_complexity(phiArr=phi, FDF=f)
            tol = 1e-9 * np.ptp(phi)
            out.step()
            out.ev(len(set(pos)) > 1)
            info = lambda: "components %s on %s" % (f, phi)
            out.check(abs(got - want) <= max(tol, 1e-7 * np.ptp(phi) if len(set(pos)) == 1 else 0), "moment", lambda: "%g expected %g; %s" % (got, want, info()))
            out.check(abs(calc_mom2_FDF(f, phi) - got) <= tol, "function", lambda: info())
            if k <= 2:
                s = measure_fdf_complexity(phiArr=phi + 57.0, FDF=f * np.exp(0.7j) * 3)
                for z in (1e-8, 1e6):
                    t = measure_fdf_complexity(phiArr=phi, FDF=f * z)
                    out.check(abs(t - got) <= 1e-7 * np.ptp(phi), "scaled", lambda: "times %g: %g, was %g; %s" % (z, t, got, info()))
                out.check(abs(s - got) <= 1e-6 * np.ptp(phi), "shift", lambda: "shifted and scaled %g, was %g; %s" % (s, got, info()))
                r = measure_fdf_complexity(phiArr=-phi[::-1], FDF=f[::-1])
                out.check(abs(r - got) <= 1e-7 * np.ptp(phi), "mirror", lambda: "mirrored %g, was %g; %s" % (r, got, info()))
            out.state(case["grid"], pos)
    out.sig = "mom"


def run_tool(case, out):
    """the values reported by the 1D tools are those of the residuals about the reported thin component"""
    pat = case["pat"]
    nu = np.array([1.0e9, 1.04e9, 1.1e9, 1.17e9, 1.28e9, 1.4e9, 1.45e9])
    n = len(nu)
    lam = (C / nu) ** 2
    p = 0.3 * np.exp(2j * (0.5 + 21.0 * lam)) + 0.1 * np.exp(2j * (1.5 - 30.0 * lam))
    q, u = p.real.copy(), p.imag.copy()
    dq, du = np.linspace(0.01, 0.03, n), np.linspace(0.02, 0.025, n)
    for i, c in enumerate(pat):
        if c in "QB":
            q[i] = np.nan
        if c in "UB":
            u[i] = np.nan
    q, u, dq, du = [a * case["unit"] for a in (q, u, dq, du)]
    for perm in (list(range(n)),):
        m, a = run_rmsynth(np.array([nu, q, u, dq, du]), phiMax_radm2=120, dPhi_radm2=3.0, weightType="uniform", verbose=False, log=lambda *x, **k: None)
        out.step()
        out.ev(pat.count("k") < 5)
        info = lambda: "channels %s, unit %g" % (pat, case["unit"])
        mod = m["fracPol"] * np.exp(2j * (np.deg2rad(m["polAngle0Fit_deg"]) + m["phiPeakPIfit_rm2"] * lam))
        yq, yu = (q - mod.real) / dq, (u - mod.imag) / du
        for s, y in (("Q", yq), ("U", yu), ("C", np.r_[yq, yu])):
            w = oracle(y, np.ones(len(y)), 0.0)
            got = get(m, s)
            out.check(all(abs(g - x) <= 1e-4 * sum(w) for g, x in zip(got, w)), "synthesis", lambda: "sigma_add %s %s expected %s; %s" % (s, got, w, info()))
        if case["clean"]:
            mc_, ac = run_rmclean(m, a, cutoff=0.05 * case["unit"], maxIter=50, verbose=False, log=lambda *x, **k: None)
            cc = np.abs(ac["ccArr"])
            ph = ac["phiArr_radm2"]
            if cc.sum() > 0:
                mean = np.sum(cc * ph) / cc.sum()
                w = np.sqrt(np.sum(cc * (ph - mean) ** 2) / cc.sum())
                out.check(abs(mc_["mom2CCFDF"] - w) <= 1e-6 * np.ptp(ph), "clean", lambda: "second moment %s expected %s; %s" % (mc_["mom2CCFDF"], w, info()))
    out.state(pat)
    out.sig = "tool"


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
