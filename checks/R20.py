"""R20: QU-fit statistics are those of the returned parameters and data."""
import itertools, json, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref, cubes
import numpy as np
import bilby
from bilby.core.result import Result
import matplotlib.figure, matplotlib.pyplot as plt
import RMtools_1D.do_QUfit_1D_mnest as QF
from RMutils.util_misc import create_frac_spectra

PID, LEVEL = "R20", "exploration"
RULE = ("one evaluation = one run of qufit in which the sampler is replaced by the environment: every multiset of up to 4 (thorough: 5) posterior samples over an alphabet of angles around the wrap is answered, for every model, "
        "flag pattern and input format; the likelihood handed to the sampler is evaluated on a parameter grid; non-trivial = samples differ or channels are flagged")
ASSUMPTIONS = ["posteriors of an angle spread over more than 45 deg have no agreed circular summary and are not enumerated", "AIC/BIC use the highest likelihood the sampler returned, as usual",
               "degrees of freedom follow the tool's convention (data - free parameters - 1)", "plotting is replaced by stand-ins", "says nothing about nested sampling itself"]
CHUNK = 2
CASE_TIMEOUT = 300
ANG = [0.0, 1.0, 44.0, 45.0, 46.0, 89.0, 90.0, 91.0, 134.0, 135.0, 136.0, 178.0, 179.5]
USER = """
import bilby, numpy as np
def model(pDict, lam):
    return pDict["fracPol"] * np.exp(2j * (np.radians(pDict["psi0_deg"]) + (pDict["RM_radm2"] + pDict["off"]) * lam))
priors = {
 "off": bilby.prior.DeltaFunction(7.5, name="off", latex_label="o"),
 "fracPol": bilby.prior.Uniform(minimum=0.0, maximum=1.0, name="fracPol", latex_label="p"),
 "psi0_deg": bilby.prior.Uniform(minimum=0, maximum=180.0, name="psi0_deg", latex_label="a", boundary="periodic"),
 "RM_radm2": bilby.prior.Uniform(minimum=-1100.0, maximum=1100.0, name="RM_radm2", latex_label="r"),
}
"""
MODELS = {
    1: ["fracPol", "psi0_deg", "RM_radm2"], 2: ["fracPol", "psi0_deg", "RM_radm2", "sigmaRM_radm2"],
    3: ["fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2", "sigmaRM_radm2"],
    4: ["fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2", "sigmaRM1_radm2", "sigmaRM2_radm2"],
    5: ["fracPol", "psi0_deg", "RM_radm2", "deltaRM_radm2"],
    6: ["fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2", "deltaRM1_radm2", "deltaRM2_radm2"],
    7: ["fracPol", "psi0_deg", "RM_radm2", "deltaRM_radm2", "sigmaRM_radm2"],
    11: ["fracPol1", "fracPol2", "psi01_deg", "psi02_deg", "RM1_radm2", "RM2_radm2"],
    12: ["fracPol", "psi0_deg", "RM_screen", "deltaRM_radm2", "sigmaRM_radm2", "sigmaRM_radm2_FG"],
    111: ["fracPol1", "fracPol2", "fracPol3", "psi01_deg", "psi02_deg", "psi03_deg", "RM1_radm2", "RM2_radm2", "RM3_radm2"],
    99: ["off", "fracPol", "psi0_deg", "RM_radm2"],
}
FLAG = ["none", "Q", "U", "QU", "dQ", "all2", "I"]
NCH = 14


def arcs(k):
    """all multisets of k alphabet angles within an arc of 45 deg, with the arc's start"""
    for c in itertools.combinations_with_replacement(ANG, k):
        a = np.array(c)
        for s in c:
            if np.max((a - s) % 180) <= 45:
                yield c, s
                break


def cases(tier):
    big = tier == "thorough"
    out = []
    for m in MODELS:
        for i, fl in enumerate(FLAG):
            for j, fmt in enumerate(("iqu", "qu", "noI", "file")):
                if not big and (i + j + m) % (2 if m in (1, 99) else 3):
                    continue
                out.append(dict(kind="stat", m=m, flag=fl, fmt=fmt, blk=0, k=3, lo=0, hi=6))
    for unit in (1e-7, 4e5):
        for m in (1, 11) if not big else (1, 2, 5, 11, 99):
            for fl in FLAG:
                for fmt in ("iqu", "file"):
                    out.append(dict(kind="stat", m=m, flag=fl, fmt=fmt, blk=0, k=3, lo=0, hi=6, unit=unit))
    for m in (1, 11, 99):
        for k in (1, 2, 3, 4) if not big else (1, 2, 3, 4, 5):
            n = len(list(arcs(k)))
            step = 12
            for lo in range(0, n, step):
                if m != 1 and not big and (lo // step) % 8:
                    continue
                out.append(dict(kind="wrap", m=m, flag="none", fmt="qu", k=k, lo=lo, hi=min(n, lo + step)))
    for m in (1, 11, 99) if not big else MODELS:  # larger instances: many channels, posteriors of many samples
        for i, fl in enumerate(FLAG):
            out.append(dict(kind="many", m=m, flag=fl, fmt=("iqu", "qu", "file")[i % 3], n=288 if i % 2 else 100, start=[0.0, 20.0, 89.0, 135.0, 150.0, 179.0, 60.0][i], k=(400, 1501)[i % 2]))
    return out


def data(case):
    N = case.get("n", NCH)
    f = ref.freqs("irr", N) if "n" not in case else np.linspace(0.8e9, 1.8e9, N)
    l = ref.lamsq(f)
    P = 0.3 * np.exp(2j * (0.5 + 11 * l)) + 0.02 * np.cos(3.1 * np.arange(N))
    I = 2.0 * (f / 1e9) ** -0.7
    if case["fmt"] in ("qu", "noI"):
        I = np.ones(N)
    Q, U = P.real * I, P.imag * I
    dQ, dU, dI = 0.01 * (1 + np.arange(N) % 3), 0.02 * (1 + np.arange(N) % 2), np.full(N, 0.01)
    fl = case["flag"]
    if fl == "Q":
        Q[3] = np.nan
    elif fl == "U":
        U[[2, 5]] = np.nan
    elif fl == "QU":
        Q[[0, 4]] = U[[0, 4]] = np.nan
    elif fl == "dQ":
        dQ[6] = np.nan
    elif fl == "all2":
        for a in (Q, U, dQ, dU):
            a[[1, 7]] = np.nan
        if case["fmt"] == "iqu":
            I[[1, 7]] = dI[[1, 7]] = np.nan
    elif fl == "I" and case["fmt"] == "iqu":
        I[2] = np.nan
    if "unit" in case:
        I, Q, U, dI, dQ, dU = [a * case["unit"] for a in (I, Q, U, dI, dQ, dU)]
    if case["fmt"] in ("iqu", "file"):
        return [f, I, Q, U, dI, dQ, dU]
    if case["fmt"] == "noI":
        return [f, 5 * I, Q, U, dI, dQ, dU]
    return [f, Q, U, dQ, dU]


def points(m, k, mod, angles):
    """k parameter vectors inside the prior; angles: per-sample value for the first angle"""
    rows = []
    for s in range(k):
        p = {}
        for i, n in enumerate(MODELS[m]):
            pr = mod.priors[n]
            lo, hi = float(pr.minimum), float(pr.maximum)
            u = 0.15 + 0.12 * i * (0.7 if i > 4 else 1) + 0.017 * ((s * (i + 2)) % 5)
            p[n] = lo + (hi - lo) * (u % 1)
            if n.startswith("RM") or n == "RM_screen":
                p[n] = [40.0, 11.0, -25.0][int(n[2]) - 1 if n[2].isdigit() else 1] + 0.8 * (s % 9)
            if n.startswith("frac"):
                p[n] = 0.1 + 0.03 * ((s + i) % 4)
            if n.startswith("psi"):
                p[n] = angles[s] if n in ("psi0_deg", "psi01_deg") else (120.0 + 3 * (s % 9) + i)
            if n.startswith("sigma") or n.startswith("delta"):
                p[n] = 1.5 + i + 0.3 * (s % 9)
            if n == "off":
                p[n] = 7.5
        rows.append(p)
    return rows


def quant(a, f):
    return float(np.percentile(a, f * 100))


def run(case, out):
    m = case["m"]
    sets = [((0.0, 30.0, 60.0), None), ((175.0, 2.0, 179.0), 175.0), ((92.0, 80.0, 101.0), 80.0)]
    if case["kind"] == "wrap":
        sets = list(arcs(case["k"]))[case["lo"]: case["hi"]]
    elif case["kind"] == "many":
        s = case["start"]
        sets = [(tuple((s + (j * 24.7213595) % 40) % 180 for j in range(case["k"])), s)]
    else:
        sets = sets[1:]
    saved = {k: getattr(QF, k, None) for k in ("plot_Ipqu_spectra_fig",)}
    real = bilby.run_sampler, Result.plot_corner, matplotlib.figure.Figure.savefig
    try:
        if saved["plot_Ipqu_spectra_fig"] is not None:
            QF.plot_Ipqu_spectra_fig = lambda *a, **k: None
        Result.plot_corner = lambda self, *a, **k: plt.figure()
        matplotlib.figure.Figure.savefig = lambda self, name, *a, **k: open(name, "wb").close() if isinstance(name, str) else None
        with mc.scratch("r20") as d:
            if m == 99:
                os.mkdir("models_ns")
                open("models_ns/m99.py", "w").write(USER)
            mod = QF.load_model(m)
            for angles, start in sets:
                one(case, out, m, mod, angles, start)
                plt.close("all")
    finally:
        bilby.run_sampler, Result.plot_corner, matplotlib.figure.Figure.savefig = real
        for k, v in saved.items():
            if v is not None:
                setattr(QF, k, v)


def one(case, out, m, mod, angles, start):
    k = len(angles)
    names = MODELS[m]
    dat = data(case)
    rows = points(m, k, mod, angles)
    given = dict()
    fixed = [n for n in names if n == "off"]
    free = [n for n in names if n not in fixed]
    info = lambda: "model %d, %s input, flags %s, angle samples %s" % (m, case["fmt"], case["flag"], angles if len(angles) < 9 else "%s... (%d)" % (angles[:4], len(angles)))
    # reference data
    if len(dat) == 5 or case["fmt"] == "noI":
        f, (q, u, dq, du) = dat[0], dat[-5 + 1:] if len(dat) == 5 else (dat[2], dat[3], dat[5], dat[6])
        cov = None
    else:
        x = [np.array(v, dtype="f4").astype(float) if case["fmt"] == "file" else v for v in dat]
        fr = create_frac_spectra(freqArr=x[0], IArr=x[1], QArr=x[2], UArr=x[3], dIArr=x[4], dQArr=x[5], dUArr=x[6], polyOrd=2, fit_function="log")
        f, q, u, dq, du = x[0], *fr[1:5]
    lam = (299792458.0 / np.asarray(f, float)) ** 2
    good = np.isfinite(q) & np.isfinite(u) & np.isfinite(dq) & np.isfinite(du)
    ng = int(good.sum())

    def chi2(p):
        w = np.asarray(mod.model(p, lam))
        return float((((q - w.real) / dq) ** 2 + ((u - w.imag) / du) ** 2)[good].sum())

    def gauss(p):
        return -0.5 * chi2(p) - float(np.log(dq[good]).sum() + np.log(du[good]).sum()) - ng * np.log(2 * np.pi)

    grid = points(m, 3, mod, (10.0, 100.0, 179.0))
    if case["kind"] == "wrap":
        grid = grid[:1]

    def sampler(likelihood=None, priors=None, **kw):
        given["kw"] = kw
        given["like"] = []
        for p in grid + rows:
            likelihood.parameters.update(p)
            given["like"].append(float(likelihood.log_likelihood()))
        S = np.array([[r[n] for n in free] for r in rows])
        ll = np.array(given["like"][len(grid):])
        pd = bilby.core.prior.PriorDict(dict(priors)) if not isinstance(priors, bilby.core.prior.PriorDict) else priors
        res = Result(label="x", outdir=".", sampler="none", search_parameter_keys=list(free), fixed_parameter_keys=list(fixed), priors=pd, samples=S, log_likelihood_evaluations=ll,
                     log_evidence=-12.5, log_evidence_err=0.25, log_prior_evaluations=np.zeros(k))
        res.samples_to_posterior(priors=pd)
        return res

    bilby.run_sampler = sampler
    pre = "out"
    if case["fmt"] == "file":
        np.savetxt("s.dat", np.array(dat).T)
        pre = "s"
        r = cubes.run_main(QF, ["s.dat", "-m", m])
    else:
        QF.run_qufit([np.array(v) for v in dat], m, nBits=64, noStokesI=case["fmt"] == "noI", prefixOut="out")
    out.step()
    out.ev(k > 1 or ng < len(f))
    name = "%s_m%d_dynesty.json" % (pre, m)
    if not out.check("like" in given and os.path.exists(name), "products", lambda: "no result; " + info()):
        return
    J = json.load(open(name))
    os.remove(name)
    acc = 1e-6 if case["fmt"] != "file" else 2e-3
    # likelihood
    want = [gauss(p) for p in grid + rows]
    for a, b in zip(given["like"], want):
        out.check(abs(a - b) <= acc * (abs(b) + 10), "likelihood", lambda: "log likelihood %r, Gaussian %r; %s" % (a, b, info()))
    # parameter summaries
    if not out.check(J["parNames"] == names or sorted(J["parNames"]) == sorted(names), "names", lambda: "parameters %s; %s" % (J["parNames"], info())):
        return
    best = {}
    for n, v, ep, em in zip(J["parNames"], J["values"], J["errPlus"], J["errMinus"]):
        best[n] = v
        a = np.array([r[n] for r in rows])
        if n.startswith("psi"):
            s = start if n in ("psi0_deg", "psi01_deg") else a.min()
            a = s + (a - s) % 180
        md, lo, hi = quant(a, 0.5), quant(a, 0.16), quant(a, 0.84)
        diff = v - md
        if n.startswith("psi"):
            diff = (diff + 90) % 180 - 90
            out.check(0 <= v <= 180, "range", lambda: "%s = %r; %s" % (n, v, info()))
        tol = 1e-6 * (1 + abs(md))
        out.check(abs(diff) <= tol, "value", lambda: "%s = %r, the samples' median is %r; %s" % (n, v, md, info()))
        out.check(abs(ep - (hi - md)) <= tol and abs(em - (md - lo)) <= tol, "errors", lambda: "%s errors +%r -%r, from the samples +%r -%r; %s" % (n, ep, em, hi - md, md - lo, info()))
    nf = len(free)
    c = chi2(best)
    L = max(given["like"][len(grid):])
    nd = 2 * ng
    out.check(abs(J["chiSq"] - c) <= acc * (c + 1), "chisq", lambda: "chi^2 %r, of the saved parameters %r; %s" % (J["chiSq"], c, info()))
    out.check(J["dof"] == nd - nf - 1, "dof", lambda: "dof %r expected %r; %s" % (J["dof"], nd - nf - 1, info()))
    out.check(J["nFree"] == nf, "nfree", lambda: "free parameters %r; %s" % (J["nFree"], info()))
    out.check(abs(J["chiSqRed"] - J["chiSq"] / J["dof"]) <= 1e-6 * (1 + c), "chired", lambda: "reduced chi^2 %r; %s" % (J["chiSqRed"], info()))
    for key, w in (("AIC", 2 * nf - 2 * L), ("AICc", 2 * nf - 2 * L + 2 * nf * (nf + 1) / (nd - nf - 1)), ("BIC", nf * np.log(nd) - 2 * L)):
        out.check(abs(J[key] - w) <= 1e-6 * (1 + abs(w)), "ic", lambda: "%s %r expected %r; %s" % (key, J[key], w, info()))
    ev = {kk.strip(): vv for kk, vv in J.items()}
    out.check(ev.get("ln(EVIDENCE)") == -12.5 and ev.get("dLn(EVIDENCE)") == 0.25, "evidence", lambda: "evidence %r %r; %s" % (ev.get("ln(EVIDENCE)"), ev.get("dLn(EVIDENCE)"), info()))
    out.state(m, np.array(J["values"]), J["dof"])
    out.sig = (m, case["fmt"], case["flag"])


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
