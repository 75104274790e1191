"""R25: Predicted Stokes spectra of clean components invert the transform."""
import itertools, json, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, cubes
import numpy as np
import matplotlib.pyplot as plt
import RMtools_1D.clean_model as CM
import RMtools_1D.do_RMsynth_1D as S1
import RMtools_1D.do_RMclean_1D as C1

PID, LEVEL = "R25", "exploration"
RULE = ("one evaluation = one component list at one set of frequencies, reference and Stokes I model; every assignment of amplitudes {0, a, b} (thorough: and c) to 5 depths is enumerated for every reference lambda^2 (incl. 0), frequency list and model; "
        "tools: synthesis, cleaning and prediction run in sequence on files for every source, option and file layout; non-trivial = more than one component")
ASSUMPTIONS = ["Stokes I models are positive at the reference frequency", "spectra for which a Stokes I model was supplied (not fitted) are not predicted, as their model is not in the files"]
CHUNK = 3
CASE_TIMEOUT = 300
C = 299792458.0
PHI = np.array([-30.0, -5.0, 0.0, 8.0, 410.0])
AMP = [0.0, 0.7 + 0.2j, -0.1 - 1.3j, 2.0j]
FREQ = {"asc": np.linspace(1.0e9, 1.5e9, 9), "desc": np.linspace(1.5e9, 1.0e9, 9), "one": np.array([1.3e9]), "high": np.linspace(1.2e10, 1.8e10, 5), "low": np.array([1.2e8, 1.9e8, 1.4e8]), "wide": np.array([7e8, 5e9, 1e10])}
IMOD = {"none": None, "log0": [0, 0, 0, 0, 0, 2.5], "log1": [0, 0, 0, 0, -0.8, 0.02], "log3": [0, 0, 0.3, 0.1, -1.4, 7.0], "lin0": [0, 0, 0, 0, 0, 2.5], "lin2": [0, 0, 0, 0.3, -1.1, 3.0]}


def cases(tier):
    big = tier == "thorough"
    for f in FREQ:
        for i in IMOD:
            for l0 in (0.0, 0.05, -1.0):
                yield dict(k="fun", f=f, i=i, l0=l0, n=4 if big else 3)
    for f in list(FREQ) + ["many"]:  # many components
        for i in IMOD:
            for l0 in (0.0, 0.05, -1.0):
                yield dict(k="long", f=f, i=i, l0=l0)
    for src in ("one", "two", "edge"):
        for n in (288,):
            for lay in ("5", "7", "7lin"):
                yield dict(k="tool", src=src, lay=lay, opt="", scale=1.0, n=n)
        for lay in ("5", "7", "7lin", "7i"):
            for opt in ("", "r", "w", "o0", "o3", "flag", "desc"):
                for scale in (1.0, 2e-6, 4e5) if big or (opt == "" and src != "edge") else (1.0,):
                    yield dict(k="tool", src=src, lay=lay, opt=opt, scale=scale)


def imodel(par, kind, x):
    p = np.array(par, float)
    if kind == "linear":
        return sum(p[5 - k] * x**k for k in range(6))
    lx = np.log10(x)
    return p[5] * 10 ** sum(p[5 - k] * lx**k for k in range(1, 6))


def predict(nu, phi, cc, l0):
    return (cc[:, None] * np.exp(2j * np.outer(phi, (C / nu) ** 2 - l0))).sum(0)


def run(case, out):
    (run_tool if case["k"] == "tool" else run_fun)(case, out)


def run_fun(case, out):
    nu = FREQ[case["f"]] if case["f"] != "many" else np.linspace(7e8, 1.8e9, 300)
    l0 = np.mean((C / nu) ** 2) if case["l0"] < 0 else case["l0"]
    par = IMOD[case["i"]]
    kind = "linear" if case["i"].startswith("lin") else "log"
    ref = C / np.sqrt(l0) if l0 > 0 else 1.25e9
    kw = {}
    if l0 == 0 and par is not None:
        kw["reference_frequency_Hz"] = ref
    if kind == "linear":
        kw["fit_function"] = "linear"
    I = np.ones(len(nu)) if par is None else imodel(par, kind, nu / ref)
    I0 = 1.0 if par is None else imodel(par, kind, np.array([1.0]))[0]
    if case["k"] == "long":
        grid = np.linspace(-600, 600, 301)
        k = np.arange(301)
        sets = [(m, grid, np.where(k % m == 0, 0.3 * np.exp(1j * k * (1 + m)), 0) * (1 + k / 50)) for m in (1, 2, 7, 60, 400)]
    else:
        sets = ((ids, PHI, np.array([AMP[i] for i in ids])) for ids in itertools.product(range(case["n"]), repeat=5))
    for ids, phi, cc in sets:
        keep = cc.copy(), nu.copy()
        qu, Im = CM.calculate_QU_model(nu, phi, cc, l0, Iparms=par, **kw)
        want = predict(nu, phi, cc, l0) * I / I0
        out.step()
        out.ev(np.count_nonzero(cc) > 1)
        info = lambda: "components %s at %s, reference %g, frequencies %s, model %s %s" % (cc, phi, l0, nu, kind, par)
        out.check(np.array_equal(cc, keep[0]) and np.array_equal(nu, keep[1]), "inputs", lambda: "inputs modified; " + info())
        sc = np.max(np.abs(I / I0)) * (np.abs(cc).sum() + 1e-3)
        out.check(np.shape(qu) == nu.shape and np.all(np.abs(qu - want) <= 1e-8 * sc), "prediction", lambda: "%s, expected %s; %s" % (qu, want, info()))
        out.check(np.allclose(Im, I, rtol=1e-9), "stokesi", lambda: "Stokes I %s, expected %s; %s" % (Im, I, info()))
        out.state(case["f"], case["i"], case["l0"], ids)
    out.sig = "fun"


def run_tool(case, out):
    nu = np.linspace(1.0e9, 1.5e9, case.get("n", 24))
    if case["opt"] == "desc":
        nu = nu[::-1].copy()
    lam = (C / nu) ** 2
    src = {"one": [(0.3, 0.4, 45.0)], "two": [(0.3, 0.4, 60.0), (0.15, 2.0, -90.0)], "edge": [(0.2, 1.0, 299.0)]}[case["src"]]
    p = sum((a * np.exp(2j * (x + r * lam)) for a, x, r in src), np.zeros(len(nu), complex))
    lay = case["lay"]
    I = 4.0 * (nu / 1.2e9) ** -0.9 if lay == "7" else 4.0 + 2 * (nu - 1.2e9) / 1e9 if lay == "7lin" else np.full(len(nu), 3.0)
    if lay == "5":
        I = np.ones(len(nu))
    unit = case["scale"]  # fluxes in microjansky, jansky or megajansky
    I = I * unit
    d = np.full(len(nu), 1e-3 * unit)
    q, u = p.real * I, p.imag * I
    if case["opt"] == "flag":
        q[5] = np.nan
        u[17] = np.nan
    with mc.scratch("r25") as sd:
        np.savetxt("s.dat", np.array([nu, q, u, d, d] if lay == "5" else [nu, I, q, u, d, d, d]).T)
        a = ["s.dat", "-S", "-l", 300, "-d", 5, "-b"]
        a += {"": [], "r": ["-r"], "w": ["-w", "uniform"], "o0": ["-o", 0], "o3": ["-o", 3], "flag": [], "desc": []}[case["opt"]]
        if lay == "7lin":
            a += ["-f", "linear"]
        if lay == "7i":
            a += ["-i"]
        r = cubes.run_main(S1, a)
        plt.close("all")
        if r != "ok" or not os.path.exists("s_RMsynth.json"):
            out.fail("synthesis", "rmsynth1d failed on %s" % case)
            return
        r = cubes.run_main(C1, ["s.dat", "-S", "-c", 0.0005 * unit, "-n", 3000, "-g", 0.2])
        plt.close("all")
        if not out.check(r == "ok" and os.path.exists("s_FDFmodel.dat"), "clean", lambda: "rmclean1d failed on %s" % case):
            return
        r = cubes.run_main(CM, ["s.dat", "s_RMsynth.json", "s_FDFmodel.dat", "out.dat"])
        out.step()
        out.ev(len(src) > 1)
        info = lambda: str(case)
        if not out.check(r == "ok" and os.path.exists("out.dat"), "failed", lambda: "prediction failed (%s) for %s" % (r, info())):
            return
        o = np.loadtxt("out.dat")
        j = json.load(open("s_RMsynth.json"))
        m = np.loadtxt("s_FDFmodel.dat")
    out.check(o.shape == (len(nu), 4) and np.allclose(o[:, 0], nu), "frequencies", lambda: "frequencies %s; %s" % (o[:, 0], info()))
    par = [float(x) for x in j["polyCoeffs"].split(",")]
    kind = j.get("fit_function", "log")
    Im = imodel(par, kind, nu / j["freq0_Hz"])
    want = predict(nu, m[:, 0], m[:, 1] + 1j * m[:, 2], j["lam0Sq_m2"]) * Im / j["Ifreq0"]
    sc = np.abs(m[:, 1] + 1j * m[:, 2]).sum() + 1e-3 * unit
    out.check(np.allclose(o[:, 1], Im, rtol=1e-4, atol=0), "stokesi", lambda: "Stokes I %s, expected %s; %s" % (o[:, 1], Im, info()))
    out.check(np.all(np.abs(o[:, 2] + 1j * o[:, 3] - want) <= 1e-4 * sc), "prediction", lambda: "%s, expected %s; %s" % (o[:, 2] + 1j * o[:, 3], want, info()))
    # a thin source at a sampled depth, cleaned deeply, is predicted as observed
    if case["src"] == "one" and case["opt"] not in ("o0",):
        obs = p * I
        out.check(np.all(np.abs(o[:, 2] + 1j * o[:, 3] - obs) <= 0.03 * np.abs(obs).max()), "roundtrip", lambda: "predicted %s, observed %s; %s" % (o[:, 2] + 1j * o[:, 3], obs, info()))
    out.state("tool", case)
    out.sig = "tool"


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
