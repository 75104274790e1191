"""R24: RMSF report describes the given channels."""
import contextlib, io, itertools, os, re, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, cubes
import numpy as np
import matplotlib.figure
import matplotlib.pyplot as plt
import RMtools_1D.calculate_RMSF as CR
from RMutils.util_RM import get_rmsf_planes

PID, LEVEL = "R24", "exploration"
RULE = ("one evaluation = one run of the calculator for one way of giving channels and weights; all combinations of channel layout, input mode (frequency file, two columns, weight file with and without second column, start/stop/width), "
        "weight pattern and grid option are enumerated; oracle recomputes the response and the report from the channels; non-trivial = weights differ")
ASSUMPTIONS = ["reports are read from the terminal text (4 digits), the response from the curves in the saved figure", "the fitted width is that of get_rmsf_planes for the right channels (its own accuracy is decided by R02) and within a factor 1.3 of the width at half power"]
CHUNK = 4
CASE_TIMEOUT = 300
C = 299792458.0
LAY = {
    "even": np.arange(20) * 1e7 + 1.1e9,
    "low": np.arange(24) * 5e5 + 1.2e8,
    "high": np.arange(16) * 1e8 + 4e9,
    "gap": np.r_[np.arange(8) * 1e7 + 7e8, np.arange(8) * 1e7 + 9e8],
    "desc": (np.arange(12) * 2e7 + 1.3e9)[::-1],
    "shuffle": (np.arange(12) * 2e7 + 1.3e9)[[3, 0, 7, 1, 11, 5, 2, 4, 6, 8, 10, 9]],
    "many": np.arange(288) * 1e6 + 8.0e8,
    "manylow": np.arange(1000) * 3e4 + 1.2e8,
    "frac": np.arange(16) * 18518.518518518 * 40 + 8.0e8 + 0.25,
}
W = ("ones", "ramp", "zeros", "ints", "nan")
OPTS = [(), ("-m", 1.0), ("-d", 0.37), ("-m", 1.7, "-d", 0.5), ("-r",), ("-r", "-m", 1.3), ("-n", "title")]


def cases(tier):
    big = tier == "thorough"
    for l in LAY:
        large = l.startswith("many") and not big
        for mode in ("file", "cols", "wfile", "both", "gen", "genw", "filegen"):
            for w in W:
                if mode in ("file", "gen", "filegen") and w != "ones":
                    continue
                if large and (mode in ("both", "filegen") or w in ("ones", "ints") and mode == "cols"):
                    continue
                for io_ in range(len(OPTS)) if not large else (0, 4):
                    for fmt in (("int", "float") if mode in ("file", "cols", "wfile") and io_ in (0, 4) or big else ("float",)):
                        yield dict(l=l, mode=mode, w=w, o=io_, fmt=fmt)


def weights(w, n):
    return {"ones": np.ones(n), "ramp": np.linspace(0.2, 2.0, n), "zeros": np.where(np.arange(n) % 3 == 1, 0.0, 1.5), "ints": np.arange(n) % 4 + 1.0,
            "nan": np.where(np.arange(n) % 5 == 2, np.nan, 1.0)}[w]


def run(case, out):
    nu = LAY[case["l"]]
    if case["mode"] in ("gen", "genw"):
        if case["l"] in ("gap", "desc", "shuffle", "frac"):
            out.sig = "skip"
            return
    n = len(nu)
    w = weights(case["w"], n)
    wrong = np.linspace(5, 1, n)
    fw = 2 * np.sqrt(3) / np.ptp((C / nu) ** 2)
    opts = [o if isinstance(o, str) or OPTS[case["o"]][i - 1] == "-n" else (o * 10 * fw if OPTS[case["o"]][i - 1] == "-m" else o * 0.1 * fw) for i, o in enumerate(OPTS[case["o"]])]
    sup = "-r" in opts
    pm = opts[opts.index("-m") + 1] if "-m" in opts else 10 * fw
    dp = opts[opts.index("-d") + 1] if "-d" in opts else 0.1 * fw
    lines = {}
    fmt = "%d" if case["fmt"] == "int" and case["l"] != "frac" else "%.17g"
    wfmt = "%d" if case["fmt"] == "int" and np.all(w == np.round(w)) else "%.17g"
    orig = matplotlib.figure.Figure.savefig

    def savefig(self, *a, **k):
        for ax in self.axes:
            for ln in ax.lines:
                lines[ln.get_label()] = (np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float))

    with mc.scratch("r24") as d:
        mode = case["mode"]
        args = []
        if mode in ("file", "wfile", "filegen"):
            np.savetxt("f.dat", nu, fmt=fmt)
            args = ["f.dat"]
        elif mode in ("cols", "both"):
            np.savetxt("f.dat", np.array([nu, w if mode == "cols" else wrong]).T, fmt=[fmt, wfmt if mode == "cols" else "%.17g"])
            args = ["f.dat"]
        if mode in ("wfile", "both"):
            np.savetxt("w.dat", w, fmt=wfmt)
            args.append("w.dat")
        if mode == "genw":
            out.sig = "skip"  # without a frequency file the position of the weight file is taken by it
            return
        step = nu[1] - nu[0]
        if mode == "gen":
            args += ["-f", nu[0], nu[-1] + step, step]
        if mode == "filegen":  # the file takes precedence
            args += ["-f", 1e9, 2e9, 1e8]
        txt = io.StringIO()
        matplotlib.figure.Figure.savefig = savefig
        try:
            with contextlib.redirect_stdout(txt):
                r = cubes.run_main(CR, args + opts + ["-s", "plot.png"])
        finally:
            matplotlib.figure.Figure.savefig = orig
            plt.close("all")
    out.step()
    out.ev(len(set(w)) > 1)
    info = lambda: "%s of %s weights %s options %s" % (case["mode"], nu, w, opts)
    lab = [k for k in lines if k in ("Stokes Q", "Stokes U", "Amplitude")]
    if not out.check(r == "ok" and len(lab) == 3, "failed", lambda: "no report (%s, curves %s); %s" % (r, sorted(lines), info())):
        return
    lam = (C / nu) ** 2
    wu = np.where(np.isnan(w), 0, w)
    l0 = 0.0 if sup else np.sum(wu * lam) / np.sum(wu)
    ph = lines["Stokes Q"][0]
    out.check(np.allclose(np.diff(ph), dp, rtol=1e-4) and abs(ph.max() - pm) <= 2 * dp and abs(ph.min() + pm) <= 2 * dp, "depths", lambda: "depths %s for maximum %g step %g; %s" % (ph, pm, dp, info()))
    R = (np.exp(-2j * np.outer(ph, lam - l0)) * wu).sum(1) / wu.sum()
    t = 1e-5 + 3e-7 * np.max(np.abs(ph)) * 2 * np.max(np.abs(lam - l0))  # single precision phases
    for k, v in (("Stokes Q", R.real), ("Stokes U", R.imag), ("Amplitude", np.abs(R))):
        out.check(np.allclose(lines[k][0], ph) and np.all(np.abs(lines[k][1] - v) <= t), "response", lambda: "%s differs by %g: %s expected %s; %s" % (k, np.max(np.abs(lines[k][1] - v)), lines[k][1], v, info()))
    s = txt.getvalue()

    def val(pat):
        m = re.search(pat + r"\*?:?\s+([-+0-9.einfa]+)", s)
        return float(m.group(1)) if m else np.nan

    def rep(key, pat, want, rtol=6e-4):
        got = val(pat)
        out.check(abs(got - want) <= rtol * abs(want), key, lambda: "%s reported as %s, expected %g; %s" % (pat, got, want, info()))

    rep("width", r"Theoretical \(unweighted\) FWHM", 3.8 / np.ptp(lam))
    rep("scale", "Theoretical largest FD scale probed", np.pi / lam.min())
    rep("maximum", r"Theoretical maximum FD", np.sqrt(3) / np.median(np.abs(np.diff(lam))))
    g = get_rmsf_planes(lam, np.arange(-pm / 2, pm / 2 + 1e-6, dp), weightArr=wu.copy(), fitRMSF=True, fitRMSFreal=sup, lam0Sq_m2=0 if sup else None)
    rep("fit", "Measured FWHM", float(np.squeeze(g.fwhmRMSFArr)), 2e-3)
    fine = np.linspace(0, 3 * fw, 6001)
    v = (np.exp(-2j * np.outer(fine, lam - l0)) * wu).sum(1) / wu.sum()
    v = v.real if sup else np.abs(v)
    half = np.where(v < 0.5)[0]
    up = [i for i in range(half[0], len(v) - 1) if v[i + 1] > v[i]] if len(half) else []
    if len(half) and 2 * fine[half[0]] > 5 * dp and (not up or v[up[0]] < 0.35):  # separate main lobe
        hw = 2 * fine[half[0]]
        m = val("Measured FWHM")
        out.check(hw / 1.3 < m < hw * 1.3, "measured", lambda: "measured width %g, width at half power %g; %s" % (m, hw, info()))
    # highest sidelobe of the positive half
    a = np.abs(R)
    i0 = int(np.argmin(np.abs(ph)))
    loc = [i for i in range(i0 + 1, len(a) - 1) if a[i] > a[i - 1] + 2e-6 and a[i] > a[i + 1] + 2e-6]
    m = re.search(r"First sidelobe FD and amplitude:\s+([-+0-9.e]+) rad m\^-2\s+([-+0-9.e]+) % of peak", s)
    if loc and max(a[loc]) > 1e-3:
        top = max(a[loc])
        cand = [ph[i] for i in range(i0, len(a)) if a[i] >= top * 0.999]
        if out.check(m is not None, "sidelobe", lambda: "no sidelobe reported; " + info()):
            out.check(abs(float(m.group(2)) / 100 - top) <= 1e-3 * top + 1e-5 and any(abs(float(m.group(1)) - c) <= 1e-3 * abs(c) + 1e-6 for c in cand), "sidelobe", lambda: "sidelobe %s at %s, expected %g %% at %s; %s" % (m.group(2), m.group(1), top * 100, cand, info()))
    out.state(case["l"], case["mode"], case["w"], case["o"])
    out.sig = case["mode"]


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
