"""R21: Bandwidth-depolarisation synthesis uses the channel-averaged response."""
import itertools, json, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, cubes
import numpy as np
import matplotlib.pyplot as plt
import RMtools_1D.rmtools_bwdepol as BW
import RMtools_1D.rmtools_bwpredict as BP
from RMutils.util_RM import do_rmsynth_planes, fit_rmsf

PID, LEVEL = "R21", "exploration"
RULE = ("one evaluation = one channel response at one depth, one synthesis for one pattern of {kept, flagged in Q, in U, in both} over all channels, or one run of a tool on one input layout; all patterns over 4 (thorough: 5) channels, "
        "weight patterns, width inputs, references and array dimensions are enumerated; oracle is Gauss-Legendre quadrature over each channel; non-trivial = depth != 0")
ASSUMPTIONS = ["quadrature with 240 nodes per channel (rotation across a channel up to 150 rad in the enumerated cases)", "channels have one width, or a width each; zero widths and frequencies are not given",
               "at least one channel is kept", "tools: the Stokes I spectra are exact power laws, so that the fitted model is known to 1e-4"]
CHUNK = 2
CASE_TIMEOUT = 300
C = 299792458.0
GX, GW = np.polynomial.legendre.leggauss(240)
PHI = [0.0, 1e-9, 1e-4, 0.3, 12.0, 77.7, 410.0, 2500.0, 9000.0]
PHI = PHI + [-x for x in PHI[1:]]
LAY = {
    "cont": (np.array([1.0e9, 1.1e9, 1.2e9, 1.3e9, 1.4e9, 1.5e9]), 1e8),
    "fine": (np.array([1.0e9, 1.1e9, 1.2e9, 1.3e9, 1.4e9, 1.5e9]), 2e4),
    "low": (np.array([1.2e8, 1.21e8, 1.22e8, 1.3e8, 1.6e8, 1.7e8]), 2.5e5),
    "gap": (np.array([7.0e8, 7.5e8, 1.4e9, 1.5e9, 4.5e9, 4.9e9]), 5e7),
    "desc": (np.array([1.5e9, 1.4e9, 1.3e9, 1.2e9, 1.1e9, 1.0e9]), 1e8),
    "mixed": (np.array([8.0e8, 8.6e8, 9.4e8, 1.1e9, 1.4e9, 1.9e9]), np.array([4e7, 8e7, 5e7, 2e8, 3e8, 1e6])),
}


def avg(nu, w, phi):
    """average of exp(2 i phi lambda^2) over each channel"""
    nu = np.asarray(nu, float)
    w = np.broadcast_to(np.asarray(w, float), nu.shape)
    f = nu[:, None] + GX * w[:, None] / 2
    return (np.exp(2j * phi * (C / f) ** 2) * GW).sum(1) / 2


def resolved(nu, w, phi):
    nu = np.asarray(nu, float)
    w = np.abs(np.broadcast_to(np.asarray(w, float), nu.shape))
    return np.max(2 * abs(phi) * C**2 * np.abs((nu - w / 2) ** -2 - (nu + w / 2) ** -2)) < 150


def cases(tier):
    big = tier == "thorough"
    for l in LAY:
        for ip in range(len(PHI)):
            yield dict(k="op", l=l, ip=ip)
    n = 5 if big else 4
    for l in ("cont", "low", "mixed", "desc"):
        for w in ("ones", "none", "var", "zero", "nan"):
            for wid in ("array", "none", "scalar"):
                for l0 in (None, 0.0, 0.05):
                    yield dict(k="syn", l=l, w=w, wid=wid, l0=-1 if l0 is None else l0, n=n)
    for l in LAY:
        for nd in (1, 2, 3):
            yield dict(k="cube", l=l, nd=nd, big=big)
    for l in LAY:
        for wid in ("array", "none"):
            yield dict(k="pred", l=l, wid=wid)
    for l in ("cont", "low", "mixed", "desc"):
        for phi in (0.0, 25.0, -310.0) + ((1400.0, -4.0) if big else ()):
            for wt in ("variance", "uniform"):
                for fl in ("none", "Q", "U", "I", "all", "err"):
                    for I in ("none", "flat", "pow"):
                        yield dict(k="cli", l=l, phi=phi, wt=wt, fl=fl, I=I)
    for l in ("cont", "desc", "low"):  # many channels
        for wt in ("variance", "uniform"):
            for fl in ("none", "Q", "all", "err"):
                for I in ("none", "pow"):
                    yield dict(k="cli", l=l, phi=-60.0, wt=wt, fl=fl, I=I, n=120)
    for l in ("cont", "desc"):  # strong depolarisation
        for phi in (600.0, -900.0, 1500.0):
            for wt in ("variance", "uniform"):
                yield dict(k="cli", l=l, phi=phi, wt=wt, fl="none", I="none")
    for l in LAY:
        for nd in (2, 3):
            yield dict(k="cube", l=l, nd=nd, big=big, rep=15)
    for prof in ("flat", "bell", "skew"):
        for ref in (0, 1):
            for fw in (9.0, 31.0, 90.0):
                yield dict(k="meas", sub="word", prof=prof, ref=ref, fw=fw, unit=1.0)
                for n in (16, 41, 200, 1000):
                    for unit in (1.0, 1e-9, 4e5):
                        yield dict(k="meas", sub="long", n=n, prof=prof, ref=ref, fw=fw, unit=unit)
    for unit in (1e-9, 4e5):  # of all fluxes
        for l in ("cont", "mixed"):
            for wt in ("variance", "uniform"):
                for fl in ("none", "Q", "I", "all"):
                    for I in ("flat", "pow", "none"):
                        if I != "none" or fl != "I":
                            yield dict(k="cli", l=l, phi=25.0, wt=wt, fl=fl, I=I, unit=unit)


def measured(F, phi, fw, sens, noise, lsq, lam0, k):
    """reference measurement with channel k as the peak: amplitudes are over the sensitivity, the peak is in units of the noise"""
    A = np.abs(F) / sens
    h = phi[1] - phi[0]
    w = int(np.ceil(fw / h)) * 2
    s = np.abs(F) / noise
    keep = [s[i] for i in range(len(s)) if not max(0, k - w) <= i < min(len(s), k + w)]
    use = np.array(keep if len(keep) / len(s) >= 0.3 else s)
    use = use[~np.isnan(use)]
    mad = np.median(np.abs(use - np.median(use))) / 0.6745 * noise[k]
    with np.errstate(all="ignore"):
        t = -np.float64((A[k + 1] - A[k - 1]) / 2) / np.float64(A[k - 1] - 2 * A[k] + A[k + 1])
        v, amp = phi[k] + h * t, A[k] + (A[k + 1] - A[k - 1]) / 4 * t
    d = noise[k] / sens[k]
    r = dict(dFDFcorMAD=mad, dAmpPeakPIfit=d)
    if not (phi[0] * (1 - 1e-9 * np.sign(phi[0])) < v < phi[-1] * (1 - 1e-9 * np.sign(phi[-1]))):
        return r
    snr = amp / d
    N = len(lsq)
    var = (np.sum(lsq**2) - np.sum(lsq) ** 2 / N) / (N - 1)
    re, im = np.interp(v, phi, F.real), np.interp(v, phi, F.imag)
    r.update(phiPeakPIfit_rm2=v, ampPeakPIfit=amp, snrPIfit=snr, dPhiPeakPIfit_rm2=fw / 2 / snr, dPolAngleFit_deg=np.degrees(0.5 / snr), indxPeakPIfit=(v - phi[0]) / h,
             peakFDFrealFit=re, peakFDFimagFit=im, dPolAngle0Fit_deg=np.degrees(np.sqrt(N / (4 * (N - 2) * snr**2) * ((N - 1) / N + lam0**2 / var))))
    if abs(snr - 5) > 1e-3 and not (snr < 1.6 and snr > 0):
        r["ampPeakPIfitEff"] = np.sqrt(amp**2 - 2.3 * d**2) if snr >= 5 else amp
    if np.hypot(re, im) > 1e-6 * np.nanmax(np.abs(F)):
        r["polAngleFit_deg"] = np.degrees(np.arctan2(im, re)) / 2 % 180
        r["polAngle0Fit_deg"] = (r["polAngleFit_deg"] - np.degrees(v * lam0)) % 180
    return r


def mdiff(got, r, phi, F, rt):
    bad = []
    for k, b in r.items():
        a = got[k]
        if a is None:
            bad.append(k)
        elif "olAngle" in k and not k.startswith("d"):
            x = abs(a - b) % 180
            if not (min(x, 180 - x) < 0.06 * rt / 1e-4 and 0 <= a < 180 + 1e-6):
                bad.append(k)
        else:
            s = {"phiPeakPIfit_rm2": np.ptp(phi[:2]), "indxPeakPIfit": 1.0, "peakFDFrealFit": np.nanmax(np.abs(F)), "peakFDFimagFit": np.nanmax(np.abs(F)), "dFDFcorMAD": r["dFDFcorMAD"] + 1e-6 * np.nanmax(np.abs(F))}.get(k, abs(b))
            if not abs(a - b) <= rt * s + (1e-5 if k == "indxPeakPIfit" else 0):
                bad.append(k)
    return bad


def run_meas(case, out):
    """the measurement of every amplitude word, or of every peak position, with sensitivity and noise that change along the spectrum"""
    prof, fw = case["prof"], case["fw"]
    lsq = (C / np.linspace(0.9e9, 1.7e9, 9)) ** 2
    lam0 = {0: 0.0, 1: 0.06}[case["ref"]]
    if case["sub"] == "word":
        words = itertools.product([0.0, 1.0, 2.0, 3.0], repeat=6)
        phi = np.linspace(-50, 50, 6)
        amps = (np.array(w) for w in words)
    else:
        n = case["n"]
        phi = np.linspace(-75.0, 75.0, n)
        x = np.arange(n)
        amps = (np.exp(-((x - c) ** 2) / 8.0) * m + 0.05 * (1 + np.cos(2.3 * x + c)) for c in np.arange(0, n, max(1, n // 40)) + 0.3 for m in (1.0, 0.2))
    n = len(phi)
    y = np.abs(np.arange(n) - (n - 1) / 2) / n
    sens = {"flat": np.ones(n), "bell": 1 - 1.2 * y, "skew": np.linspace(0.3, 1.0, n)}[prof]
    noise = {"flat": np.full(n, 0.05), "bell": 0.05 * (1 - 0.6 * y), "skew": 0.3 * np.linspace(1.0, 0.4, n)}[prof]
    ph = np.exp(2j * (0.4 + 0.31 * np.arange(n)))
    unit = case["unit"]
    for a in amps:
        F = a * ph * unit
        s = np.abs(F) / noise
        if s[1:-1].max() == 0:
            continue
        cand = [k for k in range(1, n - 1) if s[k] >= s[1:-1].max() * (1 - 1e-9)]
        args = [F.copy(), phi.copy(), fw, sens.copy(), noise * unit, lsq.copy()]
        got = BW.bwdepol_measure_FDF_parms(args[0], args[1], args[2], args[3], args[4], dFDF=None, lamSqArr_m2=args[5], lam0Sq=lam0)
        out.step()
        out.ev(prof != "flat")
        info = lambda: "amplitudes %s, depths %s, sensitivity %s, noise %s, width %g, reference %g" % (a * unit, phi, sens, noise * unit, fw, lam0)
        out.check(np.array_equal(args[0], F) and np.array_equal(args[3], sens) and np.array_equal(args[4], noise * unit), "inputs", lambda: "inputs modified; " + info())
        best = min(([(q, got[q], r[q]) for q in mdiff(got, r, phi, F, 1e-6)] for r in (measured(F, phi, fw, sens, noise * unit, lsq, lam0, k) for k in cand)), key=len)
        if not out.check(not best, "measure", lambda: "%s; %s" % (best[:4], info())):
            return
        out.state(prof, tuple(np.round(a, 6)))
    out.sig = "meas"


def weights(w, n):
    return {"none": None, "ones": np.ones(n), "var": np.linspace(0.5, 3.0, n) ** 2, "zero": np.r_[0.0, np.linspace(1, 2, n - 1)], "nan": np.r_[np.nan, np.linspace(1, 2, n - 1)]}[w]


def adjoint(p, nu, wid, phis, wt, l0):
    """weighted adjoint of the channel response; p[chan, ...] complex with NaN for flagged samples"""
    p = np.asarray(p)
    sh = p.shape
    p = p.reshape(sh[0], -1)
    good = ~np.isnan(p)
    wt = np.where(np.isnan(wt), 0, wt)
    W = good * wt[:, None]
    used = np.where(good.any(axis=1), wt, 0)
    if l0 is None:
        l0 = np.sum(used * (C / nu) ** 2) / np.sum(used)
    f = np.zeros((len(phis), p.shape[1]), complex)
    for i, x in enumerate(phis):
        r = avg(nu, wid, x)
        with np.errstate(invalid="ignore", divide="ignore"):
            k = np.where(W.sum(0) > 0, 1 / W.sum(0), 0)
        f[i] = k * np.sum(W * np.where(good, p, 0) * np.conj(r)[:, None], axis=0) * np.exp(2j * x * l0)
    return f.reshape((len(phis),) + sh[1:]), l0, used


def run(case, out):
    {"op": run_op, "syn": run_syn, "cube": run_cube, "pred": run_pred, "cli": run_cli, "meas": run_meas}[case["k"]](case, out)


def tol(nu, w, phi):
    # the closed form subtracts two numbers of the order of the frequency plus c*sqrt(phi)
    return 1e-10 + 1e-13 * (np.max(nu) + C * np.sqrt(np.abs(phi) * np.pi)) / np.min(np.abs(w))


def run_op(case, out):
    nu, w = LAY[case["l"]]
    phi = PHI[case["ip"]]
    if not resolved(nu, w, phi):
        out.sig = "skip"
        return
    want = avg(nu, w, phi)
    out.step()
    out.ev(phi != 0)
    info = lambda: "depth %g, channels %s width %s" % (phi, nu, w)
    t = tol(nu, w, phi)
    got = np.asarray(BW.rotation_operator(w, nu, phi))
    out.check(got.shape == want.shape and np.all(np.abs(got - want) <= t), "response", lambda: "%s, expected %s; %s" % (got, want, info()))
    out.check(np.allclose(BW.rotation_operator(w, nu, -phi), np.conj(got), atol=t), "conjugate", lambda: "not conjugate for the opposite depth; " + info())
    for p, xi in ((1, 0), (0.3, 0.0), (1.0, 0.7), (0.05, -2.0)):
        a = np.asarray(BW.analytical_chan_pol(nu, w, phi, xi_knot=xi, p=p))
        out.check(np.all(np.abs(a - p * np.exp(2j * xi) * want) <= t), "signal", lambda: "signal of p=%g psi=%g: %s expected %s; %s" % (p, xi, a, p * np.exp(2j * xi) * want, info()))
    if np.ndim(w):
        sims = [BW.bwdepol_simulation(phi, nu, w)]
    else:
        sims = [BW.bwdepol_simulation(phi, nu, np.full(len(nu), w)), BW.bwdepol_simulation(phi, nu, w)]
    for s in sims:
        out.check(np.array_equal(s[0], nu) and np.all(np.abs(s[1] + 1j * s[2] - want) <= t), "simulation", lambda: "simulated source %s, expected %s; %s" % (s[1] + 1j * s[2], want, info()))
    for i, f in enumerate(nu):
        wi = w[i] if np.ndim(w) else w
        out.check(abs(BW.rotation_operator(wi, f, phi) - want[i]) <= t, "scalar", lambda: "single channel differs; " + info())
    out.check(np.allclose(BW.l2_to_freq_array((C / nu) ** 2), nu, rtol=1e-12), "l2", lambda: "frequencies of lambda^2")
    out.state(case["l"], phi)
    out.sig = "op"


def run_syn(case, out):
    n = case["n"]
    nu, w = LAY[case["l"]]
    nu = nu[:n].copy()
    w = w[:n] if np.ndim(w) else np.full(n, w)
    l0 = None if case["l0"] == -1 else case["l0"]
    wid = {"array": w, "none": None, "scalar": float(w[0])}[case["wid"]]
    eff = {"array": w, "none": nu[1] - nu[0], "scalar": w[0]}[case["wid"]]
    phis = np.array([-310.0, -4.0, 0.0, 0.5, 33.0, 900.0])
    phis = np.array([x for x in phis if resolved(nu, eff, x)])
    rng = np.arange(n)
    base = (0.3 + 0.1 * rng) * np.exp(2j * (0.4 + 0.9 * rng))
    R = {x: None for x in phis}
    for pat in itertools.product("kQUB", repeat=n):
        q, u = base.real.copy(), base.imag.copy()
        for i, c in enumerate(pat):
            if c in "QB":
                q[i] = np.nan
            if c in "UB":
                u[i] = np.nan
        wt = weights(case["w"], n)
        good = ~np.isnan(q + u)
        wuse = np.ones(n) if wt is None else np.where(np.isnan(wt), 0, wt)
        if np.sum(good * wuse) == 0:
            continue
        keep = [x if x is None else x.copy() for x in (q, u, wt, nu)]
        f, lam0, av = BW.do_adjoint_rmsynth_planes(nu, q, u, phis, widths_Hz=wid, weightArr=wt, lam0Sq_m2=l0, log=lambda *a, **k: None)
        out.step()
        out.ev("k" in pat)
        info = lambda: "channels %s of %s, widths %s, weights %s, reference %s" % ("".join(pat), nu, wid, wt, l0)
        out.check(all((a is None and b is None) or np.array_equal(a, b, equal_nan=True) for a, b in zip(keep, (q, u, wt, nu))), "inputs", lambda: "inputs modified; " + info())
        want, wl0, used = adjoint(q + 1j * u, nu, eff, phis, wuse, l0)
        out.check(np.isclose(lam0, wl0, rtol=1e-10, atol=1e-14), "reference", lambda: "reference %s expected %s; %s" % (lam0, wl0, info()))
        t = max(tol(nu, eff, x) for x in phis)
        if not out.check(np.shape(f) == want.shape and np.all(np.abs(f - want) <= t), "synthesis", lambda: "%s, expected %s at %s; %s" % (f, want, phis, info())):
            return
        # theoretical sensitivity and noise
        dqu = np.linspace(0.01, 0.03, n)
        ph, sens, noise = BW.adjoint_theory(av, dqu)
        for i, x in enumerate(phis):
            r2 = np.abs(avg(nu, eff, x)) ** 2
            ws = np.sum(used * r2) / np.sum(used)
            wn = np.sqrt(np.sum((used * dqu) ** 2 * r2)) / np.sum(used)
            out.check(abs(sens[i] - ws) <= 3 * t and abs(noise[i] - wn) <= t, "theory", lambda: "sensitivity %g noise %g, expected %g %g at %g; %s" % (sens[i], noise[i], ws, wn, x, info()))
        out.state(case["l"], pat, f)
    out.sig = "syn"


def run_cube(case, out):
    """several pixels with isolated flags are synthesised as each alone; narrow channels give ordinary synthesis"""
    nu, w = LAY[case["l"]]
    nu = nu[:4]
    w = w[:4] if np.ndim(w) else np.full(4, w)
    pats = list(itertools.product("kx", repeat=4))
    rng = np.arange(4)
    cols = []
    for j, pat in enumerate(pats):
        c = (0.2 + 0.05 * rng + 0.01 * j) * np.exp(1j * (j + 1.3 * rng))
        c[[i for i in range(4) if pat[i] == "x"]] = np.nan
        cols.append(c)
    p = np.array(cols).T
    rep = case.get("rep", 1)
    p = np.concatenate([p * np.exp(0.3j * k) * (1 + 0.05 * k) for k in range(rep)], axis=1)
    phis = np.array([x for x in (-41.0, 0.0, 3.0, 120.0) if resolved(nu, w, x)])
    shapes = {1: [(16,)], 2: [(16,), (8,)], 3: [(4, 4), (2, 8), (16, 1), (1, 16)]}[case["nd"]]
    if rep > 1:
        shapes = {2: [(240,), (131,)], 3: [(15, 16), (9, 13), (3, 80), (120, 2)]}[case["nd"]]
    for sh in shapes:
        for off in range(0, 16, 3):
            pp = np.roll(p, off, axis=1)
            if case["nd"] == 1:
                d = pp[:, 0]
            else:
                d = pp[:, : int(np.prod(sh))].reshape((4,) + sh)
            if np.all(np.isnan(d)):
                continue
            wt = np.array([1.0, 2.0, 0.5, 3.0])
            f, l0, _ = BW.do_adjoint_rmsynth_planes(nu, d.real, d.imag, phis, widths_Hz=w, weightArr=wt)
            want, wl0, _ = adjoint(d, nu, w, phis, wt, None)
            out.step()
            out.ev(True)
            info = lambda: "shape %s offset %d channels %s" % (sh, off, nu)
            t = max(tol(nu, w, x) for x in phis)
            out.check(np.allclose(np.squeeze(f), np.squeeze(want), atol=t) and np.size(f) == np.size(want) and np.isclose(l0, wl0), "cube", lambda: "%s expected %s; %s" % (f, want, info()))
            g, m0, _ = BW.do_adjoint_rmsynth_planes(nu, d.real, d.imag, phis, widths_Hz=np.full(4, 10.0 * nu[0] * 1e-7), weightArr=wt)
            o, o0 = do_rmsynth_planes(d.real, d.imag, (C / nu) ** 2, phis, weightArr=wt.copy(), lam0Sq_m2=m0)
            o = np.where(np.isnan(o), 0, o)  # pixels without data
            out.check(np.allclose(np.squeeze(g), np.squeeze(o), atol=1e-3), "narrow", lambda: "narrow channels %s, ordinary synthesis %s; %s" % (g, o, info()))
            out.state(case["l"], sh, off)
    out.sig = "cube"


def run_pred(case, out):
    nu, w = LAY[case["l"]]
    wa = w if np.ndim(w) else np.full(len(nu), w)
    eff = wa if case["wid"] == "array" else nu[1] - nu[0]
    lam = (C / nu) ** 2
    for pm, dp in ((None, None), (200.0, None), (200.0, 12.5), (90.0, 30.0), (None, 40.0)):
        rot = 2 * np.sqrt(3) / np.min(np.abs(np.diff(lam))) if pm is None else pm
        if not resolved(nu, eff, rot) or rot / (dp or 2 * np.sqrt(3) / np.ptp(lam)) > 5000:
            continue
        got = []
        with mc.scratch("r21") as d:
            old = BP.plot_adjoint_info
            BP.plot_adjoint_info = lambda a, units="": got.append([np.array(x) for x in a])
            np.savetxt("f.dat", np.array([nu, wa]).T if case["wid"] == "array" else nu)
            try:
                r = cubes.run_main(BP, ["f.dat", "-f", "out.png"] + (["-l", pm] if pm else []) + (["-d", dp] if dp else []))
            finally:
                BP.plot_adjoint_info = old
                plt.close("all")
        got.append([np.array(x) for x in BP.bwdepol_compute_predictions(nu.copy(), widths_Hz=wa.copy() if case["wid"] == "array" else None, phiMax_radm2=pm, dPhi_radm2=dp)])
        out.step()
        out.ev(True)
        info = lambda: "channels %s widths %s max %s step %s" % (nu, case["wid"], pm, dp)
        if not out.check(r == "ok" and len(got) == 2, "failed", lambda: "tool did not finish; " + info()):
            continue
        step = dp or 2 * np.sqrt(3) / np.ptp(lam)
        for a in got:
            ph = a[0]
            out.check(ph[0] == 0 and np.allclose(np.diff(ph), step, rtol=1e-4) and ph[-1] <= rot * (1 + 1e-4) + 1e-5 and ph[-1] > rot * (1 - 1e-4) - step, "depths", lambda: "depths %s; %s" % (ph, info()))
            r2 = np.array([np.abs(avg(nu, eff, x)) ** 2 for x in ph])
            sens, noise = r2.mean(axis=1), np.sqrt(r2.sum(axis=1))
            t = 5 * tol(nu, eff, rot)
            out.check(np.allclose(a[1], sens, atol=t) and np.allclose(a[2], noise / noise.max(), atol=t), "prediction", lambda: "sensitivity %s noise %s, expected %s %s; %s" % (a[1], a[2], sens, noise / noise.max(), info()))
        out.state(case["l"], case["wid"], pm, dp)
    out.sig = "pred"


def run_cli(case, out):
    """every column layout of the same source gives the same result, which is the normalised adjoint"""
    nu, w = LAY[case["l"]]
    n0 = case.get("n", 16)
    if np.ndim(w) == 0:
        nu = np.linspace(nu[0], nu[-1], case.get("n", 16))
        w = abs(nu[1] - nu[0])
        if case["l"] == "low":
            w = 2.5e5 if n0 == 16 else 1e5
    wa = w if np.ndim(w) else np.full(len(nu), w)
    n = len(nu)
    lam = (C / nu) ** 2
    phi = case["phi"]
    step = {"cont": 4.0, "low": 0.1, "mixed": 4.0, "desc": 4.0}[case["l"]]
    if case["l"] == "low":
        phi = phi / 40
    pmax = 420.0 if case["l"] != "low" else 10.5
    pmax = max(pmax, abs(phi) * 1.2)
    p = 0.2 * np.exp(2j * 0.6) * avg(nu, wa, phi)
    I = {"none": np.ones(n), "flat": np.full(n, 2.0), "pow": 3.0 * (nu / 1e9) ** -0.8}[case["I"]] * case.get("unit", 1.0)
    d = np.linspace(0.001, 0.002, n) * case.get("unit", 1.0)
    if case["I"] == "none":
        p = p * case.get("unit", 1.0)
        I = np.ones(n)
    q, u = p.real * I, p.imag * I
    dI, dQ, dU = d.copy(), d.copy(), d.copy() * 1.5
    II = I.copy()
    i = n // 3
    if case["fl"] in ("Q", "all"):
        q[i] = np.nan
    if case["fl"] in ("U", "all"):
        u[i] = np.nan
    if case["fl"] == "I":
        II[i] = np.nan
    if case["fl"] == "all":
        II[i] = dI[i] = dQ[i] = dU[i] = np.nan
    if case["fl"] == "err":
        dQ[i] = dU[i] = np.nan
        if case["wt"] == "uniform":
            out.sig = "skip"
            return
    if case["fl"] == "I" and case["I"] == "none":
        out.sig = "skip"
        return
    used = np.isfinite(q + u)
    with np.errstate(invalid="ignore"):
        wt = np.where(used & np.isfinite(dQ), 1 / ((dQ + dU) / 2) ** 2 if case["wt"] == "variance" else 1.0, 0.0)
    # a model of Stokes I exists in channels without I
    l0 = np.sum(wt * lam) / np.sum(wt)
    I0 = {"none": 1.0, "flat": 2.0, "pow": 3.0 * (C / np.sqrt(l0) / 1e9) ** -0.8}[case["I"]] * (case.get("unit", 1.0) if case["I"] != "none" else 1.0)
    lays = {"none": ["5", "6", "i"], "flat": ["7", "8"], "pow": ["7", "8"]}[case["I"]]
    res = {}
    for lay in lays:
        uniform = not np.ndim(w) and case["l"] not in ("low",)
        eff = wa if lay in "68" else np.full(n, nu[1] - nu[0])
        cols = {"5": [nu, q, u, dQ, dU], "6": [nu, wa, q, u, dQ, dU], "7": [nu, II, q, u, dI, dQ, dU], "8": [nu, wa, II, q, u, dI, dQ, dU],
                "i": [nu, 5.0 + 0 * nu, q, u, dI, dQ, dU]}[lay]
        if not resolved(nu, eff, pmax):
            continue
        with mc.scratch("r21") as sd:
            np.savetxt("src.dat", np.array(cols).T)
            args = ["src.dat", "-S", "-l", pmax, "-d", step, "-w", case["wt"]] + (["-i"] if lay == "i" else []) + (["-t"] if case["fl"] == "U" else []) + (["-v"] if case["fl"] == "Q" else []) + (["-p", "-D"] if case["fl"] == "err" and case["l"] == "cont" else [])
            r = cubes.run_main(BW, args)
            plt.close("all")
            ok = r == "ok" and all(os.path.exists("src" + s) for s in ("_FDFdirty.dat", "_RMSF.dat", "_RMsynth.json", "_weight.dat", "_RMsynth.dat"))
            out.step()
            out.ev(phi != 0)
            info = lambda: "layout %s of %s" % (lay, {k: case[k] for k in ("l", "phi", "wt", "fl", "I")})
            if not out.check(ok, "failed", lambda: "tool failed (%s); %s" % (r, info())):
                continue
            fdf = np.loadtxt("src_FDFdirty.dat")
            rmsf = np.loadtxt("src_RMSF.dat")
            wts = np.loadtxt("src_weight.dat")
            j = json.load(open("src_RMsynth.json"))
        out.check(np.allclose(wts[:, 0], nu) and np.allclose(wts[:, 1], wt, rtol=1e-6), "weights", lambda: "weights %s expected %s; %s" % (wts[:, 1], wt, info()))
        out.check(j["N_channels"] == int(np.sum(wt > 0)), "channels", lambda: "%s channels, expected %d; %s" % (j["N_channels"], np.sum(wt > 0), info()))
        tI = 2e-3 if case["I"] == "pow" else 1e-4
        out.check(abs(j["Ifreq0"] / I0 - 1) < tI, "ifreq0", lambda: "Stokes I at the reference %g, expected %g; %s" % (j["Ifreq0"], I0, info()))
        out.check(abs(j["lam0Sq_m2"] / l0 - 1) < 1e-6, "reference", lambda: "reference lambda^2 %g, expected %g; %s" % (j["lam0Sq_m2"], l0, info()))
        ph = fdf[:, 0]
        out.check(abs(ph + ph[::-1]).max() < 1e-6 and np.allclose(np.diff(ph), step, rtol=1e-6) and abs(ph[-1] - pmax) <= step / 2 + 1e-6, "depths", lambda: "depths %s; %s" % (ph, info()))
        pq = np.where(wt > 0, p, 0)
        A = np.array([avg(nu, eff, x) for x in ph])
        sens = (np.abs(A) ** 2 * wt).sum(1) / wt.sum()
        want = I0 * (np.conj(A) * (wt * pq)).sum(1) / wt.sum() * np.exp(2j * ph * l0) / sens
        t = 0.2 * I0 * (case.get("unit", 1.0) if case["I"] == "none" else 1.0) * (tI + 1e-5 + 10 * max(tol(nu, eff, pmax) / sens.min(), 0))
        out.check(np.all(np.abs(fdf[:, 1] + 1j * fdf[:, 2] - want) <= t), "spectrum", lambda: "spectrum %s expected %s; %s" % (fdf[:, 1] + 1j * fdf[:, 2], want, info()))
        # the RMSF is the (not normalised) response to a unit source at the peak, at the depths it is saved with
        dQU = np.where(wt > 0, (dQ + dU) / 2, 0.0)
        noise = np.sqrt((np.abs(A) ** 2 * (wt * dQU) ** 2).sum(1)) / wt.sum()
        snr = np.abs(want * sens) / noise
        cand = [k for k in range(1, len(ph) - 1) if snr[k] >= snr[1:-1].max() * (1 - 1e-5)]
        x2 = rmsf[:, 0]
        nx = int(np.ceil(len(ph) / 2.0))
        out.check(len(x2) == len(ph) + 2 * nx and np.allclose(x2[nx : nx + len(ph)], ph, atol=1e-6) and np.allclose(np.diff(x2), step, rtol=1e-5), "rmsfdepths", lambda: "depths of the RMSF %s; %s" % (x2, info()))
        A2 = np.array([avg(nu, eff, x) for x in x2]) if resolved(nu, eff, np.abs(x2).max()) else None
        if A2 is not None:
            okk = False
            for k in cand:
                w2 = (np.conj(A2) * (wt * A[k])).sum(1) / wt.sum() * np.exp(2j * x2 * l0)
                okk = okk or np.all(np.abs(rmsf[:, 1] + 1j * rmsf[:, 2] - w2) <= 1e-6 + 3 * tol(nu, eff, np.abs(x2).max()))
            out.check(okk, "rmsf", lambda: "RMSF %s, expected %s; %s" % (rmsf[:, 1] + 1j * rmsf[:, 2], w2, info()))
        if phi != 0 and snr.max() > 5 and abs(phi) < 500:
            k = cand[0]
            out.check(abs(j["phiPeakPIfit_rm2"] - ph[k]) <= step, "peak", lambda: "peak at %g, expected near %g; %s" % (j["phiPeakPIfit_rm2"], ph[k], info()))
        if len(cand) == 1 and phi != 0:
            Fr = (fdf[:, 1] + 1j * fdf[:, 2]) * sens
            if not (case["l"] == "low" or tol(nu, eff, pmax) > 1e-7):
                r = measured(Fr, ph, j["fwhmRMSF"], sens, noise, lam[wt > 0], l0, cand[0])
                bad = [(q, j[q], r[q]) for q in mdiff(j, r, ph, Fr, 1e-3)]
                out.check(not bad, "measured", lambda: "%s; %s" % (bad[:4], info()))
            use = nu[wt > 0]
            sc = case.get("unit", 1.0)
            out.check(j["min_freq"] == use.min() and j["max_freq"] == use.max() and abs(j["freq0_Hz"] * np.sqrt(l0) / C - 1) < 1e-6, "frequencies", lambda: "frequencies %s; %s" % ([j[q] for q in ("min_freq", "max_freq", "freq0_Hz")], info()))
            out.check(abs(j["fracPol"] * j["Ifreq0"] - j["ampPeakPIfit"]) <= 1e-6 * j["ampPeakPIfit"], "fraction", lambda: "polarised fraction %s of %s and %s; %s" % (j["fracPol"], j["ampPeakPIfit"], j["Ifreq0"], info()))
            th = np.sqrt(np.sum((wt * dQU) ** 2)) / wt.sum()
            out.check(abs(j["dFDFth"] - th) <= 1e-5 * th and abs(j["dQU"] - np.nanmedian((dQ + dU) / 2)) <= 1e-6 * sc, "noise", lambda: "noise %s %s, expected %s; %s" % (j["dFDFth"], j["dQU"], th, info()))
            dn = np.abs(wa if lay in "68" else np.diff(nu))
            out.check(abs(abs(j["median_channel_width"]) / np.median(dn) - 1) < 1e-6, "chanwidth", lambda: "channel width %s, expected %s; %s" % (j["median_channel_width"], np.median(dn), info()))
        if case["fl"] != "U":
            y2 = np.abs(rmsf[:, 1] + 1j * rmsf[:, 2])
            mp = fit_rmsf(x2, y2 / y2.max())
            lw = 2 * np.sqrt(3) / np.ptp(lam) if mp is None or mp.status < 1 else mp.params[2]
            out.check(abs(j["fwhmRMSF"] / lw - 1) < 1e-3, "lobe", lambda: "fitted width %g, expected %g; %s" % (j["fwhmRMSF"], lw, info()))
        if case["fl"] == "U":
            fw = 2 * np.sqrt(3) / np.ptp(lam)
            out.check(abs(j["fwhmRMSF"] / fw - 1) < 1e-6, "width", lambda: "analytical width %g expected %g; %s" % (j["fwhmRMSF"], fw, info()))
        res[lay] = (fdf, rmsf, j)
        out.state(case["l"], lay, case["wt"], case["fl"], fdf)
    # the layouts say the same when the widths are the channel separations
    ks = list(res)
    if not np.ndim(w) and case["l"] in ("cont",) and len(ks) > 1:
        for b in ks[1:]:
            a = ks[0]
            out.check(np.allclose(res[a][0], res[b][0], rtol=1e-6, atol=1e-8 * case.get("unit", 1.0)) and abs(res[a][2]["phiPeakPIfit_rm2"] - res[b][2]["phiPeakPIfit_rm2"]) < 1e-4, "layouts", lambda: "layouts %s and %s differ; %s" % (a, b, case))
    out.sig = "cli"


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
