"""R09: 1-D synthesis is correct and equivariant to the symmetries of the data."""
import itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref
import numpy as np
import RMtools_1D.do_RMsynth_1D as S1
from R05 import measure
from R06 import model
from RMutils.util_misc import fit_StokesI_model, renormalize_StokesI_model
from RMutils.util_RM import get_rmsf_planes

PID, LEVEL = "R09", "exploration"
RULE = ("one evaluation = one complete 1-D synthesis; 'cfg' enumerates all option combinations, 'flags' all placements of up to two flagged values, "
        "'sym' the symmetry transformations; non-trivial = options differ from the defaults, channels are flagged or the data are transformed")
ASSUMPTIONS = ["errors are positive where defined; default depth grids are only compared for channels in the given order",
               "the (slow) scatter-complexity measurement is skipped in most runs, R22 covers it"]
CHUNK = 1
RM0, CHI0 = 25.0, 0.6


def base(n, seed=0, noisyI=False, ff="log", coef=(2.0, -0.7), f=None):
    f = ref.freqs("irr", n) if f is None else f
    l = ref.lamsq(f)
    p = np.zeros(6)
    for i, c in enumerate(coef):
        p[5 - i] = c
    I = model(p, f / 1.1e9, ff)
    P = I * (0.3 * np.exp(2j * (CHI0 + RM0 * l)) + 0.06 * np.exp(2j * (0.2 - 70 * l)))
    d = 0.01 * (1 + (np.arange(n) * 5 + seed) % 4)
    P = P + d * (np.cos(2.3 * np.arange(n) + seed) + 1j * np.sin(1.7 * np.arange(n) + 2 * seed)) * 0.7
    if noisyI:
        I = I + 0.02 * np.cos(5.1 * np.arange(n))
    return dict(f=f, I=I, Q=P.real.copy(), U=P.imag.copy(), dI=np.full(n, 0.02), dQ=d.copy(), dU=d * 1.2, p=p, f0=1.1e9, ff=ff)


def call(b, opt):
    cols = [b[k].copy() for k in (("f", "I", "Q", "U", "dI", "dQ", "dU") if opt["cols"] != "qu" else ("f", "Q", "U", "dQ", "dU"))]
    dt = "f8" if opt["bits"] == 64 else "f4"
    cols = [c.astype(dt) if k or opt.get("allf4") else c for k, c in enumerate(cols)]  # files are read in single precision throughout
    kw = {}
    if opt["cols"] == "mod":
        kw["modStokesI"] = model(b["p"], b["f"] / b["f0"], b["ff"])
    if opt["cols"] == "ign":
        kw["noStokesI"] = True
    keep = [c.copy() for c in cols]
    full = opt.get("full", False)
    old = getattr(S1, "measure_qu_complexity", None)
    if not full and old is not None:
        S1.measure_qu_complexity = lambda *a, **k: ({"sigmaAddC": 0.0, "dSigmaAddPlusC": 0.0, "dSigmaAddMinusC": 0.0}, {})
    try:
        m, a = S1.run_rmsynth(cols, polyOrd=opt["order"], fit_function=opt["ff"], weightType=opt["w"], nBits=opt["bits"], fitRMSF=opt.get("fit", False),
                              super_resolution=opt.get("sr", False), **opt["grid"], **kw)
    finally:
        if old is not None:
            S1.measure_qu_complexity = old
    same = all(np.array_equal(x, y, equal_nan=True) for x, y in zip(cols, keep))
    return m, a, same


def grid_ref(b, opt):
    g = opt["grid"]
    l = ref.lamsq(b["f"])
    fw = 2.0 / (l.max() + l.min()) if opt.get("sr") else 3.8 / (l.max() - l.min())
    dphi = g.get("dPhi_radm2") or fw / g.get("nSamples", 10.0)
    pm = g.get("phiMax_radm2")
    if pm is None:
        pm = max(np.sqrt(3) / np.abs(np.diff(l)).max(), 10 * fw)
    n = int(round(pm / dphi)) * 2 + 1
    return (np.arange(n) - n // 2) * dphi


def judge(b, opt, out, info):
    m, a, same = call(b, opt)
    out.step()
    out.check(same, "inputs", lambda: "the caller's data were modified; " + info())
    f = b["f"]
    n = len(f)
    l = ref.lamsq(f)
    lo = opt["bits"] == 32
    useI = opt["cols"] in ("all", "mod")
    Im = model(b["p"], f / b["f0"], b["ff"]) if useI else np.ones(n)
    q, u, dq, du = [b[k] / Im for k in ("Q", "U", "dQ", "dU")]
    good = np.isfinite(q) & np.isfinite(u)
    dqu = np.abs(dq + du) / 2
    w = np.where(np.isfinite(dqu), 1 / dqu**2, 0.0) if opt["w"] == "variance" else np.ones(n)
    w = np.where(good, w, 0.0)
    used = w > 0
    phi = np.asarray(a["phiArr_radm2"], float)
    pr = grid_ref(b, opt)
    out.check(phi.shape == pr.shape and np.allclose(phi, pr, rtol=1e-5, atol=1e-4), "grid", lambda: "depth grid %s..%s (%d) expected %s..%s (%d); %s" % (phi[0], phi[-1], len(phi), pr[0], pr[-1], len(pr), info()))
    lam0 = 0.0 if opt.get("sr") else float((w * l).sum() / w.sum())
    rt = 2e-3 if lo else 1e-4
    rel = lambda x, y, t=rt: abs(float(x) - y) <= t * abs(y)
    out.check(abs(float(m["lam0Sq_m2"]) - lam0) <= 1e-5 * max(lam0, 1e-9), "lam0", lambda: "lambda0^2 %r expected %r; %s" % (m["lam0Sq_m2"], lam0, info()))
    if opt.get("sr"):
        gi = np.isfinite(b["I"]) & np.isfinite(b["dI"]) if opt["cols"] == "all" else np.ones(n, bool)
        f0 = 1 / np.sqrt(np.mean(1 / f[gi] ** 2))
        out.check(f.min() < m["freq0_Hz"] < f.max(), "freq0", lambda: "reference frequency %r outside the band; %s" % (m["freq0_Hz"], info()))
        f0 = float(m["freq0_Hz"])
    else:
        f0 = ref.C / np.sqrt(lam0)
        out.check(rel(m["freq0_Hz"], f0, 1e-5), "freq0", lambda: "reference frequency %r expected %r; %s" % (m["freq0_Hz"], f0, info()))
    I0 = float(model(b["p"], f0 / b["f0"], b["ff"])) if useI else 1.0
    tolI = 0.03 if opt["cols"] == "mod" else rt  # supplied models are interpolated
    out.check(rel(m["Ifreq0"], I0, tolI), "ifreq0", lambda: "Stokes I at the reference %r expected %r; %s" % (m["Ifreq0"], I0, info()))
    if opt["cols"] == "mod":
        o = np.argsort(f)
        I0i = float(np.interp(f0, f[o], Im[o]))
        out.check(rel(m["Ifreq0"], I0i), "ifreq0", lambda: "Stokes I at the reference %r, the supplied model has %r; %s" % (m["Ifreq0"], I0i, info()))
        I0 = I0i
    F, _, _ = ref.ref_fdf(np.where(good, q, np.nan)[:, None], np.where(good, u, np.nan)[:, None], l, phi, w, lam0)
    F = F[:, 0] * I0
    got = np.asarray(a["dirtyFDF"]).astype(complex)
    tol = (2e-3 if lo else 1e-4) * np.abs(F).max()
    e = ref.maxdiff(got, F)
    out.check(e <= tol, "fdf", lambda: "spectrum differs by %g of the peak; %s" % (e / np.abs(F).max(), info()))
    phi2 = np.asarray(a["phi2Arr_radm2"], float)
    R, _ = ref.ref_rmsf((~used)[:, None], l, phi2, np.where(used, w, 0.0), lam0)
    R = R[:, 0]
    e2 = ref.maxdiff(np.asarray(a["RMSFArr"]).astype(complex), R)
    out.check(e2 <= (2e-3 if lo else 1e-4), "rmsf", lambda: "RMSF differs by %g; %s" % (e2, info()))
    out.check(np.allclose(np.asarray(a["weightArr"], float), w, rtol=2e-5), "weights", lambda: "weights %s expected %s; %s" % (a["weightArr"], w, info()))
    out.check(np.allclose(np.asarray(a["freqArr_Hz"], float), f, rtol=1e-6), "freqs", lambda: "frequencies changed; " + info())
    th = abs(I0) * np.sqrt(np.nansum(w**2 * np.nan_to_num(dqu) ** 2)) / w.sum()
    known = bool(np.all(np.isfinite(dqu[used])))
    if known:
        out.check(rel(m["dFDFth"], th, 2e-3), "dFDFth", lambda: "theoretical noise %r expected %r; %s" % (m["dFDFth"], th, info()))
    fw = 3.8 / (l.max() - l.min())
    if not opt.get("fit") and not opt.get("sr"):
        out.check(rel(m["fwhmRMSF"], fw), "fwhm", lambda: "FWHM %r expected %r; %s" % (m["fwhmRMSF"], fw, info()))
    else:  # the width fitted to the returned RMSF
        one = get_rmsf_planes(l, phi, weightArr=np.where(used, w, 0.0), mskArr=(~used).astype(int), lam0Sq_m2=lam0, double=True, fitRMSF=True, fitRMSFreal=bool(opt.get("sr")), nBits=opt["bits"])[2]
        one = float(np.ravel(one)[0])
        out.check(rel(m["fwhmRMSF"], one, 5e-3), "fwhm", lambda: "FWHM %r, fit to this RMSF %r; %s" % (m["fwhmRMSF"], one, info()))
    out.check(rel(abs(m["median_channel_width"]), np.median(np.abs(np.diff(f))), 1e-5), "width", lambda: "median channel width %r; %s" % (m["median_channel_width"], info()))
    nu = used
    out.check(m["N_channels"] == int(nu.sum()) and rel(m["min_freq"], f[nu].min(), 1e-6) and rel(m["max_freq"], f[nu].max(), 1e-6), "channels",
              lambda: "reports %s channels from %s to %s, used %d from %s to %s; %s" % (m["N_channels"], m["min_freq"], m["max_freq"], nu.sum(), f[nu].min(), f[nu].max(), info()))
    # measurements follow from the returned spectrum
    A = np.abs(got)
    i = int(np.argmax(A[1:-1])) + 1
    if known and np.sum(A[1:-1] > A[i] * (1 - 1e-4)) == 1 and nu.sum() > 2:
        r = measure(got, phi, float(m["fwhmRMSF"]), float(m["dFDFth"]), l[nu], lam0, 5.0, i)
        if r is not None and r["_inside"]:
            for k, v in r.items():
                if k.startswith("_"):
                    continue
                g = float(m[k])
                if k in ("polAngleFit_deg", "polAngle0Fit_deg"):
                    d = abs(g - v) % 180
                    ok = min(d, 180 - d) < (0.2 if lo else 0.01) and 0 <= g <= 180
                elif k == "phiPeakPIfit_rm2":
                    ok = abs(g - v) < (2e-3 if lo else 1e-4) * fw * 10
                elif k.startswith("peakFDF"):
                    ok = abs(g - v) < tol
                elif k == "dFDFcorMAD":
                    t = float(m["fwhmRMSF"]) / (phi[1] - phi[0])
                    ok = abs(t - round(t)) < 1e-3 or abs(g - v) < 1e-3 * v + tol
                else:
                    ok = abs(g - v) <= 2e-3 * abs(v) + 1e-9
                out.check(ok, "measure:" + k, lambda: "%s = %r expected %r; %s" % (k, m[k], v, info()))
            out.check(rel(m["fracPol"], r["ampPeakPIfitEff"] / I0, 3e-3), "fracpol", lambda: "fracPol %r expected %r; %s" % (m["fracPol"], r["ampPeakPIfitEff"] / I0, info()))
    dQU = np.nanmedian((b["dQ"] + b["dU"]) / 2)
    out.check(rel(m["dQU"], dQU), "dqu", lambda: "dQU %r expected %r; %s" % (m["dQU"], dQU, info()))
    if opt["cols"] == "all" and np.sum(np.isfinite(b["I"]) & np.isfinite(b["dI"])) > abs(opt["order"]):
        c = np.array([float(t) for t in m["polyCoeffs"].split(",")])
        ev = model(c, f / f0, opt["ff"])
        fr = fit_StokesI_model(f, b["I"], b["dI"], opt["order"], opt["ff"])
        # (a free coefficient that is zero up to rounding has no usable finite-difference step in the fitter)
        if fr.fitStatus < 64 and np.all(np.abs(fr.params[5 - fr.polyOrd:]) > 1e-4):
            pe = np.array(renormalize_StokesI_model(fr, f0).perror if not opt.get("sr") else fr.perror, float)
            ge = np.array([float(t) for t in m["polyCoefferr"].split(",")])
            out.check(ge.shape == pe.shape and np.allclose(ge, pe, rtol=1e-2, atol=1e-9 * np.max(np.abs(pe))), "coefferr", lambda: "coefficient errors %s, of the fit %s; %s" % (ge, pe, info()))
        out.check(np.allclose(ev, Im, rtol=3e-3), "coeffs", lambda: "reported coefficients give %s, model is %s; %s" % (ev, Im, info()))
    out.state(F, m["phiPeakPIfit_rm2"])
    return m, a


EXPL = dict(phiMax_radm2=150.0, dPhi_radm2=2.5)
GRIDS = [EXPL, {}, dict(nSamples=4.0), dict(phiMax_radm2=133.0), dict(dPhi_radm2=7.7)]


def cases(tier):
    big = tier == "thorough"
    out = []
    fits = [("log", 1), ("log", 2), ("linear", 1), ("log", -2), ("log", 0)] + ([("linear", 3), ("linear", -3), ("log", 4)] if big else [])
    for cols, w, bits in itertools.product(("all", "qu", "ign", "mod"), ("variance", "uniform"), (32, 64)):
        out.append(dict(kind="cfg", cols=cols, w=w, bits=bits, fits=fits))
    for cols in ("all", "qu", "mod"):
        for w in ("variance", "uniform"):
            nf = 8 if big else 7
            for c in range(nf):
                out.append(dict(kind="flags", cols=cols, w=w, c=c, n=nf, triple=big))
    for cols in ("all", "qu"):
        for w in ("variance", "uniform"):
            for grp in ("perm", "scale", "rot", "rm", "nan"):
                for seed in range(1 if not big else 6):
                    out.append(dict(kind="sym", cols=cols, w=w, grp=grp, seed=seed))
            out.append(dict(kind="sym", cols=cols, w=w, grp="scale", seed=0, bits=32))
    for cols in ("all", "qu", "mod"):
        for lay in ("irr", "desc", "band", "banddesc"):
            for n in (30, 55) + ((288,) if "band" in lay else ()) if not big else (24, 30, 55, 120, 288):
                out.append(dict(kind="layout", cols=cols, lay=lay, n=n))
    for cols in ("all", "qu", "mod"):
        for lay in ("hi", "hidesc", "low"):  # default depth grids far from those of an L-band survey
            for n in (40, 150) if big else (40,):
                out.append(dict(kind="layout", cols=cols, lay=lay, n=n))
    for cols in ("all", "qu", "mod"):
        for w in ("variance", "uniform"):
            for n in (100, 288) if not big else (40, 100, 288, 500):
                out.append(dict(kind="many", cols=cols, w=w, n=n))
    for cols in ("all", "qu", "ign", "mod"):
        out.append(dict(kind="faint", cols=cols))
    for cols in ("all", "mod"):
        out.append(dict(kind="negative", cols=cols))
    for cols in ("all", "qu"):
        out.append(dict(kind="full", cols=cols))
    return out


SCALED = ["ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit", "dFDFcorMAD", "dFDFth", "Ifreq0", "dQU"]
FREE = ["phiPeakPIfit_rm2", "dPhiPeakPIfit_rm2", "snrPIfit", "dPolAngleFit_deg", "dPolAngle0Fit_deg", "freq0_Hz", "lam0Sq_m2", "fwhmRMSF"]


def same(a, b, t):
    return abs(float(a) - float(b)) <= t * abs(float(b)) + 1e-12


def angle(a, b):
    d = abs(float(a) - float(b)) % 180
    return min(d, 180 - d)


def run(case, out):
    k = case["kind"]
    if k == "cfg":
        for (ff, order), grid, sr, fit in itertools.product(case["fits"], GRIDS, (False, True), (False, True)):
            if fit and grid is not EXPL:
                continue
            coef = (2.0,) if order == 0 else (2.0, -0.7) if ff == "log" else (2.0, -0.5)
            b = base(12, ff=ff, coef=coef)
            opt = dict(cols=case["cols"], w=case["w"], bits=case["bits"], ff=ff, order=order, grid=grid, sr=sr, fit=fit)
            judge(b, opt, out, lambda: "options %s" % opt)
            out.ev(True)
        out.sig = "cfg"
        return
    if k == "layout":
        for grid, w, sr in itertools.product(GRIDS, ("variance", "uniform"), (False, True)):
            f = {"band": 1.0e9 + 0.3e9 * np.arange(case["n"]) / case["n"], "hi": 8e9 + 1e9 * np.arange(case["n"]) / case["n"], "low": 50e6 + 20e6 * np.arange(case["n"]) / case["n"]}.get(case["lay"].replace("desc", ""))
            if case["lay"][:2] in ("hi", "lo"):
                if "phiMax_radm2" in grid or "dPhi_radm2" in grid:
                    continue
                b = base(case["n"], f=f)
                b["f0"], b["p"] = f.mean(), np.array([0, 0, 0, 0, -0.7, 2.0])
                for x in ("Q", "U"):
                    b[x] = b[x] / b["I"]
                b["I"] = model(b["p"], f / b["f0"], "log")
                for x in ("Q", "U"):
                    b[x] = b[x] * b["I"]
            else:
                b = base(case["n"], f=f)
            if "desc" in case["lay"]:
                b = {x: (v[::-1].copy() if np.shape(v) == (case["n"],) else v) for x, v in b.items()}
            opt = dict(cols=case["cols"], w=w, bits=64, ff="log", order=1, grid=grid, sr=sr)
            judge(b, opt, out, lambda: "%d channels %s, options %s" % (case["n"], case["lay"], opt))
            out.ev(True)
        out.sig = "layout"
        return
    if k == "negative":  # an absorbed (negative) Stokes I model
        for coef, w, grid, n in itertools.product(((-2.0, 0.4), (-1.5,), (-2.0, -0.7)), ("variance", "uniform"), (EXPL, {}), (9, 12)):
            b = base(n, ff="linear", coef=coef)
            b["dI"] = np.full(n, 0.02)
            opt = dict(cols=case["cols"], w=w, bits=64, ff="linear", order=len(coef) - 1, grid=grid)
            judge(b, opt, out, lambda: "Stokes I coefficients %s, options %s" % (coef, opt))
            out.ev(True)
        out.sig = "negative"
        return
    if k == "faint":  # signal-to-noise ratios from large to below the debiasing threshold
        for s, w, bits, fit, sr in itertools.product((3.0, 8.0, 11.0, 13.0, 15.0, 20.0, 60.0), ("variance", "uniform"), (32, 64), (False, True), (False, True)):
            b = base(12)
            b["dQ"], b["dU"] = b["dQ"] * s, b["dU"] * s
            opt = dict(cols=case["cols"], w=w, bits=bits, ff="log", order=1, grid=EXPL, sr=sr, fit=fit)
            m, a = judge(b, opt, out, lambda: "errors x%g, options %s" % (s, opt))
            out.state(s, round(float(m["snrPIfit"]), 2))
            out.ev(True)
        out.sig = "faint"
        return
    if k == "flags":
        n, c = case["n"], case["c"]
        kinds = ["Q", "U", "all"] + (["I", "dI"] if case["cols"] == "all" else []) + (["dQ", "dU"] if case["w"] == "variance" else [])
        sets = [((c, x),) for x in kinds] + [((c, x), (d, y)) for d in range(c + 1, n) for x in kinds for y in (kinds if case["triple"] else kinds[:3])]
        if case["triple"]:
            sets += [((c, x), (d, y), (e, z)) for d in range(c + 1, n) for e in range(d + 1, n) for x in kinds for y in ("Q", "U") for z in ("U", "all")]
        opt = dict(cols=case["cols"], w=case["w"], bits=64, ff="log", order=1, grid=EXPL)
        for s in sets:
            b = base(n, seed=1)
            for ch, x in s:
                for col in ("I", "Q", "U", "dI", "dQ", "dU") if x == "all" else (x,):
                    b[col][ch] = np.nan
            judge(b, opt, out, lambda: "flags %s %s" % (s, opt["w"]))
            out.ev(True)
        out.sig = "flags"
        return
    if k == "many":  # many channels with many flags
        n = case["n"]
        kinds = ["Q", "U", "all"] + (["I", "dI"] if case["cols"] == "all" else []) + (["dQ", "dU"] if case["w"] == "variance" else [])
        for x, (nm, where) in itertools.product(kinds, dict(first=[0], last=[n - 1], third=range(0, n, 3), half=range(n // 2), most=range(5, n), ends=list(range(7)) + list(range(n - 9, n))).items()):
            for bits in (32, 64):
                b = base(n, seed=1, f=1.0e9 + 0.3e9 * np.arange(n) / n)
                for ch in where:
                    for col in ("I", "Q", "U", "dI", "dQ", "dU") if x == "all" else (x,):
                        b[col][ch] = np.nan
                opt = dict(cols=case["cols"], w=case["w"], bits=bits, ff="log", order=1, grid=EXPL)
                judge(b, opt, out, lambda: "%d channels, %s flagged in %s, %s, %d bits" % (n, nm, x, case["w"], bits))
                out.ev(True)
        out.sig = "many"
        return
    opt = dict(cols=case["cols"], w=case.get("w", "variance"), bits=case.get("bits", 64), allf4="bits" in case, ff="log", order=1, grid=EXPL)
    if k == "full":
        opt["full"] = True
        b = base(9, noisyI=True)
        m0, a0, _ = call(b, opt)
        p = np.array([8, 3, 5, 0, 2, 7, 1, 4, 6])
        bb = dict(b, **{x: b[x][p] for x in ("f", "I", "Q", "U", "dI", "dQ", "dU")})
        m1, a1, _ = call(bb, opt)
        s = 20.0
        bs = dict(b, **{x: b[x] * s for x in ("I", "Q", "U", "dI", "dQ", "dU")})
        m2, a2, _ = call(bs, opt)
        out.step(3)
        for x in ("sigmaAddQ", "sigmaAddU", "sigmaAddC", "dSigmaAddPlusC", "dSigmaAddMinusC"):
            out.check(same(m1[x], m0[x], 0.02), "complexity", lambda: "%s changes from %r to %r on reordering channels" % (x, m0[x], m1[x]))
            if case["cols"] == "all":
                out.check(same(m2[x], m0[x], 0.02), "complexity", lambda: "%s changes from %r to %r on scaling the flux" % (x, m0[x], m2[x]))
        out.ev(True)
        return
    b = base(8, seed=case["seed"], noisyI=case["cols"] == "all")
    n = 8
    m0, a0, _ = call(b, opt)
    F0 = np.asarray(a0["dirtyFDF"])
    big = np.abs(F0).max()
    l = ref.lamsq(b["f"])
    flux = ("I", "Q", "U", "dI", "dQ", "dU")

    def cmp(m, a, scale, dchi, info, keys=True):
        out.ev(True)
        out.step()
        F = np.asarray(a["dirtyFDF"]) / scale
        e = ref.maxdiff(F, F0 * np.exp(2j * dchi))
        out.check(e < 3e-4 * big, "sym:fdf", lambda: "spectrum changed by %g of its peak; %s" % (e / big, info()))
        for x in SCALED:
            if (x == "dFDFcorMAD" and dchi != 0) or (x == "dQU" and case["grp"] == "nan"):
                continue  # not a rotation invariant; a description of all given errors
            sc = 1.0 if x == "Ifreq0" and case["cols"] == "qu" else scale
            out.check(same(float(m[x]) / sc, m0[x], 1e-3), "sym:" + x, lambda: "%s %r was %r; %s" % (x, m[x], m0[x], info()))
        for x in FREE:
            out.check(same(m[x], m0[x], 1e-3), "sym:" + x, lambda: "%s %r was %r; %s" % (x, m[x], m0[x], info()))
        for x in ("polAngleFit_deg", "polAngle0Fit_deg"):
            out.check(angle(m[x], m0[x] + np.degrees(dchi)) < 0.05, "sym:" + x, lambda: "%s %r was %r rotated by %g; %s" % (x, m[x], m0[x], np.degrees(dchi), info()))
        out.state(scale, dchi, m["phiPeakPIfit_rm2"])

    if case["grp"] == "perm":
        blocks = [np.arange(n)[::-1]] + [np.roll(np.arange(n), s) for s in range(1, n)]
        blocks += [np.concatenate([np.array(x) for x in p]) for p in itertools.permutations([[0, 1], [2, 3], [4, 5], [6, 7]])]
        blocks += [np.array(p) for p in ([1, 0] + list(range(2, n)), [7, 1, 2, 3, 4, 5, 6, 0])]
        for p in blocks:
            m, a, _ = call(dict(b, **{x: b[x][p] for x in ("f",) + flux}), opt)
            cmp(m, a, 1.0, 0.0, lambda: "channels in order %s" % p)
    if case["grp"] == "nan":  # flagged channels added inside the band
        for places in itertools.combinations(range(1, n), 2):
            for which in (flux, ("Q",), ("U",), ("Q", "U", "I"), ("dQ", "Q"), ("U", "dU")):
                if case["cols"] == "qu" and "I" in which and len(which) == 3:
                    continue
                bb = {}
                for x in ("f",) + flux:
                    y = b[x].copy()
                    ins = [(y[i - 1] + y[i]) / 2 if x not in which else np.nan for i in places]
                    bb[x] = np.insert(y, places, ins)
                if "I" not in which:  # the Stokes I fit sees no new channel
                    bb["I"][np.isnan(bb["Q"]) | np.isnan(bb["U"])] = np.nan
                m, a, _ = call(dict(b, **bb), opt)
                out.check(m["N_channels"] == m0["N_channels"], "sym:nchan", lambda: "%d channels counted, %d used" % (m["N_channels"], m0["N_channels"]))
                cmp(m, a, 1.0, 0.0, lambda: "flagged (%s) channels inserted at %s" % (which, places))
    if case["grp"] == "scale":
        for s in (1e-9, 1e-3, 0.5, 7.0, 1e4, 1e9):
            m, a, _ = call(dict(b, **{x: b[x] * s for x in flux}), opt)
            cmp(m, a, s, 0.0, lambda: "flux scaled by %g" % s)
    if case["grp"] == "rot":
        for chi in np.arange(1, 16) * np.pi / 16:
            P = (b["Q"] + 1j * b["U"]) * np.exp(2j * chi)
            m, a, _ = call(dict(b, Q=P.real, U=P.imag), opt)
            cmp(m, a, 1.0, chi, lambda: "rotated by %g rad" % chi)
    if case["grp"] == "rm":
        lam0 = float(m0["lam0Sq_m2"])
        for k2 in list(range(-12, 13)):
            if k2 == 0:
                continue
            d = 5.0 * k2
            P = (b["Q"] + 1j * b["U"]) * np.exp(2j * d * l)
            m, a, _ = call(dict(b, Q=P.real, U=P.imag), opt)
            out.ev(True)
            out.step()
            F = np.asarray(a["dirtyFDF"])
            sft = int(round(d / EXPL["dPhi_radm2"]))
            sl = slice(max(0, sft), len(F) + min(0, sft))
            sl0 = slice(max(0, -sft), len(F) + min(0, -sft))
            e = ref.maxdiff(F[sl], F0[sl0] * np.exp(2j * d * lam0))
            out.check(e < 3e-4 * big, "rm:fdf", lambda: "spectrum is not shifted by %g (difference %g)" % (d, e))
            out.check(abs(m["phiPeakPIfit_rm2"] - m0["phiPeakPIfit_rm2"] - d) < 0.01, "rm:peak", lambda: "peak moved from %r to %r for an added RM of %g" % (m0["phiPeakPIfit_rm2"], m["phiPeakPIfit_rm2"], d))
            for x in ("ampPeakPIfit", "dFDFth", "snrPIfit", "dPhiPeakPIfit_rm2"):
                out.check(same(m[x], m0[x], 2e-3), "rm:" + x, lambda: "%s %r was %r for an added RM of %g" % (x, m[x], m0[x], d))
            out.check(angle(m["polAngleFit_deg"], m0["polAngleFit_deg"] + np.degrees(d * lam0)) < 0.1, "rm:angle", lambda: "angle %r was %r for an added RM of %g" % (m["polAngleFit_deg"], m0["polAngleFit_deg"], d))
            out.check(angle(m["polAngle0Fit_deg"], m0["polAngle0Fit_deg"]) < 0.1, "rm:angle0", lambda: "intrinsic angle %r was %r for an added RM of %g" % (m["polAngle0Fit_deg"], m0["polAngle0Fit_deg"], d))
            out.state(d, m["phiPeakPIfit_rm2"])
    out.sig = case["grp"]


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
