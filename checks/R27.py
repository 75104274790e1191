"""R27: single-pixel 1-D synthesis from cubes equals 1-D synthesis of that pixel's spectra."""
import contextlib, io, itertools, json, os, sys, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, cubes
import numpy as np
import matplotlib.figure
import matplotlib.pyplot as plt
from astropy.wcs import WCS
import RMtools_1D.do_RMsynth_1D_fromFITS as F
import RMtools_1D.do_RMsynth_1D as S

PID, LEVEL = "R27", "exploration"
RULE = ("one evaluation = one run of the single-pixel tool; all pixels of a small cube x pixel or sky coordinates x Stokes I use x options are enumerated, every pixel having its own spectrum and its own pattern of missing or zero data; "
        "oracle = 1-D synthesis of the spectra put into that pixel (and an explicit sum for the spectrum without Stokes I); non-trivial = pixel with missing channels")
ASSUMPTIONS = ["three-axis cubes (sky, sky, frequency) of floating-point data, whole pixel numbers; the noise assumed by the tool is 1e-3 in every channel of Q, U and I"]
CHUNK = 4
CASE_TIMEOUT = 300
C = 299792458.0
FREQ = {"even": (1.1e9, 2e7, 10), "low": (2.0e8, 1e6, 12), "neg": (1.5e9, -3e7, 9), "many": (1.1e9, 1e6, 288)}
NX, NY = 4, 3
OPTS = {
    "plain": (), "uniform": ("-w", "uniform"), "grid": ("-l", 300.0, "-d", 13.0), "samples": ("-s", 4.0), "bit64": ("-b",), "super": ("-r",), "fit": ("-t",), "order": ("-o", 1), "dyn": ("-o", -3), "units": ("-U", "K"), "noI": ("-i",),
}
PAT = ["full", "nanQ", "nanU", "zeroQ", "zeroU", "nanI", "inf", "nanall", "zeros", "first", "last", "full"]


def cases(tier):
    big = tier == "thorough"
    for pad in ((7, 0), (60, 31)):  # larger instances: the pixels lie inside a bigger image, more channels
        for I in ("none", "steep"):
            for mode in ("pix", "sky"):
                for p in range(NX * NY):
                    yield dict(f="even", o="plain", I=I, mode=mode, p=p, pad=pad)
    for o in ("plain", "uniform", "samples", "order", "dyn"):
        for I in ("none", "steep"):
            for p in range(NX * NY) if o == "plain" or big else (1, 5):
                yield dict(f="many", o=o, I=I, mode="pix", p=p)
    for f in list(FREQ)[:3]:
        for o in OPTS:
            for I in ("none", "steep", "flat"):
                for mode in ("pix", "sky"):
                    for p in range(NX * NY):
                        if not big and o != "plain" and (p + list(OPTS).index(o)) % 2:
                            continue
                        if not big and (I == "flat" or (f != "even" and mode == "sky" and p % 4) or (f != "even" and o not in ("plain", "grid", "super", "order", "dyn"))):
                            continue
                        yield dict(f=f, o=o, I=I, mode=mode, p=p)
    for mode in ("pix", "sky"):
        for xy in ((0, 1), (NX + 1, 1), (1, 0), (2, NY + 1), (-3, 2), (1, -1)):
            yield dict(f="even", o="plain", I="none", mode=mode, p=-1, xy=xy)
    for p in ("nodata", "noname"):
        yield dict(f="even", o="plain", I="none", mode="pix", p=0, special=p)


def spectra(nu, p):
    """I, Q, U of pixel number p"""
    n = len(nu)
    l2 = (C / nu) ** 2
    i = (5.0 + p) * (nu / nu.mean()) ** -0.7
    P = (0.3 + 0.05 * p) * i * np.exp(2j * (0.2 * p + (p - 5) * (0.3 / np.ptp(l2)) * l2)) + 0.02 * np.cos(np.arange(n) * (1.3 + p))
    q, u = P.real.copy(), P.imag.copy()
    pat = PAT[p]
    k = np.arange(n)
    if pat == "nanQ":
        q[k % 4 == 1] = np.nan
    elif pat == "nanU":
        u[k % 5 == 2] = np.nan
    elif pat == "zeroQ":
        q[:] = 0
    elif pat == "zeroU":
        u[:] = 0
    elif pat == "nanI":
        i[k % 4 == 3] = np.nan
    elif pat == "inf":
        q[2] = np.inf
        u[3] = -np.inf
    elif pat == "nanall":
        i[4] = q[4] = u[4] = np.nan
    elif pat == "zeros":
        q[3] = u[3] = 0
    elif pat == "first":
        q[0] = u[0] = np.nan
    elif pat == "last":
        q[-1] = u[-1] = np.nan
    return i, q, u


def close(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.isnan(a) & np.isnan(b)) | (a == b) | (np.abs(a - b) <= 2e-6 * np.abs(b) + 1e-9 * np.nanmax(np.abs(b), initial=0))))


def run(case, out):
    v0, dv, n = FREQ[case["f"]]
    nu = v0 + dv * np.arange(n)
    cube = np.zeros((3, n, NY, NX))
    for p in range(NX * NY):
        cube[:, :, p // NX, p % NX] = spectra(nu, p)
    sp = case.get("special")
    if sp == "nodata":
        cube[:, :, 0, 0] = 0
    if case["I"] == "flat":
        cube[0] = np.where(np.isnan(cube[0]), np.nan, 4.0)
    ox, oy = case.get("pad", (0, 0))
    cube = np.pad(cube.astype("f4"), [(0, 0), (0, 0), (oy, oy // 2), (ox, ox // 3)], mode="wrap")
    x, y = case.get("xy") or (case["p"] % NX + 1 + ox, case["p"] // NX + 1 + oy)
    save = matplotlib.figure.Figure.savefig
    with mc.scratch("r27") as d:
        kw = dict(freqs=nu, bunit=None if sp == "noname" else "Jy/beam")
        for s, c in zip("IQU", cube):
            cubes.write(s + ".fits", c, "xyf", **kw)
        argv = ["Q.fits", "U.fits"]
        if case["mode"] == "sky":
            h = cubes.read("Q.fits")[1]
            fx, fy = (0.3, -0.35) if (x + y) % 2 else (-0.2, 0.4)
            ra, dec = WCS(h).celestial.all_pix2world([[x + fx, y + fy]], 1)[0]
            argv += ["%.12f" % ra, "%.12f" % dec, "-c"]
        else:
            argv += [x, y]
        argv += list(OPTS[case["o"]]) + ["-S"]
        if case["I"] != "none":
            argv += ["-I", "I.fits"]
        info = lambda: "options %s on pixel %s (%s), channels %s" % (argv, (x, y), PAT[case["p"]], nu)
        out.step()
        out.ev(PAT[case["p"]] not in ("full", "zeros"))
        matplotlib.figure.Figure.savefig = lambda *a, **k: None
        err = None
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                try:
                    cubes.run_main(F, argv)
                except Exception as e:
                    err = e
                out.state(case["f"], case["o"], case["I"], case["mode"], case["p"], case.get("xy") or (), sp or "")
                if case.get("xy") or sp == "nodata":
                    out.sig = "refused"
                    out.check(err is not None and not os.path.exists("Q_RMsynth.json"), "refused", lambda: "a position without data was synthesised; " + info())
                    return
                if not out.check(err is None and os.path.exists("Q_RMsynth.json"), "failed", lambda: "failed: %r; %s" % (err, info())):
                    return
                got = {k: (json.load(open("Q_RMsynth.json")) if k == "json" else np.loadtxt("Q_%s.dat" % k)) for k in ("json", "FDFdirty", "RMSF", "weight")}
                i, q, u = (c[:, y - 1, x - 1].astype("f4") for c in cube)
                q, u = (np.where(np.isfinite(v), v, np.nan) for v in (q, u))
                e = np.full(n, 1e-3)
                data = [nu, i, q, u, e, e, e] if case["I"] != "none" else [nu, q, u, e, e]
                o = OPTS[case["o"]]
                opt = dict(zip(o[::2], o[1::2])) if len(o) > 1 else {o[0]: 1} if o else {}
                m, a = S.run_rmsynth(data=[np.array(t) for t in data], polyOrd=opt.get("-o", 2), phiMax_radm2=opt.get("-l"), dPhi_radm2=opt.get("-d"), nSamples=opt.get("-s", 10), weightType=opt.get("-w", "variance"),
                                     fitRMSF="-t" in opt, noStokesI="-i" in opt, nBits=64 if "-b" in opt else 32, units=opt.get("-U", "Jy/beam"), super_resolution="-r" in opt)
                S.saveOutput(m, a, "ref", False)
                want = {k: (json.load(open("ref_RMsynth.json")) if k == "json" else np.loadtxt("ref_%s.dat" % k)) for k in got}
        finally:
            matplotlib.figure.Figure.savefig = save
            plt.close("all")
    for k in ("FDFdirty", "RMSF", "weight"):
        out.check(got[k].shape == want[k].shape and all(close(x_, y_) for x_, y_ in zip(got[k].T, want[k].T)), k, lambda: "%s: %s expected %s; %s" % (k, got[k], want[k], info()))
    g, w = got["json"], want["json"]
    bad = [k for k in set(g) | set(w) if k not in g or k not in w or not close(g[k], w[k])]
    out.check(not bad, "report", lambda: "%s; %s" % ([(k, g.get(k), w.get(k)) for k in bad], info()))
    if case["I"] == "none" or "-i" in opt:
        ok = ~np.isnan(q + u)
        l2 = (C / nu) ** 2
        wt = ok / 1.0
        l0 = 0.0 if "-r" in opt else np.sum(wt * l2) / wt.sum()
        ph, fq, fu = got["FDFdirty"].T
        ex = (np.exp(-2j * np.outer(ph, l2 - l0)) * np.where(ok, np.nan_to_num(q) + 1j * np.nan_to_num(u), 0)).sum(1) / wt.sum()
        t = (2e-5 + 2e-6 * np.max(np.abs(ph)) * np.ptp(l2)) * np.max(np.abs(ex)) + 1e-9
        if "-r" in opt:
            t += 3e-6 * np.max(np.abs(ph)) * l2.max() * np.max(np.abs(ex))
        out.check(np.all(np.abs(fq + 1j * fu - ex) <= t), "spectrum", lambda: "spectrum differs by %g; %s" % (np.max(np.abs(fq + 1j * fu - ex)), info()))
    out.sig = case["I"]


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
