"""R26: simulated test data obey the laws stated for the source list."""
import contextlib, io, itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, cubes
import numpy as np
from astropy.io import fits as pf
from astropy.wcs import WCS
import RMtools_1D.mk_test_ascii_data as A
import RMtools_3D.mk_test_cube_data as B
import RMutils.util_misc as U
from RMutils.util_testing import Faraday_thin_complex_polarization

PID, LEVEL = "R26", "exploration"
RULE = ("one evaluation = one source list (all ordered lists of up to 3 components over the parameter alphabet) for one frequency layout through the spectrum generators, or one run of a data tool for one combination of catalogue "
        "layout, flagged ranges, reference frequency, noise mode / field; oracle = closed expression of the components; non-trivial = more than one component or flagged channels")
ASSUMPTIONS = ["noise, when requested, is only compared with bounds (8 sigma); the cube tool is configured through its module variables, which its help asks users to edit", "at least two channels; columns are read in the order documented in catalogue.csv (fraction, angle, depth, dispersion)"]
CHUNK = 20
CASE_TIMEOUT = 300
C = 299792458.0
# fraction, angle (deg), depth, dispersion
COMP = [(0.5, 0.0, 0.0, 0.0), (0.7, 30.0, 40.0, 0.0), (0.2, -120.0, -7.5, 3.0), (1.0, 91.0, 1e-3, 12.0), (0.05, 17.0, -150.0, 0.5), (0.3, 45.0, 20.0, 20.0)]
FREQ = {
    "low": np.linspace(7e8, 1.8e9, 12),
    "desc": np.linspace(1.4e9, 1.1e9, 7),
    "two": np.array([1.0e9, 2.5e9]),
    "nan": np.where(np.arange(9) % 4 == 2, np.nan, np.linspace(9e8, 1.1e9, 9)),
    "irregular": np.array([4e9, 1.1e9, 1.5e8, 8e8, 1.10001e9]),
    "nan first": np.where(np.arange(6) == 0, np.nan, np.linspace(9e8, 1.1e9, 6)),
}
FLAGS = ["", "0.8e9,1.05e9", "0.95e9,1.05e9,1.3e9,1.5e9", "0.1e9,0.2e9", "1e9,1e9", "0.6e9,0.75e9"]
CATS = ["plain", "comments", "spaces", "mixed"]


def lists(n):
    for k in range(1, n + 1):
        yield from itertools.product(range(len(COMP)), repeat=k)


def cases(tier):
    big = tier == "thorough"
    for f in FREQ:
        for l in lists(3 if not big else 5):
            if len(l) == 3 and not big and f in ("two", "desc"):
                continue
            yield dict(k="law", f=f, l="".join(map(str, l)))
    for cat in CATS:
        for fl in range(len(FLAGS)):
            for f0 in (0, 1000.0):
                for n in ("0", "template0", "0.3", "template"):
                    for rng in ((700.0, 1800.0, 12), (1000.0, 1100.0, 2), (1800.0, 700.0, 12)):
                        yield dict(k="ascii", cat=cat, fl=fl, f0=f0, n=n, rng=rng)
    for fl in range(len(FLAGS)):  # larger instances
        for n in ("0", "template"):
            yield dict(k="ascii", cat="plain", fl=fl, f0=0, n=n, rng=(700.0, 1800.0, 300), many=1)
    for beam in ((1.5, 2.5, 20.0), (3.0, 9.0, -60.0)):
        yield dict(k="cube", sy="EQU", cent=(150.0, 52.0), beam=beam, npx=(90, 75), fl=2, n="0", nch=100)
        yield dict(k="cube", sy="GAL", cent=(90.0, 0.0), beam=beam, npx=(130, 7), fl=5, n="template", nch=41)
    for sy in ("GAL", "EQU"):
        for cent in ((90.0, 0.0), (150.0, 52.0), (10.0, -35.0)):
            if sy == "GAL" and cent[1]:
                continue
            for beam in ((1.5, 2.5, 20.0), (2.0, 2.0, 0.0), (1.0, 3.0, -60.0), (1.2, 4.0, 90.0)):
                for npx in ((20, 16), (9, 13)):
                    for fl in (0, 2, 5) if not big else range(len(FLAGS)):
                        for n in ("0", "0.3") if not big else ("0", "template0", "0.3", "template"):
                            yield dict(k="cube", sy=sy, cent=cent, beam=beam, npx=npx, fl=fl, n=n)


def law(nu, comps, model):
    """complex fractional polarisation of the documented models; comps rows: fraction, angle in degrees, depth, dispersion"""
    l2 = (C / nu) ** 2
    out = np.zeros(len(nu), complex)
    if model == 1:
        for p, a, r, s in comps:
            out += p * np.exp(2j * (np.deg2rad(a) + r * l2)) * np.exp(-2 * s**2 * l2**2)
        return out
    for i, c in enumerate(comps):  # layer i is seen through all later layers
        p, a, r = c[:3]
        x = r * l2
        with np.errstate(invalid="ignore", divide="ignore"):
            sinc = np.where(np.abs(x) < 1e-12, 1.0, np.sin(x) / x)
        sinc = np.where(np.isnan(x), np.nan, sinc)
        fg = sum(k[2] for k in comps[i + 1:])
        out += p * sinc * np.exp(2j * (np.deg2rad(a) + 0.5 * x + fg * l2))
    return out


def same(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(np.isnan(a), np.isnan(b)) and bool(np.all(np.isnan(a) | (np.abs(a - b) <= tol)))


def run(case, out):
    {"law": run_law, "ascii": run_ascii, "cube": run_cube}[case["k"]](case, out)


def run_law(case, out):
    nu = FREQ[case["f"]]
    comps = [COMP[int(c)] for c in case["l"]]
    p, a, r, s = (np.array(x) for x in zip(*comps))
    info = lambda: "components %s at %s" % (comps, nu)
    arg = lambda: (nu.copy(), p.copy(), a.copy(), r.copy())
    flux, si, f0 = 3.0, -0.8, 1.25e9
    I = flux * (nu / f0) ** si
    I1 = flux * (nu / nu[0]) ** si
    for model, fn, big, extra in ((1, U.create_pqu_spectra_burn, U.create_IQU_spectra_burn, (s.copy(),)), (2, U.create_pqu_spectra_diff, U.create_IQU_spectra_diff, ())):
        want = law(nu, comps, model)
        args = arg() + extra
        keep = [x.copy() for x in args]
        pp, q, u = fn(*args)
        out.step()
        out.ev(len(comps) > 1)
        out.check(same(q, want.real) and same(u, want.imag) and same(pp, np.abs(want)), "law", lambda: "model %d: %s expected %s; %s" % (model, q + 1j * u, want, info()))
        out.check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(args, keep)), "input changed", lambda: "model %d changed its arguments; %s" % (model, info()))
        for f, II in ((f0, I), (None, I1)):
            ar = arg()
            i, q, u = big(ar[0], flux, si, *ar[1:], *extra, freq0_Hz=f)
            out.check(same(i, II, 1e-8) and same(q, II * want.real, 1e-8) and same(u, II * want.imag, 1e-8), "stokes", lambda: "model %d, reference %s: I %s Q %s U %s expected %s %s; %s" % (model, f, i, q, u, II, II * want, info()))
    want = law(nu, [c[:3] + (0.0,) for c in comps], 1)
    pp, q, u = U.create_pqu_spectra_burn(*arg())
    out.check(same(q, want.real) and same(u, want.imag), "no dispersion", lambda: "%s expected %s; %s" % (q + 1j * u, want, info()))
    if len(comps) == 1:
        pp, q, u = U.create_pqu_spectra_RMthin(nu.copy(), *comps[0][:3])
        out.check(same(q, want.real) and same(u, want.imag) and np.all(np.abs(pp[np.isfinite(nu)] - comps[0][0]) < 1e-12), "thin", lambda: "%s expected %s; %s" % (q + 1j * u, want, info()))
        i, q, u = U.create_IQU_spectra_RMthin(nu.copy(), flux, si, *comps[0][:3], freq0_Hz=f0)
        out.check(same(i, I, 1e-8) and same(q, I * want.real, 1e-8) and same(u, I * want.imag, 1e-8), "thin", lambda: "I %s; %s" % (i, info()))
        t = Faraday_thin_complex_polarization(nu.copy(), comps[0][2], comps[0][0], comps[0][1])
        out.check(same(t, want), "thin", lambda: "testing helper: %s expected %s; %s" % (t, want, info()))
    else:  # removing all but the last component leaves the last
        q, u = want.real.copy(), want.imag.copy()
        for c in comps[:-1]:
            pp, q, u = U.create_pqu_resid_RMthin(q, u, nu.copy(), *c[:3])
        last = law(nu, [comps[-1][:3] + (0.0,)], 1)
        out.check(same(q, last.real) and same(u, last.imag) and same(pp, np.abs(last)), "residual", lambda: "%s expected %s; %s" % (q + 1j * u, last, info()))
    out.state("law", case["f"], case["l"])
    out.sig = "law"


# ---------------------------------------------------------------- catalogues
def entries(lon, lat):
    """(type, lon, lat, flux, index, components)"""
    return [
        (1, lon[0], lat[0], 10.0, -0.7, [COMP[1]]),
        (1, lon[1], lat[1], 4.0, 0.0, [COMP[2], COMP[5]]),
        (3, lon[1], lat[0], 9.0, 0.0, [COMP[0]]),  # unknown type: skipped
        (2, lon[2], lat[2], 6.0, 1.1, [COMP[4][:3], COMP[1][:3], COMP[2][:3]]),
        (2, lon[0], lat[1], 1.0, -2.0, [COMP[5][:3]]),
    ]


def catalogue(ents, style):
    sep = {"plain": ",", "comments": ", ", "spaces": "  ,   ", "mixed": ",\t"}[style]
    L = []
    for e in ents:
        vals = ["%.17g" % v for v in [e[0], e[1], e[2], 0.0, 0.0, 0.0, e[3], e[4]] + [x for c in e[5] for x in c]]
        L.append(sep.join(vals))
    if style == "comments":
        L = ["# a, b, c", ""] + [x + "   # flux 5, 3" for x in L[:2]] + ["   ", "#"] + L[2:]
    if style == "mixed":
        L = ["  " + x + "  " for x in L]
    return "\n".join(L) + ("" if style == "spaces" else "\n")


def noise_setup(n, nu):
    """arguments (rms, template or None, relative noise per channel)"""
    if not n.startswith("template"):
        return float(n), None, np.ones(len(nu))
    xp = np.array([9e8, 1.1e9, 1.2e9, 1.6e9, 1.7e9])
    yp = np.array([4.0, 6.0, 40.0, 3.0, 3.5])  # median 4, mean 11.3
    f = np.interp(nu, xp, yp)
    f = np.where(nu < xp[0], yp[0] + (nu - xp[0]) * 2 / 2e8, f)
    f = np.where(nu > xp[-1], yp[-1] + (nu - xp[-1]) * 0.5 / 1e8, f)
    return (0.0 if n == "template0" else 0.3), np.array([xp, yp]), f / 4.0  # divided by the median


def flagged(nu, fl):
    v = [float(x) for x in FLAGS[fl].split(",")] if FLAGS[fl] else []
    m = np.zeros(len(nu), bool)
    for a, b in zip(v[::2], v[1::2]):
        m |= (nu >= a) & (nu <= b)
    return m


def run_ascii(case, out):
    f1, f2, nch = case["rng"]
    nu = np.linspace(f1 * 1e6, f2 * 1e6, nch)
    bad = flagged(nu, case["fl"])
    ents = entries((10.0, 20.0, 30.0), (0.0, 1.0, 2.0)) * (7 if "many" in case else 1)
    rms, tmpl, rel = noise_setup(case["n"], nu)
    np.random.seed(3)
    with mc.scratch("r26") as d:
        with open("cat.csv", "w") as f:
            f.write(catalogue(ents, case["cat"]))
        argv = ["cat.csv", "deep/dir", "-f", f1, f2, "-c", nch, "-n", rms]
        if case["f0"]:
            argv += ["-f0", case["f0"]]
        if tmpl is not None:
            np.savetxt("noise.txt", tmpl.T)
            argv += ["-t", "noise.txt"]
        if FLAGS[case["fl"]]:
            argv += ["-l", FLAGS[case["fl"]]]
        with contextlib.redirect_stdout(io.StringIO()):
            r = cubes.run_main(A, argv)
        files = sorted(os.listdir("deep/dir")) if os.path.isdir("deep/dir") else []
        got = {f: np.loadtxt(os.path.join("deep/dir", f), ndmin=2) for f in files}
    out.step()
    out.ev(bad.any())
    info = lambda: "options %s, catalogue style %s" % (argv, case["cat"])
    if not out.check(r == "ok" and files == sorted("Source%d.dat" % (i + 1) for i, e in enumerate(ents) if e[0] != 3), "files", lambda: "%s, files %s; %s" % (r, files, info())):
        return
    f0 = case["f0"] * 1e6 if case["f0"] else nu[0]
    nun = np.where(bad, np.nan, nu)
    for i, e in enumerate(ents):
        if e[0] == 3:
            continue
        g = got["Source%d.dat" % (i + 1)].T
        if not out.check(g.shape == (7, nch), "columns", lambda: "%s columns; %s" % (g.shape, info())):
            continue
        I = e[3] * (nun / f0) ** e[4]
        P = I * law(nun, e[5], e[0])
        out.check(same(g[0], nun, 1e-3), "frequencies", lambda: "%s expected %s; %s" % (g[0], nun, info()))
        tol = 1e-9 if rms == 0 else 8 * rms * rel
        for nm, a, b in (("I", g[1], I), ("Q", g[2], P.real), ("U", g[3], P.imag)):
            ok = np.array_equal(np.isnan(a), bad) and bool(np.all(np.isnan(a) | (np.abs(a - b) <= tol)))
            out.check(ok, "values", lambda: "entry %d Stokes %s: %s expected %s; %s" % (i + 1, nm, a, b, info()))
            if rms:
                out.check(bool(np.any(np.abs((a - b)[~bad]) > 1e-4 * rms)) or bad.all(), "noise", lambda: "entry %d Stokes %s has no noise; %s" % (i + 1, nm, info()))
        for k in (4, 5, 6):
            e_ = np.where(bad, np.nan if tmpl is not None else g[k], g[k])
            ref = rms * rel
            ok = np.all(np.isnan(g[k]) | (np.abs(g[k] - ref) <= 0.4 * np.abs(ref))) and not np.any(np.isnan(g[k][~bad]))
            out.check(bool(ok), "errors", lambda: "entry %d errors %s expected about %s; %s" % (i + 1, g[k], ref, info()))
    out.state("ascii", case["cat"], case["fl"], case["f0"], case["n"], tuple(case["rng"]))
    out.sig = "ascii"


CUBEVARS = ("startFreq_Hz", "endFreq_Hz", "nChans", "beamMinFWHM_deg", "beamMajFWHM_deg", "beamPA_deg", "pixScale_deg", "nPixX", "nPixY", "coordSys", "xCent_deg", "yCent_deg", "rmsNoise", "freq0_Hz")


def run_cube(case, out):
    nch = case.get("nch", 5)
    nu = np.linspace(7e8, 1.8e9, nch)
    bad = flagged(nu, case["fl"])
    nx, ny = case["npx"]
    lon0, lat0 = case["cent"]
    bmin, bmaj, bpa = case["beam"]
    pix = 0.5
    h = pf.Header()
    h["NAXIS"], h["NAXIS1"], h["NAXIS2"] = 2, nx, ny
    for k, t, v, n in ((1, "RA---SIN" if case["sy"] == "EQU" else "GLON-CAR", lon0, nx), (2, "DEC--SIN" if case["sy"] == "EQU" else "GLAT-CAR", lat0, ny)):
        h["CTYPE%d" % k], h["CRVAL%d" % k], h["CRPIX%d" % k], h["CDELT%d" % k], h["CUNIT%d" % k] = t, v, n / 2.0 + 0.5, pix / 3600, "deg"
    w = WCS(h)
    cd = np.cos(np.deg2rad(lat0))
    off = [(-2.0, 1.0), (3.25, -1.5), (0.0, 0.0)]  # arcsec on the sky
    lon = [lon0 + o[0] / 3600 / cd for o in off]
    lat = [lat0 + o[1] / 3600 for o in off]
    ents = entries(lon, lat)
    rms, tmpl, rel = noise_setup(case["n"], nu)
    save = {k: getattr(B, k) for k in CUBEVARS}
    new = dict(startFreq_Hz=7e8, endFreq_Hz=1.8e9, nChans=nch, beamMinFWHM_deg=bmin / 3600, beamMajFWHM_deg=bmaj / 3600, beamPA_deg=bpa, pixScale_deg=pix / 3600, nPixX=nx, nPixY=ny,
               coordSys=case["sy"], xCent_deg=lon0, yCent_deg=lat0, rmsNoise=rms, freq0_Hz=7e8)
    np.random.seed(5)
    with mc.scratch("r26") as d:
        with open("cat.csv", "w") as f:
            f.write(catalogue(ents, "plain"))
        argv = ["cat.csv", "deep/dir"]
        if tmpl is not None:
            np.savetxt("noise.txt", tmpl.T)
            argv += ["-n", "noise.txt"]
        if FLAGS[case["fl"]]:
            argv += ["-f", FLAGS[case["fl"]]]
        for k, v in new.items():
            setattr(B, k, v)
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                r = cubes.run_main(B, argv)
        finally:
            for k, v in save.items():
                setattr(B, k, v)
        files = sorted(os.listdir("deep/dir")) if os.path.isdir("deep/dir") else []
        info = lambda: "options %s, settings %s" % (argv, new)
        out.step()
        out.ev(bad.any())
        if not out.check(r == "ok" and files == ["StokesI.fits", "StokesQ.fits", "StokesU.fits", "freqs_Hz.dat"], "files", lambda: "%s, files %s; %s" % (r, files, info())):
            return
        fr = np.loadtxt("deep/dir/freqs_Hz.dat", ndmin=1)
        data = {s: cubes.read("deep/dir/Stokes%s.fits" % s) for s in "IQU"}
    out.check(same(fr, nu, 1e-3), "frequencies", lambda: "%s expected %s; %s" % (fr, nu, info()))
    nun = np.where(bad, np.nan, nu)
    want = {s: np.zeros((nch, ny, nx)) for s in "IQU"}
    X, Y = np.meshgrid(np.arange(nx), np.arange(ny))
    g = 2 * np.sqrt(2 * np.log(2)) * pix
    smin, smaj = bmin / g, bmaj / g
    pa = np.deg2rad(bpa)
    for e in ents:
        if e[0] == 3:
            continue
        (x0, y0), = w.wcs_world2pix([(e[1], e[2])], 0)
        dx, dy = X - x0, Y - y0
        along = dx * np.sin(pa) + dy * np.cos(pa)  # longitude increases with x, so the position angle turns from north to increasing x
        across = dx * np.cos(pa) - dy * np.sin(pa)
        shape = np.exp(-0.5 * ((along / smaj) ** 2 + (across / smin) ** 2))
        I = e[3] * (nun / 7e8) ** e[4]
        P = I * law(nun, e[5], e[0])
        for s, v in (("I", I), ("Q", P.real), ("U", P.imag)):
            want[s] += v[:, None, None] * shape
    for k, s in enumerate("IQU"):
        got, hd = data[s]
        if not out.check(got.shape == (1, nch, ny, nx), "shape", lambda: "Stokes %s shape %s; %s" % (s, got.shape, info())):
            continue
        got = got[0]
        tol = 2e-5 + 8 * rms * rel[:, None, None] + 0 * got
        ok = np.array_equal(np.isnan(got), np.isnan(want[s])) and bool(np.all(np.isnan(got) | (np.abs(got - want[s]) <= tol)))
        out.check(ok, "values", lambda: "Stokes %s differs by up to %g; %s" % (s, np.nanmax(np.abs(got - want[s])), info()))
        if rms:
            out.check(bool(0.5 * rms < np.nanstd((got - want[s]) / rel[:, None, None]) < 1.5 * rms) or bad.all(), "noise", lambda: "the noise of Stokes %s has another level; %s" % (s, info()))
        ax = cubes.axis_values(hd, 3)
        out.check(hd["CTYPE3"].strip() == "FREQ" and np.allclose(ax, nu, rtol=1e-9) and hd["CRVAL4"] == k + 1, "axes", lambda: "Stokes %s: frequencies %s, Stokes value %s; %s" % (s, ax, hd["CRVAL4"], info()))
        wo = WCS(hd).celestial if WCS(hd).has_celestial else None
        if out.check(wo is not None, "sky", lambda: "no sky coordinates in the header of Stokes %s: %s, %s; %s" % (s, hd["CTYPE1"], hd["CTYPE2"], info())):
            a, b = wo.wcs_pix2world([[0, 0], [nx - 1, 2], [3, ny - 1]], 0), w.wcs_pix2world([[0, 0], [nx - 1, 2], [3, ny - 1]], 0)
            out.check(np.allclose(a, b, atol=1e-8), "sky", lambda: "pixel coordinates %s expected %s; %s" % (a, b, info()))
        out.check(abs(hd["BMAJ"] * 3600 - bmaj) < 1e-6 and abs(hd["BMIN"] * 3600 - bmin) < 1e-6 and abs(hd["BPA"] - bpa) < 1e-6, "beam", lambda: "beam %s %s %s; %s" % (hd["BMAJ"], hd["BMIN"], hd["BPA"], info()))
    out.state("cube", case["sy"], tuple(case["cent"]), tuple(case["beam"]), tuple(case["npx"]), case["fl"], case["n"])
    out.sig = "cube"


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
