"""R16: Stokes I cube fit agrees with the single-spectrum fit at each pixel."""
import multiprocessing, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref, cubes
import numpy as np
from astropy.io import fits as pf
import RMtools_3D.do_fitIcube as IC
from RMutils.util_misc import fit_StokesI_model, calculate_StokesI_model

PID, LEVEL = "R16", "exploration"
RULE = ("one evaluation = one run of rmtools_fitIcube; axis arrangements x image shapes x NaN patterns x orders x families x masks x frequency sources are enumerated, every pixel of every "
        "product is compared with the 1-D fit of that pixel's spectrum; non-trivial = more than one pixel and some voxel flagged")
ASSUMPTIONS = ["a serial stand-in replaces the process pool except in the cases that name a number of workers",
               "voxels within rounding of the mask threshold are not compared", "images of a single pixel have no noise estimate: only completion is checked",
               "cubes whose image axes are not the first two are refused by the tool and not explored"]
CHUNK = 2
NEEDS_CHILDREN = True
CASE_TIMEOUT = 240
ARRS = ["xyf", "xyfs", "xysf", "xyfd", "xydf"]
SHAPES = [(2, 3), (1, 5), (5, 1), (3, 4), (1, 1), (9, 13), (30, 5)]
NCH = 9


class SerialPool:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    terminate = join = close

    def map(self, f, it, chunksize=None):
        return [f(x) for x in it]

    def imap(self, f, it, chunksize=None):
        return iter([f(x) for x in it])

    def starmap(self, f, it, chunksize=None):
        return [f(*x) for x in it]


REALPOOL = multiprocessing.Pool


def cases(tier):
    big = tier == "thorough"
    out = []

    def add(**k):
        c = dict(arr="xyf", shape=0, nan="some", order=2, ff="log", thr=None, freq="head", order_f="reg", bunit=True, workers=0, bitpix=-32, out=0)
        c.update(k)
        out.append(c)

    for arr in ARRS:
        for sh in range(5):
            for k, (nan, order, ff) in enumerate([("none", 2, "log"), ("some", 1, "linear"), ("some", -3, "log"), ("plane", 2, "log"), ("pix", 0, "log"), ("pix", 3, "linear"), ("few", 4, "log"), ("few", -2, "linear")]):
                if not big and (k + sh + len(arr)) % 2 and arr != "xyf":
                    continue
                add(arr=arr, shape=sh, nan=nan, order=order, ff=ff, thr=[None, -3.0, 1.6][(k + sh) % 3], order_f=["reg", "desc"][k % 2], out=k % 3)
    for order in range(-5, 6):
        for ff in ("log", "linear"):
            for thr in (None, -3.0, -1.0, 1.2, 1.6) if big else (None, -2.0):
                add(order=order, ff=ff, thr=thr, shape=3, nan="some")
    for nan in ("none", "some", "plane", "pix", "few"):
        for freq in ("head", "file", "fileirr"):
            for bp in (-32, -64, 16):
                if bp == 16 and (nan != "none" or freq == "fileirr"):
                    continue
                add(nan=nan, freq=freq, bitpix=bp, shape=3, order=1)
    for thr in (-8.0, -5.0, -3.0, -1.0, 0.5, 1.2, 1.6, 2.5, 50.0):
        for nan in ("none", "pix", "plane"):
            add(thr=thr, shape=3, nan=nan, order=1, arr="xyfs")
    for thr in (None, -3.0, -1.0, 1.2):
        for sh in (0, 3):
            for ff, order in (("linear", 1), ("linear", -2)):
                add(nan="hole", thr=thr, shape=sh, ff=ff, order=order)
    for unit in (1e-8, 3e6):  # of all fluxes
        for thr in (None, -3.0, 1.2):
            for nan in ("some", "plane", "hole"):
                add(unit=unit, thr=thr, nan=nan, order=1, ff="linear", shape=3)
                add(unit=unit, thr=thr, nan=nan if nan != "hole" else "pix", order=2, ff="log", shape=0)
                if big:
                    add(unit=unit, thr=thr, nan=nan, order=-3, ff="linear", arr="xyfs")
    add(bunit=False)
    add(bunit=False, arr="xysf", thr=-3.0)
    for w in (1, 2, 3) if big else (2,):
        for v in (0, 1):
            add(workers=w, verbose=v, nan="pix", shape=0, thr=-3.0 if w == 2 else None)
    for k, arr in enumerate(ARRS):  # larger instances
        for sh in (5, 6):
            for m, (nan, order, ff) in enumerate([("none", 2, "log"), ("some", 1, "linear"), ("plane", 2, "linear"), ("pix", -1, "log")]):
                if big or (k + sh) % 4 == m:
                    add(arr=arr, shape=sh, nan=nan, order=order, ff=ff, thr=[None, -3.0, 1.6][(k + sh) % 3])
    for n in (60, 150):
        for m, (nan, order, ff) in enumerate([("none", 2, "log"), ("some", 1, "linear"), ("plane", 2, "linear"), ("pix", -1, "log"), ("some", 4, "log")]):
            add(n=n, nan=nan, order=order, ff=ff, thr=(None, -3.0)[m % 2])
    return out


def make(case):
    ny, nx = SHAPES[case["shape"]]
    N = case.get("n", NCH)
    f = (ref.freqs("reg", N) if N == NCH else np.linspace(0.8e9, 1.6e9, N))[:: -1 if case["order_f"] == "desc" else 1].copy()
    if case["freq"] == "fileirr":
        f = ref.freqs("irr", N)
    I = np.zeros((N, ny, nx))
    x = f / 1.15e9
    for y in range(ny):
        for i in range(nx):
            j = y * nx + i
            amp = [2.0, 0.03, 1.0, 3.5, 0.4, 1.5, 0.02, 0.8, 2.5, 0.05, 1.2, 0.3][j % 12]
            I[:, y, i] = amp * x ** (-0.7 + 0.3 * (j % 4)) * 10 ** (0.4 * (j % 3 - 1) * np.log10(x) ** 2) + 0.05 * np.cos(2.1 * np.arange(N) * (1 + 0.37 * j) + 1.3 * j) + 0.003 * j
    nan = case["nan"]
    flat = I.reshape(N, -1)
    npix = flat.shape[1]
    if nan == "some":
        for j in range(npix):
            flat[(3 * j) % N, j] = np.nan
    elif nan == "plane":
        flat[3] = np.nan
        flat[0, 0] = np.nan
    elif nan == "pix":
        flat[:, 1 % npix] = np.nan
        flat[4, 0] = np.nan
    elif nan == "hole":  # deep absorption
        flat[2:5, 0] = -4.0
        flat[:, -1] *= -1
    elif nan == "few":
        flat[3:, 2 % npix] = np.nan
        flat[1:, 0] = np.nan
    return f, I


def noise2(I, thr):
    """two passes of the MAD per plane, and the planes' sky level"""
    rms, med = [], []
    for p in I:
        p = p[np.isfinite(p)]
        if not len(p):
            rms.append(np.nan), med.append(np.nan)
            continue
        mad = lambda a: np.median(np.abs(a - np.median(a))) / 0.6745 if len(a) else np.nan
        sky = p[p < thr] if thr > 0 else p[p != 0]
        if not len(sky):
            rms.append(np.nan), med.append(np.nan)
            continue
        r, m = mad(sky), np.median(sky)
        sky = p[p < m + 3 * r]
        med.append(np.median(sky) if len(sky) else np.nan)
        rms.append(mad(sky))
    return np.array(rms), np.array(med)


def run(case, out):
    f, I = make(case)
    N = len(f)
    ny, nx = I.shape[1:]
    arr, ff, order = case["arr"], case["ff"], case["order"]
    thr, unit = case["thr"], case.get("unit", 1.0)
    I = I * unit
    if thr is not None and thr > 0:
        thr *= unit
    tiny = min(1.0, unit)
    info = lambda: "arrangement %s image %dx%d NaN %s order %d %s threshold %s frequencies %s/%s bitpix %d unit %g" % (arr, ny, nx, case["nan"], order, ff, thr, case["freq"], case["order_f"], case["bitpix"], unit)
    multiprocessing.Pool = REALPOOL if case["workers"] else SerialPool
    with mc.scratch("r16") as d:
        dt = {-32: "f4", -64: "f8", 16: "i2"}[case["bitpix"]]
        os.mkdir("in")
        cubes.write("in/I.fits", I, arr, freqs=f, stokes=1, dtype=dt if dt != "i2" else "f4", bunit="Jy/beam" if case["bunit"] else None)
        if dt == "i2":
            with pf.open("in/I.fits", mode="update", memmap=False) as hd:
                hd[0].scale("int16", bscale=0.001, bzero=0.5)
        I = cubes.from_fits_order(cubes.read("in/I.fits")[0], arr)
        raw = open("in/I.fits", "rb").read()
        argv = ["in/I.fits", "-p", order, "-f", ff]
        where, pre = [("in", ""), ("o", ""), ("o", "pre_")][case["out"]]
        if where == "o":
            os.mkdir("o")
            argv += ["-odir", "o"]
        if pre:
            argv += ["-o", pre]
        if thr is not None:
            argv += ["-m", "-t", thr]
        if case["freq"] != "head":
            np.savetxt("f.dat", f)
            argv += ["-freqFile", "f.dat"]
        if case["workers"]:
            argv += ["-n", case["workers"], "-c", 2] + (["-v"] if case.get("verbose") else [])
        fl = f.copy()
        try:
            got = cubes.run_main(IC, argv)
        finally:
            multiprocessing.Pool = REALPOOL
        out.step()
        out.ev(ny * nx > 1 and case["nan"] != "none")
        base = os.path.join(where, pre)
        k = abs(order)
        names = ["coeff%d%s.fits" % (i, e) for i in range(k + 1) for e in ("", "err")] + ["reffreq.fits", "covariance.fits", "mask.fits", "model.i.fits", "noise.dat"]
        miss = [n for n in names if not os.path.exists(base + n)]
        if not out.check(got == "ok" and not miss, "products", lambda: "missing %s (%s); %s" % (miss, got, info())):
            return
        out.check(open("in/I.fits", "rb").read() == raw, "input", lambda: "input cube changed; " + info())
        if ny * nx == 1:
            out.sig = "single"
            return
        rms = np.loadtxt(base + "noise.dat")
        wr, med = noise2(I, thr if thr is not None else -3)
        out.check(rms.shape == (N,) and np.allclose(rms, wr, rtol=1e-4, atol=1e-7 * unit, equal_nan=True), "noise", lambda: "noise %s, two passes of the MAD give %s; %s" % (rms, wr, info()))
        # mask
        if thr is None:
            det, unsure = np.ones((ny, nx), bool), np.zeros((ny, nx), bool)
        else:
            lev = np.full(N, thr) if thr > 0 else med - thr * wr
            up, dn = lev * (1 + 1e-5) + 1e-6 * unit, lev * (1 - 1e-5) - 1e-6 * unit
            det = (I > up[:, None, None]).any(0)
            unsure = (I > dn[:, None, None]).any(0) != det
        m, hm = cubes.read(base + "mask.fits")
        out.check(m.shape == (ny, nx), "maskshape", lambda: "mask shape %s; %s" % (m.shape, info()))
        if m.shape == (ny, nx):
            out.check(np.array_equal(np.isfinite(m)[~unsure], det[~unsure]), "mask", lambda: "mask\n%s\nexpected\n%s; %s" % (m, det, info()))
        C = [cubes.read(base + "coeff%d.fits" % i) for i in range(k + 1)]
        E = [cubes.read(base + "coeff%derr.fits" % i) for i in range(k + 1)]
        R = cubes.read(base + "reffreq.fits")
        V, hv = cubes.read(base + "covariance.fits")
        M, hM = cubes.read(base + "model.i.fits")
        for nm, (a, h) in [("coeff%d" % i, c) for i, c in enumerate(C)] + [("coeff%derr" % i, c) for i, c in enumerate(E)] + [("reffreq", R)]:
            if not out.check(a.shape == (ny, nx), "shape", lambda: "%s has shape %s; %s" % (nm, a.shape, info())):
                return
            s = cubes.sky_same(h, arr, (ny, nx))
            out.check(s is None, "mapheader", lambda: "%s: %s; %s" % (nm, s, info()))
        if not out.check(V.shape == (6, 6, ny, nx) and M.squeeze().reshape(-1).size == N * ny * nx and M.shape[-2:] == (ny, nx), "shape", lambda: "covariance %s model %s; %s" % (V.shape, M.shape, info())):
            return
        M = M.reshape(N, ny, nx)
        s = cubes.sky_same(hM, arr, (ny, nx))
        out.check(s is None, "cubeheader", lambda: "model cube: %s; %s" % (s, info()))
        fa = [i for i in range(1, hM["NAXIS"] + 1) if "FREQ" in str(hM.get("CTYPE%d" % i)).upper()]
        if out.check(len(fa) == 1 and hM["NAXIS%d" % fa[0]] == N, "cubefreq", lambda: "model cube has no frequency axis of %d channels (%s); %s" % (N, [hM.get("CTYPE%d" % i) for i in range(1, hM["NAXIS"] + 1)], info())) and case["freq"] != "fileirr":
            out.check(np.allclose(cubes.axis_values(hM, fa[0]), f, rtol=1e-9), "cubefreq", lambda: "model cube frequencies %s; %s" % (cubes.axis_values(hM, fa[0]), info()))
        for y in range(ny):
            for x in range(nx):
                if unsure[y, x]:
                    continue
                c = np.array([a[y, x] for a, _ in C])
                e = np.array([a[y, x] for a, _ in E])
                v = V[:, :, y, x]
                rf, mod = R[0][y, x], M[:, y, x]
                tag = lambda: "pixel (%d,%d); %s" % (y, x, info())
                if not det[y, x]:
                    out.check(np.isnan(c).all() and np.isnan(e).all() and np.isnan(rf) and np.isnan(mod).all() and np.isnan(v).all(), "masked", lambda: "masked pixel has values %s %s %s; %s" % (c, rf, mod, tag()))
                    continue
                w = fit_StokesI_model(fl, I[:, y, x].copy(), rms.copy(), order, ff)
                wc, we, wv = w.params[5 - np.arange(k + 1)], np.asarray(w.perror, float)[5 - np.arange(k + 1)], np.asarray(w.pcov, float)
                with np.errstate(all="ignore"):
                    wm = calculate_StokesI_model(w, fl)
                    # fits that a rounding error of the data changes are not comparable
                    w2 = fit_StokesI_model(fl, I[:, y, x] * (1 + 1e-6 * np.cos(np.arange(N))), rms * (1 + 1e-6), order, ff)
                    wm2 = calculate_StokesI_model(w2, fl)
                if not np.allclose(wm, wm2, rtol=1e-4, atol=1e-8 * unit, equal_nan=True) or np.isinf(wm).any():
                    continue
                tol = 1e-4 * np.abs(wc) + 0.02 * we + 1e-6 * tiny
                okfit = int(np.isfinite(I[:, y, x] * rms).sum()) > int(w.polyOrd) + 1
                if okfit or np.all(wm == wm):
                    out.check(np.allclose(mod, wm, rtol=2e-4, atol=1e-5 * np.nanmax(np.abs(wm)), equal_nan=True), "model", lambda: "model %s, fit of the spectrum gives %s; %s" % (mod, wm, tag()))
                    out.check(np.allclose(rf, w.reference_frequency_Hz, rtol=1e-5, equal_nan=True), "reffreq", lambda: "reference frequency %r, expected %r; %s" % (rf, w.reference_frequency_Hz, tag()))
                if okfit:
                    out.check(np.all(np.abs(c - wc) <= tol), "coeff", lambda: "coefficients %s, expected %s; %s" % (c, wc, tag()))
                    out.check(np.allclose(e, we, rtol=0.02, atol=1e-6 * tiny), "error", lambda: "errors %s, expected %s; %s" % (e, we, tag()))
                    sg = np.sqrt(np.abs(np.diag(wv)))
                    out.check(np.all(np.abs(v - wv) <= 0.03 * np.outer(sg, sg) + 1e-5 * np.abs(wv) + 1e-9 * tiny**2), "covar", lambda: "covariance\n%s\nexpected\n%s; %s" % (v, wv, tag()))
                out.state(wc, order)
        out.sig = (ff, order, int(det.sum()))


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
