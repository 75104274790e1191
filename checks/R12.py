"""R12: 3-D deconvolution gives every pixel its own clean spectrum."""
import itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref, cubes
import numpy as np
import RMtools_3D.do_RMsynth_3D as S3
import RMtools_3D.do_RMclean_3D as C3
from RMutils.util_RM import do_rmclean_hogbom

PID, LEVEL = "R12", "exploration"
RULE = ("one evaluation = one run of rmclean3d on the products of a synthesis; arrangements x image shapes x options x naming schemes are enumerated, "
        "every pixel of every product is compared with the deconvolution of that pixel alone; non-trivial = at least two pixels needed different numbers of iterations, or names/options are special")
ASSUMPTIONS = ["the oracle deconvolves one pixel at a time with the in-memory routine, which R03 compares with a reference machine",
               "the layout of the iteration map is only checked when the image axes come first"]
CHUNK = 4
SHAPES = [(2, 3), (1, 3), (3, 1), (1, 1), (3, 2), (9, 13), (40, 3)]
NCH = 6
OPT = {
    "def": ["-c", "0.1"], "none": ["-c", "100"], "mid": ["-c", "0.45", "-g", "0.3"], "lim": ["-c", "0.02", "-n", "7"], "win2": ["-c", "0.3", "-w", "0.28", "-n", "300"], "win": ["-c", "0.3", "-w", "0.05", "-n", "300"],
    "f": ["-c", "0.1", "-f"], "o": ["-c", "0.1", "-o", "c_real."], "of": ["-c", "0.2", "-o", "p_tot", "-f", "-v"], "ser": ["-c", "0.1", "--chunk", "2"], "par": ["-c", "0.1", "--ncores", "2", "--chunk", "3"], "one": [], "deep": ["-c", "0.002", "-g", "0.01", "-n", "1500"],
}
DIRS = ["d", "x_real", "im_tot.d", "_im", "a_image.fits", "FDF_tot_dirty"]
PRE = ["", "s_", "y_real_", "a_im", "_tot", "b.im_"]


def cases(tier):
    big = tier == "thorough"
    out = []
    for arr in cubes.ARR:
        for sh in range(5):
            if sh == 3 and arr in ("fxy", "fsxy"):
                continue
            for opt in OPT:
                for syn in ("", "t") if big or arr in ("xyf", "xyfs") else ("",):
                    if not big and opt not in ("def", "win", "win2", "f", "mid") and (len(arr) + sh + len(opt)) % 2:
                        continue
                    if opt == "par" and not (big and sh < 2 or arr == "xyf" and sh == 0):
                        continue
                    out.append(dict(kind="lay", arr=arr, shape=sh, opt=opt, syn=syn, dir=0, pre=0, comp=(sh + len(opt)) % 3))
    for unit in (2.0 ** -27, 2.0 ** 20):
        for arr in ("xyf", "fxy", "xsyf") if "xsyf" in cubes.ARR else ("xyf", "fxy"):
            for opt in ("def", "mid", "win", "win2", "lim", "f", "ser"):
                for sh in (0, 4) if big else (0,):
                    out.append(dict(kind="lay", arr=arr, shape=sh, opt=opt, syn="", dir=0, pre=0, comp=len(opt) % 3, unit=unit))
    for arr in ("xyf", "xyfs") if big else ("xyf",):
        for d in range(len(DIRS)):
            for p in range(len(PRE)):
                for comp in range(3):
                    for opt in ("def", "of") if big else ("def",) if (d + p) % 2 else ("of",):
                        out.append(dict(kind="name", arr=arr, shape=0, opt=opt, syn="", dir=d, pre=p, comp=comp))
    for k, arr in enumerate(cubes.ARR):  # larger instances
        for sh in (5, 6):
            for m, opt in enumerate(("def", "mid", "lim", "win2", "f", "ser", "par")):
                if opt == "par" and arr != "xyf" or not big and (m + k + sh) % 3:
                    continue
                out.append(dict(kind="lay", arr=arr, shape=sh, opt=opt, syn="", dir=0, pre=0, comp=m % 3))
    for k, arr in enumerate(cubes.ARR):
        out.append(dict(kind="lay", arr=arr, shape=(0, 4)[k % 2], opt="deep", syn="", dir=0, pre=0, comp=k % 3))
        for sh in (0, 2, 4):
            for opt in ("def", "mid", "win2"):
                if big or arr == "xyf" or (sh + len(opt)) % 4 == k % 4:
                    out.append(dict(kind="api", arr=arr, shape=sh, opt=opt, syn="", dir=0, pre=0, comp=0))
    for n in (40, 100):
        for m, opt in enumerate(("def", "mid", "lim", "win2")):
            out.append(dict(kind="lay", arr=cubes.ARR[(m + n) % len(cubes.ARR)], shape=0, opt=opt, syn="", dir=0, pre=0, comp=m % 3, n=n))
    return out


def small(j):
    return j if j < 11 else j % 11 + 0.004 * (j // 11)


def make(case):
    ny, nx = SHAPES[case["shape"]]
    N = case.get("n", NCH)
    f = ref.freqs("irr", N)
    l = ref.lamsq(f)
    P = np.zeros((N, ny, nx), complex)
    for y in range(ny):
        for x in range(nx):
            odd = (y * nx + x) % 2
            j = small(y * nx + x)
            P[:, y, x] = (0.2 + 0.13 * j) * np.exp(2j * (0.3 * j + (-45 + 17 * j) * l)) + (0.15 if odd else 0) * np.exp(2j * 30 * l)
    npix = ny * nx
    flat = P.reshape(N, -1)
    for p in range(npix):
        if p % 3 == 1:
            flat[p % N, p] = np.nan
        if p == 5 or p == 2 and npix == 3:
            flat[:, p] = np.nan
    return f, l, P * case.get("unit", 1.0)


def run(case, out):
    f, l, P = make(case)
    ny, nx = P.shape[1:]
    arr, argv = case["arr"], OPT[case["opt"]]
    if "unit" in case:
        argv = [repr(float(a) * case["unit"]) if i and argv[i - 1] in ("-c", "-w") else a for i, a in enumerate(argv)]
    info = lambda: "arrangement %s image %dx%d options %s directory %r prefix %r" % (arr, ny, nx, argv, DIRS[case["dir"]], PRE[case["pre"]])
    val = {a: argv[i + 1] for i, a in enumerate(argv) if a in ("-c", "-w", "-n", "-g", "-o")}
    comps = ("real", "im", "tot")
    with mc.scratch("r12") as d:
        sub = os.path.join(d, DIRS[case["dir"]])
        os.mkdir(sub)
        pre = PRE[case["pre"]]
        cubes.write(sub + "/Q.fits", P.real, arr, freqs=f, stokes=2)
        cubes.write(sub + "/U.fits", P.imag, arr, freqs=f, stokes=3)
        np.savetxt("freqs.dat", f)
        synth = [sub + "/Q.fits", sub + "/U.fits", "freqs.dat", "-l", "100", "-d", "10", "-o", pre] + (["-t"] if case["syn"] else [])
        if not out.check(cubes.run_main(S3, synth) == "ok", "synth", lambda: "synthesis failed; " + info()):
            return
        base = sub + "/" + pre
        rd = lambda n, e=0: cubes.from_fits_order(cubes.read(base + n, e)[0], arr)
        dirty = rd("FDF_real_dirty.fits") + 1j * rd("FDF_im_dirty.fits")
        rmsf = rd("RMSF_real.fits") + 1j * rd("RMSF_im.fits")
        fwhm = cubes.read(base + "RMSF_FWHM.fits")[0].reshape(ny, nx)
        n = dirty.shape[0]
        phi = cubes.axis_values(cubes.read(base + "FDF_real_dirty.fits")[1], arr.index("f") + 1)
        phi2 = cubes.axis_values(cubes.read(base + "RMSF_real.fits")[1], arr.index("f") + 1)
        before = {p: open(os.path.join(sub, p), "rb").read() for p in os.listdir(sub)}
        c1, c2 = comps[case["comp"]], comps[(case["comp"] + 1 + case["shape"]) % 3]
        ok = cubes.run_main(C3, [base + "FDF_%s_dirty.fits" % c1, base + "RMSF_%s.fits" % c2] + argv)
        out.step()
        if not out.check(ok == "ok", "run", lambda: "rmclean3d failed; " + info()):
            return
        out.check(all(open(os.path.join(sub, p), "rb").read() == b for p, b in before.items()), "inputs", lambda: "input changed; " + info())
        o = os.path.join(sub, val.get("-o", ""))
        sep = "-f" not in argv
        clean, cc, nit = np.full(dirty.shape, np.nan, complex), np.zeros(dirty.shape, complex), np.zeros((ny, nx), int)
        for y in range(ny):
            for x in range(nx):
                r = do_rmclean_hogbom(dirty[:, y, x], phi, rmsf[:, y, x], phi2, fwhm[y, x], cutoff=float(val.get("-c", 1)), maxIter=int(val.get("-n", 1000)),
                                      gain=float(val.get("-g", 0.1)), window=float(val.get("-w", "nan")))
                clean[:, y, x], cc[:, y, x], nit[y, x] = r[0], r[1], int(r[2])
        pk = np.nanmax(np.abs(dirty))
        if case["kind"] == "api":
            return run_api(case, out, info, base, dirty, clean, cc, nit, val, rmsf, phi, phi2, fwhm, arr)
        hd = cubes.read(base + "FDF_real_dirty.fits")[1]
        for what, want in (("clean", clean), ("CC", cc)):
            got, hs = [], []
            try:
                for i, c in enumerate(("real", "im", "tot")):
                    a, h = cubes.read(o + ("FDF_%s_%s.fits" % (what, c) if sep else "FDF_%s.fits" % what), 0 if sep else i)
                    hs.append(h)
                    got.append(cubes.from_fits_order(a, arr))
            except (ValueError, OSError) as e:
                out.fail("layout", "%s cube: %s; %s" % (what, e, info()))
                continue
            for h in hs:
                s = cubes.sky_same(h, arr, (ny, nx))
                out.check(s is None, "sky", lambda: "%s cube: %s; %s" % (what, s, info()))
                k = arr.index("f") + 1
                out.check(all(h[q % k] == hd[q % k] for q in ("NAXIS%d", "CRVAL%d", "CDELT%d", "CRPIX%d", "CTYPE%d")) and h.get("LAMSQ0") == hd["LAMSQ0"], "depth-axis", lambda: "%s cube: depth axis or LAMSQ0 differ from the dirty cube; %s" % (what, info()))
            if not out.check(got[0].shape == want.shape, "shape", lambda: "%s cube has shape %s expected %s; %s" % (what, got[0].shape, want.shape, info())):
                continue
            g = got[0] + 1j * got[1]
            # a tie between channels within float32 rounding may be broken either way: compare the reconstruction only there
            e = ref.maxdiff(g, want)
            out.check(e <= 2e-4 * pk, what, lambda: "%s spectra differ by %g of the peak at pixels %s; %s" % (what, e / pk, [(y, x) for y in range(ny) for x in range(nx) if ref.maxdiff(g[:, y, x], want[:, y, x]) > 2e-4 * pk], info()))
            out.check(ref.maxdiff(got[2], np.abs(g)) <= 1e-5 * pk, "tot", lambda: "%s amplitude is inconsistent; %s" % (what, info()))
            out.state(g)
        a, h = cubes.read(o + "CLEAN_nIter.fits")
        if arr.startswith("xy"):
            if out.check(a.shape[-2:] == (ny, nx) and a.size == ny * nx, "niter-shape", lambda: "iteration map has shape %s for %dx%d; %s" % (a.shape, ny, nx, info())):
                b = a.reshape(ny, nx)
                out.check(np.array_equal(b, nit), "niter", lambda: "iteration map %s expected %s; %s" % (b.tolist(), nit.tolist(), info()))
                s = cubes.sky_same(h, arr, (ny, nx))
                out.check(s is None, "sky", lambda: "iteration map: %s; %s" % (s, info()))
        else:
            out.check(a.size == ny * nx and sorted(a.ravel()) == sorted(nit.ravel()), "niter", lambda: "iteration map %s expected %s; %s" % (a.ravel().tolist(), nit.ravel().tolist(), info()))
        out.ev(len(set(nit.ravel())) > 1 or case["kind"] == "name")
        out.sig = case["opt"] + str(sorted(set(nit.ravel() > 0)))


def run_api(case, out, info, base, dirty, clean, cc, nit, val, rmsf, phi, phi2, fwhm, arr):
    """the arrays returned by run_rmclean are the cubes in the order of the file, the residual among them"""
    r = C3.run_rmclean(base + "FDF_tot_dirty.fits", base + "RMSF_tot.fits", float(val.get("-c", 1)), maxIter=int(val.get("-n", 1000)), gain=float(val.get("-g", 0.1)), window=float(val.get("-w", "nan")), verbose=False)
    resid = np.full(dirty.shape, np.nan, complex)
    for y, x in np.ndindex(dirty.shape[1:]):
        resid[:, y, x] = do_rmclean_hogbom(dirty[:, y, x], phi, rmsf[:, y, x], phi2, fwhm[y, x], cutoff=float(val.get("-c", 1)), maxIter=int(val.get("-n", 1000)),
                                           gain=float(val.get("-g", 0.1)), window=float(val.get("-w", "nan")))[3]
    pk = np.nanmax(np.abs(dirty))
    for what, got, want in (("clean", r[0], clean), ("CC", r[1], cc), ("residual", r[3], resid)):
        try:
            g = cubes.from_fits_order(got, arr)
        except ValueError as e:
            out.fail("layout", "returned %s: %s; %s" % (what, e, info()))
            continue
        if out.check(g.shape == want.shape, "shape", lambda: "returned %s has shape %s expected %s; %s" % (what, g.shape, want.shape, info())):
            out.check(ref.maxdiff(g, want) <= 2e-4 * pk, what, lambda: "returned %s differs by %g; %s" % (what, ref.maxdiff(g, want) / pk, info()))
    out.check(np.size(r[2]) == nit.size and np.array_equal(np.ravel(r[2]), nit.ravel() if arr.index("y") > arr.index("x") else nit.T.ravel()), "niter", lambda: "returned iterations %s; %s" % (r[2], info()))
    out.ev(True)
    out.sig = "api"


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
