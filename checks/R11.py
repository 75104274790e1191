"""R11: 3-D synthesis gives every pixel its own Faraday spectrum."""
import itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref, cubes
import numpy as np
import RMtools_3D.do_RMsynth_3D as S3
from RMutils.util_RM import get_rmsf_planes

PID, LEVEL = "R11", "exploration"
RULE = ("one evaluation = one run of rmsynth3d on small cubes; arrangements x image shapes x flag patterns x channel orders x options are "
        "enumerated and every pixel of every product is compared; non-trivial = more than one pixel with differing flags, or options set")
ASSUMPTIONS = ["noise file and Stokes I model together are documented as unsupported", "the 2-D maps' header is only checked for sky axes in first position"]
CHUNK = 4
SHAPES = [(2, 3), (1, 3), (3, 1), (1, 1), (4, 2), (9, 13), (23, 3), (4, 50)]
NCH = 6

OPTS = {
    "def": [], "sep": ["-f"], "grid": ["-l", "100", "-d", "5"], "s": ["-s", "3", "-l", "90"], "sn": ["-s", "2.6", "-l", "90.5"], "t": ["-t", "-l", "120"], "r": ["-r", "-l", "100", "-d", "5"], "R": ["-R", "-l", "60", "-d", "6"],
    "noise": ["-n", "noise.dat", "-w", "variance", "-l", "80"], "noiseu": ["-n", "noise.dat", "-l", "80"], "noisenan": ["-n", "noisenan.dat", "-w", "variance", "-l", "80", "-f"],
    "I": ["-i", "I.fits", "-l", "80", "-d", "4"], "If": ["-i", "I.fits", "-f", "-l", "80", "-d", "4", "-o", "pre_"], "Ir": ["-i", "I.fits", "-r", "-l", "80", "-d", "4"],
    "v": ["-v", "-o", "p.q-", "-l", "50", "-d", "4"],
}


def cases(tier):
    big = tier == "thorough"
    out = []
    for arr in cubes.ARR:
        for sh in range(5):
            if sh == 3 and arr in ("fxy", "fsxy"):
                continue  # the FWHM map cannot be described by the first two axes
            for opt in OPTS:
                for nan in range(8):
                    if not big:
                        # full product only for the common arrangements; every pair of values occurs
                        if arr not in ("xyf", "xyfs") and (nan + len(opt) + sh) % 4:
                            continue
                        if (nan + len(opt) + sh) % 2:
                            continue
                        if sh == 4 and nan % 2:
                            continue
                    for order in ("irr", "desc") if big or opt[0] == "I" else ("irr",) if nan % 2 == 0 else ("desc",):
                        out.append(dict(arr=arr, shape=sh, opt=opt, nan=nan, order=order, ctype=True))
    for opt in ("def", "noise", "noiseu", "noisenan", "I", "t"):  # other flux units
        for nan in (0, 2, 3, 4, 6):
            for unit in (1e-8, 1e6):
                out.append(dict(arr="xyf", shape=0, opt=opt, nan=nan, order="irr", ctype=True, unit=unit))
    for sh in range(5):
        for nan in range(8):
            for arr in ("xyf", "xyfs", "xfy") if big else ("xyf",):
                out.append(dict(arr=arr, shape=sh, opt="t", nan=nan, order="irr", ctype=True))
    for arr in ("xyf", "xyfs"):  # header without CTYPEs: the last axis is frequency
        for opt in ("def", "sep", "I"):
            for nan in (0, 3):
                out.append(dict(arr=arr.replace("fs", "df"), shape=0, opt=opt, nan=nan, order="irr", ctype=False))
    for k, arr in enumerate(cubes.ARR):  # larger instances
        for sh in (5, 6, 7):
            for m, opt in enumerate(("def", "sep", "r", "noise", "noisenan", "I", "If", "Ir", "t", "R")):
                if opt == "t" and sh != 6 or not big and (m + k + sh) % 5:
                    continue
                for nan in (0, 1, 2, 3, 4, 6) if big else ((m + k) % 7,):
                    out.append(dict(arr=arr, shape=sh, opt=opt, nan=nan, order=("irr", "desc")[(m + sh) % 2], ctype=True))
    for n in (40, 41, 150):
        for m, opt in enumerate(("def", "grid", "sn", "r", "noise", "noisenan", "I", "t")):
            for nan in (0, 2, 3, 4, 6) if big else ((0, 2, 3, 4)[(m + n) % 4],):
                if n == 150 and opt == "I":
                    continue
                out.append(dict(arr=cubes.ARR[(m + n) % len(cubes.ARR)], shape=0, opt=opt, nan=nan, order=("irr", "desc")[m % 2], ctype=True, n=n))
    return out


def small(j):
    """of many pixels, the eleventh is nearly like the first again"""
    return j if j < 11 else j % 11 + 0.004 * (j // 11)


def stokes_i(j, f):
    """curved model spectrum of pixel j"""
    sg = -1 if j % 3 == 1 else 1
    j = small(j)
    x = f / 1e9 - 1.1
    return (1.5 + 0.4 * j + (0.7 - 0.2 * j) * x + 2.0 * x**2) * sg  # every third in absorption


def make(case):
    ny, nx = SHAPES[case["shape"]]
    N = case.get("n", NCH)
    f = ref.freqs(case["order"], N)
    l = ref.lamsq(f)
    k = np.arange(ny * nx).reshape(ny, nx)
    P = np.zeros((N, ny, nx), complex)
    I = np.zeros((N, ny, nx))
    for y in range(ny):
        for x in range(nx):
            j = k[y, x]
            I[:, y, x] = stokes_i(j, f)
            j = small(j)
            P[:, y, x] = (0.2 + 0.1 * j) * np.exp(2j * (0.3 * j + (-45 + 17 * j) * l)) + 0.05 * np.exp(2j * 30 * l)
    Q, U = P.real.copy(), P.imag.copy()
    pat = case["nan"]
    flat = lambda a: a.reshape(N, -1)
    npix = ny * nx
    if pat == 1:  # one channel flagged everywhere
        Q[2] = U[2] = np.nan
    elif pat == 2:  # isolated voxels
        for p in range(npix):
            for c in range(N):
                if (c * 3 + p * 5) % 7 == 1:
                    flat(Q)[c, p] = flat(U)[c, p] = np.nan
    elif pat == 3:  # U only / Q only
        for p in range(npix):
            flat(U)[(p + 1) % N, p] = np.nan
            if p % 2:
                flat(Q)[(2 * p + 4) % N, p] = np.nan
    elif pat == 4:  # a whole pixel, and a channel
        flat(Q)[:, npix - 1] = flat(U)[:, npix - 1] = np.nan
        Q[0] = U[0] = np.nan
        if npix == 1:
            return None
    elif pat == 5:  # a whole channel flagged in U alone
        U[3] = np.nan
    elif pat == 7:  # nothing left (an empty piece of a large mosaic)
        Q[:] = U[:] = np.nan
    elif pat == 6:  # first pixel keeps one channel only, others have one flagged each
        flat(Q)[1:, 0] = np.nan
        for p in range(1, npix):
            flat(Q)[p % N, p] = flat(U)[p % N, p] = np.nan
    return f, l, Q, U, I


def run(case, out):
    mk = make(case)
    if mk is None:
        return
    f, l, Q, U, I = mk
    N = len(f)
    unit = case.get("unit", 1.0)
    Q, U, I = (np.float32(x * unit) if x is not I else x * unit for x in (Q, U, I))
    ny, nx = Q.shape[1:]
    arr, opt = case["arr"], case["opt"]
    argv = OPTS[opt]
    info = lambda: "arrangement %s image %dx%d options %s flags %d channels %d %s" % (arr, ny, nx, argv, case["nan"], N, case["order"])
    arg = {a: argv[i + 1] for i, a in enumerate(argv) if a in ("-l", "-d", "-s", "-o", "-w", "-n", "-i")}
    with mc.scratch("r11") as d:
        sub = os.path.join(d, "data.dir")
        os.mkdir(sub)
        cubes.write("%s/Q_cube.fits" % sub, Q, arr, freqs=f, ctype=case["ctype"], stokes=2)
        cubes.write("%s/U_cube.fits" % sub, U, arr, freqs=f, ctype=case["ctype"], stokes=3)
        cubes.write("I.fits", I, arr, freqs=f, ctype=case["ctype"], stokes=1, dtype="f8")
        np.savetxt("freqs.dat", f)
        noise = unit * 0.01 * (1 + (np.arange(N) * 3) % 4)
        np.savetxt("noise.dat", noise)
        nn = noise.copy()
        nn[1] = np.nan
        np.savetxt("noisenan.dat", nn)
        files0 = {p: open(os.path.join(sub, p), "rb").read() for p in os.listdir(sub)}
        rc = cubes.run_main(S3, ["%s/Q_cube.fits" % sub, "%s/U_cube.fits" % sub, "freqs.dat"] + argv)
        out.step()
        out.ev(case["nan"] > 0 or bool(argv))
        if not out.check(rc == "ok", "run", lambda: "the tool failed; " + info()):
            return
        out.check(all(open(os.path.join(sub, p), "rb").read() == b for p, b in files0.items()), "inputs", lambda: "input cube changed; " + info())
        pre = os.path.join(sub, arg.get("-o", ""))
        useI = "-i" in argv
        sr = "-r" in argv
        q, u = (Q / I, U / I) if useI else (Q, U)
        q, u = q.astype(float), u.astype(float)
        w = np.ones(N)
        if arg.get("-w") == "variance":
            w = 1 / (nn if "nan" in arg["-n"] else noise) ** 2
        l_ = l
        fw = 2.0 / (l.max() + l.min()) if sr else 3.8 / (l.max() - l.min())
        dphi = float(arg["-d"]) if "-d" in arg else fw / float(arg.get("-s", 5))
        pm = float(arg["-l"]) if "-l" in arg else max(np.sqrt(3) / np.abs(np.diff(l)).max(), 10 * fw)
        half = int(round(pm / dphi))
        phi = np.arange(-half, half + 1) * dphi
        flagged = (np.isnan(q) | np.isnan(u)).reshape(N, -1)
        wz = ref.clean_weights(w, N)
        G = None
        lam0 = 0.0 if sr else ref.ref_lam0(wz, l, flagged)
        F, _, _ = ref.ref_fdf(q.reshape(N, -1), u.reshape(N, -1), l, phi, wz, lam0)
        if useI:
            f0 = np.mean(f) if sr else ref.C / np.sqrt(lam0)
            o = np.argsort(f)
            If0 = np.array([np.interp(f0, f[o], stokes_i(j, f)[o]) for j in range(ny * nx)])
            exact = np.array([stokes_i(j, f0) for j in range(ny * nx)])
            G = (F * unit * exact).reshape(len(phi), ny, nx)  # the model interpolated smoothly
            F = F * unit * If0
        F = F.reshape(len(phi), ny, nx)
        pk = np.nanmax(np.abs(F)) if np.any(np.isfinite(F)) else 1.0
        sep = "-f" not in argv
        fk = arr.index("f") + 1
        prod = {}
        names = [("FDF_real_dirty.fits", 0), ("FDF_im_dirty.fits", 0), ("FDF_tot_dirty.fits", 0)] if sep else [("FDF_dirty.fits", 0), ("FDF_dirty.fits", 1), ("FDF_dirty.fits", 2)]
        for nm, (fn, ext) in zip(("re", "im", "tot"), names):
            a, h = cubes.read(pre + fn, ext)
            try:
                c = cubes.from_fits_order(a, arr)
            except ValueError as e:
                out.check(False, "layout", lambda: "%s: %s; %s" % (fn, e, info()))
                continue
            prod[nm] = c
            if not out.check(c.shape == F.shape, "shape", lambda: "%s has shape %s, expected %s; %s" % (fn, c.shape, F.shape, info())):
                return
            ax = cubes.axis_values(h, fk, len(phi))
            out.check(h["NAXIS%d" % fk] == len(phi) and np.allclose(ax, phi, rtol=1e-5, atol=1e-3 * dphi), "depth-axis", lambda: "%s: header depths %s..%s, evaluated %s..%s; %s" % (fn, ax[0], ax[-1], phi[0], phi[-1], info()))
            s = cubes.sky_same(h, arr, (ny, nx))
            out.check(s is None, "sky", lambda: "%s: %s; %s" % (fn, s, info()))
            out.check(abs(h["LAMSQ0"] - lam0) <= 1e-5 * max(lam0, 1e-9), "lam0", lambda: "LAMSQ0 %r expected %r; %s" % (h["LAMSQ0"], lam0, info()))
            if "s" in arr and case["ctype"] and nm != "tot":
                k = arr.index("s") + 1
                st = h["CRVAL%d" % k] + (1 - h["CRPIX%d" % k]) * h["CDELT%d" % k]
                out.check("STOKES" in h["CTYPE%d" % k] and st == (2 if nm == "re" else 3), "stokes", lambda: "%s: Stokes axis says %s; %s" % (fn, st, info()))
            out.check("FDEP" in h["CTYPE%d" % fk], "ctype", lambda: "depth axis is called %r; %s" % (h["CTYPE%d" % fk], info()))
        if len(prod) < 3:
            return
        got = prod["re"] + 1j * prod["im"]
        e = ref.maxdiff(got, F)
        if G is not None and e > 3e-4 * pk:
            e = ref.maxdiff(got, G)
        out.check(e <= 3e-4 * pk, "fdf", lambda: "spectra differ by %g of the peak (pixels %s); %s" % (e / pk, [p for p in itertools.product(range(ny), range(nx)) if ref.maxdiff(got[:, p[0], p[1]], F[:, p[0], p[1]]) > 3e-4 * pk], info()))
        e = ref.maxdiff(prod["tot"], np.abs(got))
        out.check(e <= 1e-5 * pk, "tot", lambda: "amplitude is not that of real and imaginary part (%g); %s" % (e, info()))
        out.state(got, case["opt"])
        if "-R" not in argv:
            names = [("RMSF_real.fits", 0), ("RMSF_im.fits", 0), ("RMSF_tot.fits", 0)] if sep else [("RMSF.fits", 0), ("RMSF.fits", 1), ("RMSF.fits", 2)]
            n2 = len(phi) + 2 * int(np.ceil(len(phi) / 2))
            phi2 = (np.arange(n2) - n2 // 2) * dphi
            R, _ = ref.ref_rmsf(flagged, l, phi2, wz, lam0)
            R = R.reshape(n2, ny, nx)
            parts = []
            for fn, ext in names:
                a, h = cubes.read(pre + fn, ext)
                try:
                    parts.append(cubes.from_fits_order(a, arr))
                except ValueError as e2:
                    out.check(False, "layout", lambda: "%s: %s; %s" % (fn, e2, info()))
                    return
                ax = cubes.axis_values(h, fk, n2)
                out.check(parts[-1].shape == R.shape and h["NAXIS%d" % fk] == n2 and np.allclose(ax, phi2, rtol=1e-5, atol=1e-3 * dphi), "rmsf-axis", lambda: "%s: header depths %s..%s (%s), expected %s..%s (%d); %s" % (fn, ax[0], ax[-1], parts[-1].shape, phi2[0], phi2[-1], n2, info()))
                s = cubes.sky_same(h, arr, (ny, nx))
                out.check(s is None, "sky", lambda: "%s: %s; %s" % (fn, s, info()))
            if parts[0].shape == R.shape:
                g = parts[0] + 1j * parts[1]
                live = ~np.all(np.isnan(R), axis=0)
                e = max([ref.maxdiff(g[:, y, x], R[:, y, x]) for y in range(ny) for x in range(nx) if live[y, x]] + [0])
                out.check(e <= 5e-4, "rmsf", lambda: "RMSFs differ by %g; %s" % (e, info()))
                out.check(np.allclose(parts[2], np.abs(g), atol=1e-5, equal_nan=True), "rmsf-tot", lambda: "RMSF amplitude is inconsistent; " + info())
            # the same products without synthesis
            hd, dq = S3.readFitsCube("%s/Q_cube.fits" % sub, False)
            du = S3.readFitsCube("%s/U_cube.fits" % sub, False)[1]
            di = S3.readFitsCube("I.fits", False)[1] if useI else None
            kw = dict(phiMax_radm2=pm, dPhi_radm2=dphi, fitRMSF="-t" in argv, nBits=32, verbose=False, not_rmsynth=True, super_resolution=sr)
            rms = np.loadtxt(arg["-n"]) if "-n" in arg else None
            res = S3.run_rmsynth(dq, du, f, dataI=di, rmsArr=rms, weightType=arg.get("-w", "uniform"), **kw)
            S3.writefits(res, hd, prefixOut="only_", outDir=sub, write_seperate_FDF=sep, not_rmsynth=True, nBits=32, log=lambda *a, **k: None)
            out.step()
            for fn, ext in names + [("RMSF_FWHM.fits", 0) if sep else ("RMSF.fits", 3)]:
                a, b = cubes.read(pre + fn, ext), cubes.read(os.path.join(sub, "only_" + fn), ext)
                fka = [str(b[1].get("C%s%d" % (w_, i))) for w_ in ("TYPE", "RVAL", "RPIX", "DELT") for i in (1, 2, 3, 4)] == [str(a[1].get("C%s%d" % (w_, i))) for w_ in ("TYPE", "RVAL", "RPIX", "DELT") for i in (1, 2, 3, 4)]
                same = a[0].shape == b[0].shape and np.allclose(a[0], b[0], rtol=2e-4, atol=5e-4, equal_nan=True)
                out.check(same and abs(b[1]["LAMSQ0"] - lam0) <= 1e-5 * max(lam0, 1e-9) and fka if "FWHM" not in fn and ext < 3 else same, "only", lambda: "%s differs when only the RMSF is asked for; %s" % (fn, info()))
            out.check(sorted(p for p in os.listdir(sub) if p.startswith("only_")) == sorted({"only_" + n_ for n_, _ in names} | ({"only_RMSF_FWHM.fits"} if sep else set())), "only", lambda: "RMSF-only run wrote %s; %s" % (sorted(p for p in os.listdir(sub) if p.startswith("only_")), info()))
            a, h = cubes.read(pre + ("RMSF_FWHM.fits" if sep else "RMSF.fits"), 0 if sep else 3)
            if arr.startswith("xy"):
                out.check(a.shape == (ny, nx) and h["NAXIS"] == 2, "fwhm-shape", lambda: "FWHM map has shape %s; %s" % (a.shape, info()))
                s = cubes.sky_same(h, arr, (ny, nx))
                out.check(s is None, "sky", lambda: "FWHM map: %s; %s" % (s, info()))
            if a.size == ny * nx and sr and case["order"] == "irr":
                one = [get_rmsf_planes(l, phi, weightArr=wz, mskArr=flagged[:, p].astype(int), lam0Sq_m2=lam0, double=True, fitRMSF=True, fitRMSFreal=True, nBits=32)[2] for p in range(ny * nx)]
                one = np.array([float(np.ravel(x)[0]) for x in one])
                out.check(np.all((np.abs(a.reshape(-1) - one) <= 2e-3 * one) | ~live.reshape(-1)), "fwhm", lambda: "fitted FWHM %s, of the pixels alone %s; %s" % (a.ravel(), one, info()))
            elif a.size == ny * nx and "-t" not in argv and not sr:
                out.check(np.allclose(a.ravel(), 3.8 / (l.max() - l.min()), rtol=1e-5), "fwhm", lambda: "FWHM %s expected %g; %s" % (a.ravel(), 3.8 / (l.max() - l.min()), info()))
            elif a.size == ny * nx and "-t" in argv:
                fx = 3.8 / (l.max() - l.min())
                if case["order"] == "irr":
                    one = [get_rmsf_planes(l, phi, weightArr=wz, mskArr=flagged[:, p].astype(int), lam0Sq_m2=lam0, double=True, fitRMSF=True, nBits=32)[2] for p in range(ny * nx)]
                    one = np.array([float(np.ravel(x)[0]) for x in one])
                    out.check(np.all((np.abs(a.reshape(-1) - one) <= 2e-3 * one) | ~live.reshape(-1)), "fwhm", lambda: "fitted FWHM %s, of the pixels alone %s; %s" % (a.ravel(), one, info()))
                out.check(N > NCH or np.all((a > 0.3 * fx) & (a < 3 * fx) | ~live), "fwhm", lambda: "fitted FWHM %s, analytic %g; %s" % (a.ravel(), fx, info()))
        for fn, want in (("FDF_maxPI.fits", np.max(np.abs(got), axis=0)), ("FDF_peakRM.fits", None)):
            a, h = cubes.read(pre + fn)
            if not out.check(a.size == ny * nx, "peakmap-shape", lambda: "%s has shape %s; %s" % (fn, a.shape, info())):
                continue
            m = a.reshape(-1)
            if arr in ("xfy", "fxy", "fsxy"):  # the collapsed array keeps numpy's order of the remaining axes
                pass
            A = np.abs(got).reshape(len(phi), -1)
            for p in range(ny * nx):
                if np.isnan(A[0, p]):
                    out.check(np.isnan(m[p]), "peakmap", lambda: "%s pixel %d is %r for an undefined spectrum; %s" % (fn, p, m[p], info()))
                elif want is not None:
                    out.check(abs(m[p] - A[:, p].max()) < 1e-5 * pk, "peakmap", lambda: "%s pixel %d %r, spectrum peaks at %r; %s" % (fn, p, m[p], A[:, p].max(), info()))
                else:
                    i = int(np.argmin(np.abs(phi - m[p])))
                    out.check(abs(phi[i] - m[p]) < 0.01 * dphi and A[i, p] >= A[:, p].max() * (1 - 1e-5), "peakmap", lambda: "%s pixel %d %r, spectrum peaks at %r; %s" % (fn, p, m[p], phi[A[:, p].argmax()], info()))
        out.sig = case["opt"] + str(case["nan"])


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
