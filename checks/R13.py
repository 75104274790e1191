"""R13: peak maps agree with single-spectrum measurement at each pixel."""
import itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref, cubes
import numpy as np
import RMtools_3D.do_RMsynth_3D as S3
import RMtools_3D.do_RMclean_3D as C3
import RMtools_3D.RMpeakfit_3D as PF
from R05 import measure, diff

PID, LEVEL = "R13", "exploration"
RULE = ("one evaluation = one run of rmtools_peakfitcube; arrangements x image shapes x dirty/clean cubes x option sets x naming schemes are enumerated and every pixel "
        "of every map is compared with the reference measurement of that pixel's spectrum; non-trivial = more than one pixel")
ASSUMPTIONS = ["values whose decision (peak channel, S/N threshold) is within float32 rounding of a tie are not compared", "the maps' shape and header are only checked when the image axes come first"]
CHUNK = 4
SHAPES = [(2, 3), (1, 3), (3, 1), (1, 1), (4, 2), (9, 13), (40, 3)]
NCH = 7
OPT = {
    "def": [], "a": ["-a"], "p": ["-p"], "n": ["-a", "-n", "noise.dat"], "nn": ["-a", "-n", "noisenan.dat"], "nv": ["-n", "noisenan.dat", "-w", "variance", "-a", "-v"],
    "i": ["-a", "-i", "I.fits"], "in": ["-i", "I.fits", "-n", "noise.dat", "-a"], "inv": ["-i", "I.fits", "-n", "noise.dat", "-w", "variance", "-a"],
}
ALL = "dFDFcorMAD phiPeakPIfit_rm2 dPhiPeakPIfit_rm2 ampPeakPIfit ampPeakPIfitEff dAmpPeakPIfit snrPIfit indxPeakPIfit peakFDFimagFit peakFDFrealFit polAngleFit_deg dPolAngleFit_deg polAngle0Fit_deg dPolAngle0Fit_deg Ifreq0 dFDFth lam0Sq_m2 freq0_Hz fwhmRMSF min_freq max_freq N_channels median_channel_width fracPol".split()
PEAK = "dFDFcorMAD phiPeakPIfit_rm2 dPhiPeakPIfit_rm2 ampPeakPIfitEff dAmpPeakPIfit snrPIfit polAngle0Fit_deg dPolAngle0Fit_deg".split()
DEF = "dFDFcorMAD phiPeakPIfit_rm2 dPhiPeakPIfit_rm2 ampPeakPIfitEff dAmpPeakPIfit snrPIfit peakFDFimagFit peakFDFrealFit Ifreq0 lam0Sq_m2 polAngle0Fit_deg dPolAngle0Fit_deg".split()
UNIT = {"phiPeakPIfit_rm2": "rad/m^2", "dPhiPeakPIfit_rm2": "rad/m^2", "polAngleFit_deg": "deg", "polAngle0Fit_deg": "deg", "lam0Sq_m2": "m^2", "freq0_Hz": "Hz", "snrPIfit": "", "fracPol": ""}
DIRS = ["d", "x_real", "im_tot.d", "FDF_tot_dirty"]
PRE = ["", "y_real_", "a_im", "b.im_", "FDF_clean_tot", "FDF_tot_dirty_", "FDF_clean_real."]
SUF = ["", "_v2", ".im.tot"]  # added to the names of all products


def cases(tier):
    big = tier == "thorough"
    out = []
    for arr in cubes.ARR:
        for sh in range(5):
            if sh == 3 and arr in ("fxy", "fsxy"):
                continue
            for i, opt in enumerate(OPT):
                for j, cube in enumerate(("dirty", "clean", "super", "fit")):
                    if not big and (i + j + sh + len(arr)) % (2 if arr.startswith("xyf") else 4):
                        continue
                    for order in ("irr", "desc") if big else ("irr", "desc")[(i + sh) % 2:][:1]:
                        out.append(dict(kind="lay", arr=arr, shape=sh, opt=opt, cube=cube, order=order, dir=0, pre=0, comp=(i + j + sh) % 3, out=(i + sh) % 3))
    for unit in (2.0 ** -27, 2.0 ** 20):
        for i, opt in enumerate(("a", "n", "nv", "i", "in", "inv")):
            for j, cube in enumerate(("dirty", "clean")):
                for arr in ("xyf", "fxy") if big else (("xyf", "fxy")[(i + j) % 2],):
                    out.append(dict(kind="lay", arr=arr, shape=0, opt=opt, cube=cube, order="irr", dir=0, pre=0, comp=0, out=0, unit=unit))
    for arr in ("xyf", "xyfs") if big else ("xyf",):
        for d in range(len(DIRS)):
            for p in range(len(PRE)):
                for cube in ("dirty", "clean"):
                    for comp in range(3):
                        out.append(dict(kind="name", arr=arr, shape=0, opt="def", cube=cube, order="irr", dir=d, pre=p, comp=comp, out=(d + p) % 3))
    for s in (1, 2):
        for cube in ("dirty", "clean"):
            for comp in range(3):
                for p in (0, 1, 4) if cube == "dirty" else (0, 1):
                    out.append(dict(kind="name", arr="xyf", shape=0, opt="def", cube=cube, order="irr", dir=p % 3, pre=p, comp=comp, out=s, suf=s))
    for k, arr in enumerate(cubes.ARR):  # larger instances
        for sh in (5, 6):
            for m, opt in enumerate(("def", "a", "n", "nv", "i", "inv")):
                cube = ("dirty", "clean", "super", "fit")[(m + k) % 4]
                if cube == "fit" or not big and (m + k + sh) % 3:
                    continue
                out.append(dict(kind="lay", arr=arr, shape=sh, opt=opt, cube=cube, order=("irr", "desc")[m % 2], dir=0, pre=0, comp=m % 3, out=0))
    for n in (40, 100):
        for m, opt in enumerate(("def", "a", "n", "nv", "i", "inv")):
            if "i" in opt and n == 100:
                continue
            for cube in ("dirty", "clean"):
                out.append(dict(kind="lay", arr=cubes.ARR[(m + n) % len(cubes.ARR)], shape=0, opt=opt, cube=cube, order=("irr", "desc")[m % 2], dir=0, pre=0, comp=m % 3, out=0, n=n))
    return out


def small(j):
    return j if j < 11 else j % 11 + 0.004 * (j // 11)


def make(case):
    ny, nx = SHAPES[case["shape"]]
    N = case.get("n", NCH)
    f = ref.freqs(case["order"], N)
    l = ref.lamsq(f)
    P, I = np.zeros((N, ny, nx), complex), np.zeros((N, ny, nx))
    for y in range(ny):
        for x in range(nx):
            odd = (y * nx + x) % 2
            j = small(y * nx + x)
            P[:, y, x] = (0.2 + 0.13 * j) * np.exp(2j * (0.3 * j + (-45 + 15 * j) * l)) + (0.15 if odd else 0) * np.exp(2j * 30 * l) + 0.03 * np.cos(7 * np.arange(N) + j)
            I[:, y, x] = 1.5 + 0.4 * j + (0.7 - 0.2 * j) * (f / 1e9 - 1.1)
    npix = ny * nx
    flat = P.reshape(N, -1)
    for p in range(npix):
        if p % 3 == 1:
            flat[p % N, p] = np.nan
        if p == 5 or p == 2 and npix == 3:
            flat[:, p] = np.nan
    return f, l, P, I


def run(case, out):
    unit = case.get("unit", 1.0)  # of all fluxes
    f, l, P, I = make(case)
    N = len(f)
    P, I = P * unit, I * unit
    ny, nx = P.shape[1:]
    arr, argv = case["arr"], OPT[case["opt"]]
    info = lambda: "arrangement %s image %dx%d %s cube, options %s, channels %s, directory %r prefix %r" % (arr, ny, nx, case["cube"], argv, case["order"], DIRS[case["dir"]], PRE[case["pre"]])
    with mc.scratch("r13") as d:
        sub = os.path.join(d, DIRS[case["dir"]])
        os.mkdir(sub)
        pre = PRE[case["pre"]]
        cubes.write(sub + "/Q.fits", P.real, arr, freqs=f, stokes=2)
        cubes.write(sub + "/U.fits", P.imag, arr, freqs=f, stokes=3)
        cubes.write("I.fits", I, arr, freqs=f, stokes=1, dtype="f8")
        np.savetxt("freqs.dat", f)
        noise = unit * 0.01 * (1 + (np.arange(N) * 3) % 4)
        np.savetxt("noise.dat", noise)
        nn = noise.copy()
        nn[1] = np.nan
        np.savetxt("noisenan.dat", nn)
        synth = [sub + "/Q.fits", sub + "/U.fits", "freqs.dat", "-l", "150", "-d", "10", "-o", pre] + {"super": ["-r"], "fit": ["-t"]}.get(case["cube"], [])
        if not out.check(cubes.run_main(S3, synth) == "ok", "synth", lambda: "synthesis failed; " + info()):
            return
        base = sub + "/" + pre
        what = "FDF_%s_dirty.fits"
        if case["cube"] == "clean":
            if not out.check(cubes.run_main(C3, [base + "FDF_tot_dirty.fits", base + "RMSF_tot.fits", "-c", repr(0.05 * unit), "-o", pre]) == "ok", "clean", lambda: "cleaning failed; " + info()):
                return
            what = "FDF_clean_%s.fits"
        rd = lambda n: cubes.from_fits_order(cubes.read(base + n)[0], arr)
        F = rd(what % "real") + 1j * rd(what % "im")
        fwhm = cubes.read(base + "RMSF_FWHM.fits")[0].reshape(ny, nx)
        hd = cubes.read(base + what % "real")[1]
        phi = cubes.axis_values(hd, arr.index("f") + 1)
        lam0 = hd["LAMSQ0"]
        suf = SUF[case.get("suf", 0)] + ".fits"
        if suf != ".fits":
            for p in os.listdir(sub):
                os.rename(os.path.join(sub, p), os.path.join(sub, p[:-5] + suf))
        before = {p: open(os.path.join(sub, p), "rb").read() for p in os.listdir(sub)}
        o = ("maps_", "./new.d/m_", d + "/abs_")[case["out"]]
        ok = cubes.run_main(PF, [base + (what % ("real", "im", "tot")[case["comp"]])[:-5] + suf, "freqs.dat", o] + argv)
        out.step()
        out.ev(ny * nx > 1)
        if not out.check(ok == "ok", "run", lambda: "peak fit failed; " + info()):
            return
        out.check(all(open(os.path.join(sub, p), "rb").read() == b for p, b in before.items()), "inputs", lambda: "input changed; " + info())
        want_products = ALL if "-a" in argv else PEAK if "-p" in argv else DEF
        maps = {}
        for p in want_products:
            if not out.check(os.path.exists(o + p + ".fits"), "products", lambda: "map %s is missing; %s" % (p, info())):
                continue
            a, h = cubes.read(o + p + ".fits")
            if arr.startswith("xy"):
                if not out.check(a.shape == (ny, nx) and h["NAXIS"] == 2, "shape", lambda: "map %s has shape %s; %s" % (p, a.shape, info())):
                    continue
                s = cubes.sky_same(h, arr, (ny, nx))
                out.check(s is None, "sky", lambda: "map %s: %s; %s" % (p, s, info()))
            elif not out.check(a.size == ny * nx, "shape", lambda: "map %s has shape %s; %s" % (p, a.shape, info())):
                continue
            maps[p] = a.reshape(ny, nx)
            if p in UNIT:
                out.check(h.get("BUNIT", "") == UNIT[p], "unit", lambda: "map %s has unit %r; %s" % (p, h.get("BUNIT"), info()))
        # expectation
        f0 = ref.C / np.sqrt(lam0) if lam0 > 0 else np.mean(f)
        useI, useN = "-i" in argv, "-n" in argv
        w = np.ones(N)
        if useN:
            nz = nn if "noisenan.dat" in argv else noise
            w = np.where(np.isnan(nz), 0, 1 / nz**2 if "variance" in argv else 1.0)
            th = np.sqrt(np.sum(w**2 * np.nan_to_num(nz) ** 2)) / np.sum(w)
        for y in range(ny):
            for x in range(nx):
                j = small(y * nx + x)
                A = np.abs(F[:, y, x])
                if np.isnan(A).all():
                    for p in maps:
                        out.check(np.isnan(maps[p][y, x]), "undefined", lambda: "map %s is %r where the spectrum is undefined; %s" % (p, maps[p][y, x], info()))
                    continue
                I0 = 1.5 + 0.4 * j + (0.7 - 0.2 * j) * (f0 / 1e9 - 1.1) if useI else 1.0
                if useI:
                    I0 *= unit
                dF = th * I0 if useN else None
                inner = A[1:-1]
                top = np.where(inner >= inner.max() * (1 - 1e-5))[0] + 1
                if len(top) > 1:
                    continue
                r = measure(F[:, y, x], phi, fwhm[y, x], dF, l, lam0, 5.0, int(top[0]))
                if r is None or abs(r["snrPIfit"] - 5) < 1e-3:
                    continue
                k2 = {}
                for p in maps:
                    k2[p] = float(maps[p][y, x])
                bad = []
                for p in maps:
                    v = k2[p]
                    if p in r:
                        b = float(r[p])
                        if "Angle" in p and not p.startswith("d"):
                            dd = abs(v - b) % 180
                            okv = np.isnan(v) and np.isnan(b) or min(dd, 180 - dd) < 0.02 and -1e-3 <= v <= 180.001 or r["_pol"] < 1e-4 * unit
                        elif p == "snrPIfit" and not r["_inside"]:
                            okv = True
                        else:
                            sc = {"phiPeakPIfit_rm2": 10, "indxPeakPIfit": 1, "peakFDFimagFit": A.max(), "peakFDFrealFit": A.max()}.get(p, abs(b))
                            okv = np.isnan(v) and np.isnan(b) or abs(v - b) <= 5e-4 * sc + 1e-9 * min(1.0, unit)
                    else:
                        b = {"Ifreq0": I0, "dFDFth": dF if useN else np.nan, "lam0Sq_m2": lam0, "freq0_Hz": f0, "fwhmRMSF": fwhm[y, x], "min_freq": f.min(), "max_freq": f.max(), "N_channels": N,
                             "median_channel_width": abs(np.median(np.diff(f))), "fracPol": r["ampPeakPIfit"] / I0}[p]
                        v = abs(v) if p == "median_channel_width" else v
                        okv = np.isnan(v) and np.isnan(b) or abs(v - b) <= 5e-4 * abs(b)
                    if not okv:
                        bad.append("%s=%r (expected %r)" % (p, k2[p], b))
                out.check(not bad, "value", lambda: "pixel y=%d x=%d: %s; %s" % (y, x, "; ".join(bad), info()))
        out.state(*[maps[p] for p in sorted(maps)])
        out.sig = case["opt"] + case["cube"]


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
