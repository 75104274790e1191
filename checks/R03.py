"""R03: RM-CLEAN compared, run by run, with a reference Hogbom transition system plus conservation invariants."""
import gc, itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref
import numpy as np
from RMutils.util_RM import do_rmclean_hogbom
from RMtools_1D.do_RMclean_1D import run_rmclean as run_rmclean_1D

gc.collect(); gc.freeze()

PID, LEVEL = "R03", "model_checking"
RULE = ("one evaluation = one deconvolution of one array; batches enumerate all component placements/pixel kinds; "
        "non-trivial = at least one iteration was made and the run stopped for the reason the configuration selects")
ASSUMPTIONS = ["regular depth grids symmetric about zero", "RMSF sampled on the double-length axis of the same spacing",
               "when two channels tie for the peak within 1e-4 only the conservation and stopping invariants are compared"]
CHUNK = 1

NPHI = 11
DPHI = 20.0


def grid(n):
    return (np.arange(n) - (n - 1) / 2.0) * DPHI


def setup(n, flags=(), nch=9):
    f = np.linspace(0.85e9, 1.75e9, nch)
    lsq = ref.lamsq(f)
    w = np.ones(nch)
    w[list(flags)] = 0
    l0 = (w * lsq).sum() / w.sum()
    phi = grid(n)
    ext = int(np.ceil(n / 2.0))
    phi2 = grid(n + 2 * ext)
    kern = lambda x: (w[None] * np.exp(-2j * np.outer(x, lsq - l0))).sum(1) / w.sum()
    return phi, phi2, kern, ext


def dirty(phi, kern, comps, noise=0.0):
    d = np.zeros(len(phi), complex)
    for p, a in comps:
        d += a * kern(phi - p)
    k = np.arange(len(phi))
    return d + noise * (np.cos(2.1 * k * k) + 1j * np.sin(1.3 * k * k + 0.4))


def gauss(phi, mean, fwhm):
    return np.exp(-4 * np.log(2) * ((phi - mean) / fwhm) ** 2)


def peak_index(d, rmsf, cc, resid):
    """channel of the RMSF peak; on even grids two channels tie and the code may use either one consistently"""
    n = len(d)
    best = None
    for i0 in np.where(rmsf.real >= rmsf.real.max() - 1e-5)[0]:
        if i0 - n + 1 < 0 or i0 + n > len(rmsf):
            continue
        conv = sum((cc[k] * rmsf[np.arange(n) - k + i0] for k in range(n) if cc[k] != 0), np.zeros(n, complex))
        e = np.abs(d - resid - conv).max()
        if best is None or e < best[0]:
            best = (e, int(i0))
    return best[1]


def machine(d, rmsf, i0, phi, fwhm, cutoff, maxiter, gain, window):
    """reference transition system. returns residual, cc, clean, iters, ambiguous, stage1 comps, trace length"""
    n = len(phi)
    r = d.astype(complex).copy()
    cc = np.zeros(n, complex)
    clean = np.zeros(n, complex)
    it, amb = 0, False
    K = lambda k: rmsf[np.arange(n) - k + i0]

    def stage(allowed, thr):
        nonlocal r, it, amb
        idx = np.where(allowed)[0]
        if not len(idx):
            return
        while it < maxiter:
            a = np.abs(r[idx])
            o = np.argsort(-a)
            pk = a[o[0]]
            if not (pk >= thr):
                if abs(pk - thr) < 1e-5 * max(1, pk):
                    amb = True
                return
            if abs(pk - thr) < 1e-5 * max(1.0, pk):
                amb = True
            if len(o) > 1 and pk - a[o[1]] < 1e-4 * max(pk, 1e-3):
                amb = True
            k = idx[o[0]]
            c = gain * r[k]
            cc[k] += c
            r = r - c * K(k)
            clean[:] += c * gauss(phi, phi[k], fwhm)
            it += 1

    stage(np.ones(n, bool), cutoff)
    s1 = cc.copy()
    it1 = it
    if window == window:
        allowed = np.zeros(n, bool)
        h = fwhm / (phi[1] - phi[0]) / 2
        for k in np.where(np.abs(s1) > 0)[0]:
            allowed[max(0, int(k - h)): int(k + h)] = True
            allowed[k] = True
        stage(allowed, window)
    return r, cc, clean + r, it, amb, s1, it1


def invariants(out, d, rmsf, i0, phi, fwhm, cutoff, maxiter, gain, window, res, tag, info):
    clean, cc, it, resid = res
    n = len(phi)
    conv = np.zeros(n, complex)
    g = np.zeros(n, complex)
    for k in range(n):
        if cc[k] != 0:
            conv += cc[k] * rmsf[np.arange(n) - k + i0]
            g += cc[k] * gauss(phi, phi[k], fwhm)
    sc = max(1.0, np.abs(d).max())
    out.check(np.abs(d - resid - conv).max() < 3e-5 * sc, tag + "conserve", lambda: "dirty != residual + components*RMSF by %g; %s" % (np.abs(d - resid - conv).max(), info()))
    out.check(np.abs(clean - resid - g).max() < 3e-5 * sc, tag + "restore", lambda: "clean != residual + components*Gaussian by %g; %s" % (np.abs(clean - resid - g).max(), info()))
    out.check(0 <= it <= max(maxiter, 0), tag + "limit", lambda: "%d iterations, limit %d; %s" % (it, maxiter, info()))
    out.check(it == maxiter or np.abs(resid).max() < cutoff + 1e-5 or window == window, tag + "stop",
              lambda: "stopped with residual peak %g >= cutoff %g after %d of %d iterations; %s" % (np.abs(resid).max(), cutoff, it, maxiter, info()))
    out.check((it == 0) == (not np.any(cc)), tag + "count", lambda: "%d iterations but %d components; %s" % (it, np.count_nonzero(cc), info()))


def compare(out, d, rmsf, phi, pad, fwhm, cutoff, maxiter, gain, window, res, tag, info):
    clean, cc, it, resid = res
    if not np.isfinite(d).all():
        out.check(bool(np.isnan(clean).all() and np.isnan(resid).all() and not np.any(cc) and it == 0), tag + "nan-pixel",
                  lambda: "undefined pixel not passed through; clean %s cc %s it %s; %s" % (clean, cc, it, info()))
        return "nan"
    i0 = peak_index(d, rmsf, cc, resid)
    invariants(out, d, rmsf, i0, phi, fwhm, cutoff, maxiter, gain, window, res, tag, info)
    r, c2, cl2, it2, amb, s1, it1 = machine(d, rmsf, i0, phi, fwhm, cutoff, maxiter, gain, window)
    if not amb:
        sc = max(1.0, np.abs(d).max())
        bad = max(np.abs(r - resid).max(), np.abs(c2 - cc).max(), np.abs(cl2 - clean).max())
        out.check(it == it2 and bad < 5e-5 * sc, tag + "machine",
                  lambda: "iterations %d (reference %d), max difference %g; cc %s reference %s; %s" % (
                      it, it2, bad, np.array2string(cc, precision=4), np.array2string(c2, precision=4), info()))
        if window == window and it1 > 0:
            far = np.array([np.min(np.abs(np.where(np.abs(s1) > 0)[0] - k)) * (phi[1] - phi[0]) for k in range(len(phi))])
            out.check(not np.any(cc[far > fwhm / 2 + (phi[1] - phi[0])]), tag + "window-extent", lambda: "component outside the window; cc %s; %s" % (cc, info()))
            inside = far < fwhm / 2 - (phi[1] - phi[0]) + 1e-6
            out.check(it == maxiter or np.abs(resid[inside]).max() < max(window, 0) + 1e-5, tag + "window-depth",
                      lambda: "window residual %g above threshold %g after %d iterations; %s" % (np.abs(resid[inside]).max(), window, it, info()))
    return "amb" if amb else ("it%d" % min(it, 3)) + ("max" if it == maxiter else "cut")


def cases(tier):
    big = tier == "thorough"
    out = []
    for n in (11, 8) if not big else (11, 8, 15, 9):
        for gain, cutoff, maxiter, fw in itertools.product((0.1, 0.5, 1.0), (0.0, 0.05, 0.4, 5.0), (1, 4, 60), (2.2, 3.7)):
            for dt in ("complex128", "complex64") if (big or (gain == 0.5 and maxiter == 60)) else ("complex128",):
                out.append(dict(kind="one", n=n, gain=gain, cutoff=cutoff, maxiter=maxiter, fw=fw, dt=dt))
    for shape, cutoff, window in itertools.product(([3], [2, 2], [1, 3], [3, 1], [1, 1], [1], [2, 1]), (0.0, 0.3), (None, 0.05)):
        out.append(dict(kind="cube", shape=shape, cutoff=cutoff, window=window, kinds="swnd" if not big else "swndf"))
    for cutoff, window in itertools.product((0.05, 0.4, -3.0, -8.0), (None, 0.03, -1.5, -4.0)):
        for dfdf in (0.01, 0.08):
            out.append(dict(kind="oned", cutoff=cutoff, window=window, dfdf=dfdf))
    # fluxes in other units (powers of two, so that scaling is exact)
    for unit in (2.0 ** -27, 2.0 ** 20):
        for gain, cutoff, maxiter in itertools.product((0.1, 1.0), (0.05, 0.4), (4, 60)):
            out.append(dict(kind="one", n=11, gain=gain, cutoff=cutoff, maxiter=maxiter, fw=3.7, dt="complex64" if gain == 1.0 else "complex128", unit=unit))
        for shape, window in itertools.product(([3], [1, 2]), (None, 0.05)):
            out.append(dict(kind="cube", shape=shape, cutoff=0.3, window=window, kinds="swnd", unit=unit))
        for cutoff, window in itertools.product((0.05, -3.0), (None, 0.03, -1.5)):
            out.append(dict(kind="oned", cutoff=cutoff, window=window, dfdf=0.08, unit=unit))
    # images of many pixels, long deconvolutions
    for shape in ([70], [7, 9], [1, 40], [40, 1], [17, 2]):
        for cutoff, window in ((0.05, None), (0.3, 0.05)):
            for gain, maxiter in ((0.3, 40), (0.1, 1500)):
                out.append(dict(kind="many", shape=shape, cutoff=cutoff, window=window, gain=gain, maxiter=maxiter))
    for n in (121, 80) + ((401,) if big else ()):
        for gain, maxiter in ((0.01, 1000), (0.01, 1001), (0.02, 4000), (0.004, 2500)):
            for cutoff in (0.0, 0.011):
                out.append(dict(kind="long", n=n, gain=gain, maxiter=maxiter, cutoff=cutoff))
    out.append(dict(kind="err"))
    return out


WINS = (None, "default", 0.02, 0.3, 0.0)


def run(case, out):
    k = case["kind"]
    unit = case.get("unit", 1.0)
    if k == "one":
        n, dt = case["n"], case["dt"]
        phi, phi2, kern, pad = setup(n)
        rmsf = kern(phi2).astype(dt)
        fwhm = case["fw"] * DPHI
        places = [[(phi[i], 1.0 + 0.2j)] for i in range(n)] + [[(0.4 * DPHI + phi[i], 0.8j)] for i in range(n)]
        places += [[(phi[i], 1.0), (phi[j] + 0.3 * DPHI, a)] for i in range(n) for j in range(i + 1, n) for a in (0.7j, -1.1)]
        places += [[]]
        for comps in places:
            d = dirty(phi, kern, comps, 0.01).astype(dt)
            for win in WINS:
                w = {None: np.nan, "default": np.nan}.get(win, win) if not isinstance(win, float) else win
                kw = {} if win == "default" else {"window": w}
                if kw:
                    kw = {"window": w * unit}
                D, R = d * d.dtype.type(unit), rmsf.copy()
                fw = np.array(fwhm)
                r = do_rmclean_hogbom(D, phi.copy(), R, phi2.copy(), fw, case["cutoff"] * unit, maxIter=case["maxiter"], gain=case["gain"], log=lambda *a, **k: None, **kw)
                info = lambda: "components %s window %s" % (comps, win)
                out.check(np.array_equal(D, d * d.dtype.type(unit)) and np.array_equal(R, rmsf) and float(fw) == fwhm, "inputs", lambda: "inputs modified; " + info())
                if not out.check(r[0].shape == (n,) and r[1].shape == (n,) and np.size(r[2]) == 1 and r[3].shape == (n,), "shape", lambda: "shapes; " + info()):
                    continue
                it = int(r[2])
                out.step(it)
                cls = compare(out, d, rmsf, phi, pad, fwhm, case["cutoff"], case["maxiter"], case["gain"], w, (r[0] / unit, r[1] / unit, it, r[3] / unit), "", info)
                out.ev(it > 0)
                out.sig = "%s" % cls
                out.state(r[0] / unit, it)
    elif k == "cube":
        n = 9
        shape = tuple(case["shape"])
        npix = int(np.prod(shape))
        variants = {}
        phi, phi2, kern, pad = setup(n)
        _, _, kern2, _ = setup(n, flags=(0, 3))
        for kind, kn, comps in (("s", kern, [(phi[3], 1.0)]), ("w", kern, [(phi[5] + 3, 0.2j)]), ("d", kern2, [(phi[1], 1.0), (phi[7] + 5, -0.6j)]), ("f", kern2, [(phi[0], 0.9 - 0.4j)])):
            variants[kind] = (dirty(phi, kn, comps, 0.01), kn(phi2), {"s": 2.5, "w": 2.5, "d": 3.1, "f": 3.3}[kind] * DPHI)
        variants["n"] = (np.full(n, np.nan + 1j * np.nan), np.zeros(len(phi2), complex), 2.5 * DPHI)
        w = np.nan if case["window"] is None else case["window"]
        for assign in itertools.product(case["kinds"], repeat=npix):
            D = np.stack([variants[a][0] for a in assign], 1).reshape((n,) + shape).astype("complex64")
            R = np.stack([variants[a][1] for a in assign], 1).reshape((len(phi2),) + shape).astype("complex64")
            F = np.array([variants[a][2] for a in assign]).reshape(shape)
            D0, R0, F0 = D.copy(), R.copy(), F.copy()
            D *= unit
            r = do_rmclean_hogbom(D, phi, R, phi2, F, case["cutoff"] * unit, maxIter=40, gain=0.3, window=w * unit, log=lambda *a, **k: None)
            D /= unit
            r = tuple(np.asarray(x) / (1 if j == 2 else unit) for j, x in enumerate(r))
            info = lambda: "pixels %s" % "".join(assign)
            out.ev(len(set(assign)) > 1)
            out.check(np.array_equal(D, D0, equal_nan=True) and np.array_equal(R, R0, equal_nan=True) and np.array_equal(F, F0), "cube-inputs", lambda: "inputs modified; " + info())
            if not out.check(np.size(r[0]) == n * npix and np.size(r[1]) == n * npix and np.size(r[2]) == npix and np.size(r[3]) == n * npix, "cube-shape", lambda: "sizes; " + info()):
                continue
            want = tuple(x for x in (n,) + shape if x != 1)
            out.check(tuple(x for x in r[0].shape if x != 1) == want and tuple(x for x in r[3].shape if x != 1) == want, "cube-shape", lambda: "shape %s; %s" % (r[0].shape, info()))
            cl, cc, it, rs = r[0].reshape(n, npix), r[1].reshape(n, npix), np.ravel(r[2]), r[3].reshape(n, npix)
            for p, a in enumerate(assign):
                compare(out, D0.reshape(n, npix)[:, p].astype(complex), R0.reshape(-1, npix)[:, p].astype(complex), phi, pad, variants[a][2], case["cutoff"], 40, 0.3, w,
                        (cl[:, p], cc[:, p], int(it[p]), rs[:, p]), "cube-", lambda: info() + " pixel %d" % p)
                out.step(int(it[p]))
            out.state(np.asarray(r[0]), np.asarray(r[2]))
        out.sig = "cube"
    elif k == "many":
        n, shape = 33, tuple(case["shape"])
        npix = int(np.prod(shape))
        D, R, F = np.zeros((n, npix), complex), None, np.zeros(npix)
        for p in range(npix):
            phi, phi2, kern, pad = setup(n, flags=(p % 4, (5 * p + 3) % 9))
            D[:, p] = dirty(phi, kern, [(phi[(7 * p + 3) % n], 1.0 + 0.01 * p), (phi[(11 * p) % n] + 5, 0.3j + 0.5 * (p % 3))], 0.01 + 0.0001 * p) * (0.05 if p % 5 == 2 else 1.0)
            if p % 13 == 4:
                D[:, p] = np.nan
            R = np.zeros((len(phi2), npix), complex) if R is None else R
            R[:, p], F[p] = kern(phi2), (2.1 + 0.1 * (p % 17)) * DPHI
        w = np.nan if case["window"] is None else case["window"]
        r = do_rmclean_hogbom(D.reshape((n,) + shape).copy(), phi, R.reshape((-1,) + shape).copy(), phi2, F.reshape(shape).copy(), case["cutoff"], maxIter=case["maxiter"], gain=case["gain"], nBits=64, window=w, log=lambda *a, **k: None)
        cl, cc, rs = (np.asarray(x).reshape(n, npix) for x in (r[0], r[1], r[3]))
        it = np.ravel(r[2])
        out.ev(True)
        for p in range(npix):
            compare(out, D[:, p], R[:, p], phi, pad, F[p], case["cutoff"], case["maxiter"], case["gain"], w, (cl[:, p], cc[:, p], int(it[p]), rs[:, p]), "many-", lambda: "pixel %d" % p)
            out.step(int(it[p]))
        out.state(cl, it)
        out.sig = "many"
    elif k == "long":
        n = case["n"]
        phi, phi2, kern, pad = setup(n, nch=40)
        d = dirty(phi, kern, [(phi[n // 3], 1.0), (phi[n // 2] + 7, 0.8j), (phi[n - 9] - 3, 0.6 - 0.2j)], 0.01)
        r = do_rmclean_hogbom(d.copy(), phi, kern(phi2), phi2, np.array(3 * DPHI), case["cutoff"], maxIter=case["maxiter"], gain=case["gain"], nBits=64, log=lambda *a, **k: None)
        it = int(r[2])
        out.ev(True)
        out.step(it)
        compare(out, d, kern(phi2), phi, pad, 3 * DPHI, case["cutoff"], case["maxiter"], case["gain"], np.nan, (r[0], r[1], it, r[3]), "long-", lambda: "%d iterations" % it)
        out.state(r[0], it)
        out.sig = "long%d" % (it == case["maxiter"])
    elif k == "oned":
        n = 21
        nch = 30
        f = np.linspace(0.85e9, 1.75e9, nch)
        lsq = ref.lamsq(f)
        phi = grid(n)
        phi2 = grid(n + 2 * 11)
        l0 = lsq.mean()
        kern = lambda x: np.exp(-2j * np.outer(x, lsq - l0)).mean(1)
        fwhm = 3.0 * DPHI
        for i in range(1, n - 1):
            d = dirty(phi, kern, [(phi[i] + 4, 1.0 - 0.3j)], 0.02)
            aD = dict(phiArr_radm2=phi.copy(), freqArr_Hz=f.copy(), weightArr=np.ones(nch), dirtyFDF=d * unit, phi2Arr_radm2=phi2.copy(), RMSFArr=kern(phi2))
            mD = dict(dFDFth=case["dfdf"] * unit, fwhmRMSF=fwhm, lam0Sq_m2=l0, units="Jy/beam", freq0_Hz=1e9, Ifreq0=1.0, dQU=0.1 * unit)
            absol = lambda x: x * unit if x >= 0 else x  # negative thresholds are multiples of the noise
            kw = {} if case["window"] is None else {"window": absol(case["window"])}
            mcl, acl = run_rmclean_1D(mD, aD, absol(case["cutoff"]), maxIter=100, gain=0.2, **kw)
            out.ev(mcl["nIter"] > 0)
            cut = case["cutoff"] if case["cutoff"] >= 0 else -case["cutoff"] * case["dfdf"]
            win = np.nan if case["window"] is None else (case["window"] if case["window"] >= 0 else -case["window"] * case["dfdf"])
            info = lambda: "component at channel %d" % i
            out.check(abs(mcl["cleanCutoff"] / unit - cut) < 1e-9, "oned-cutoff", lambda: "reported cutoff %g expected %g; %s" % (mcl["cleanCutoff"] / unit, cut, info()))
            compare(out, d, kern(phi2), phi, 11, fwhm, cut, 100, 0.2, win, (acl["cleanFDF"] / unit, acl["ccArr"] / unit, int(mcl["nIter"]), acl["residFDF"] / unit), "oned-", info)
            out.check(np.array_equal(aD["dirtyFDF"], d * unit), "oned-inputs", "dirty spectrum modified")
            out.step(int(mcl["nIter"]))
            out.state(acl["cleanFDF"] / unit)
        out.sig = "oned"
    else:
        # mismatching arrays are refused (nothing returned), never silently cleaned
        phi, phi2, kern, pad = setup(9)
        D, R = dirty(phi, kern, [(0.0, 1.0)]), kern(phi2)
        F = np.array(50.0)
        for bad in (dict(d=D[:-1]), dict(r=R[:-1]), dict(phi=phi[:-1]), dict(phi2=phi2[:-1]), dict(d=D[:, None]), dict(phi2=phi2[3:-3], r=R[3:-3])):
            a = dict(d=D, r=R, phi=phi, phi2=phi2)
            a.update(bad)
            try:
                r = do_rmclean_hogbom(a["d"], a["phi"], a["r"], a["phi2"], F, 0.1, log=lambda *a, **k: None)
                refused = all(x is None for x in r)
            except Exception:
                refused = True
            out.ev()
            out.check(refused, "refuse", "mismatching arrays %s were not refused" % list(bad))


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
