"""R02: RMSF = response to a unit source with the same flags and weights."""
import gc, itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref
import numpy as np
from scipy.optimize import least_squares
from RMutils.util_RM import do_rmsynth_planes, get_rmsf_planes

gc.collect(); gc.freeze()

PID, LEVEL = "R02", "exploration"
RULE = ("one evaluation = one call of the real RMSF computation for one flag mask; batches enumerate every mask; "
        "non-trivial = some but not all voxels flagged, or a weight vector, or a main-lobe fit")
ASSUMPTIONS = ["finufft honours its tolerance", "a pixel without any unflagged weight has an undefined RMSF (0 or NaN)",
               "grids of a single depth are only used without the double-length extension"]
CHUNK = 4


def cases(tier):
    big = tier == "thorough"
    out = []
    wal = [0.0, 1.0, 2.5, None]
    for w in [None] + [list(x) for x in itertools.product(wal, repeat=3)]:
        for phi in ("odd", "asym"):
            out.append(dict(kind="mask", n=3, npix=2, rank="2", w=w, phi=phi, f="irr", double=True, lam0=None, bits=32))
    for w in (None, [1.0, 0.3, 2.0, 0.0]):
        for rank in ("2", "3r", "3c"):
            for f in ("irr", "desc", "mix"):
                out.append(dict(kind="mask", n=4, npix=2, rank=rank, w=w, phi="asym", f=f, double=True, lam0=None, bits=32))
                if big:
                    out.append(dict(kind="mask", n=4, npix=3, rank=rank, w=w, phi="asym", f=f, double=True, lam0=None, bits=64))
    for w in ([0.0, 0.0, 0.0], [0.0, 2.0, 0.0], [None, 0.0, 1.0], [1e12, 3e11, 2e12], [1e-12, 3e-13, 2e-12], [2e-7, 1e-7, 0.0]):
        for rank in ("2", "3r", "3c"):
            for bits in (32, 64):
                out.append(dict(kind="mask", n=3, npix=2, rank=rank, w=w, phi="asym", f="irr", double=True, lam0=None, bits=bits))
        out.append(dict(kind="mask", n=3, npix=3, rank="2", w=w, phi="odd", f="desc", double=False, lam0=None, bits=64))
    for phi, double, lam0, bits, f, w in itertools.product(
            ("odd", "even", "asym", "pos", "irr", "one"), (True, False), (None, 0.0, 0.05), (32, 64), ("irr", "mix", "desc"),
            (None, [1.0, 0.3, 2.0])):
        if phi == "one" and double:
            continue
        for rank in ("1", "2"):
            out.append(dict(kind="mask", n=3, npix=1 if rank == "1" else 2, rank=rank, w=w, phi=phi, f=f, double=double, lam0=lam0, bits=bits))
    for shape in ([2, 2], [1, 3], [3, 1], [2, 3]):
        for w in (None, [1.0, 0.3, 2.0]):
            out.append(dict(kind="img", n=3, shape=shape, w=w, two=big or shape == [2, 2]))
    for shape in ([17], [300], [2100], [5, 13], [31, 9], [1, 300], [130, 1], [40, 55]):
        for bits in (32, 64):
            for few in (0, 1, 2, 3, 4):
                out.append(dict(kind="large", n=7, shape=shape, bits=bits, few=few))
    for n in (1, 2, 3, 16, 64, 300):
        for nphi in (2, 3, 50, 101) + ((400,) if big or n == 300 else ()):
            for pmax in (60.0, 1000.0):
                for off in (0.0, 0.4):
                    out.append(dict(kind="rung", n=n, nphi=nphi, pmax=pmax, off=off))
    for n in (8, 30, 80):
        for nphi in (21, 60, 101, 200):
            for pmax in (80.0, 300.0, 1000.0):
                for real in (False, True):
                    for masked in (False, True):
                        out.append(dict(kind="fit", n=n, nphi=nphi, pmax=pmax, real=real, masked=masked))
    for shape in ([2, 2], [2, 3], [3, 2], [1, 3], [3, 1]):
        for real in (False, True):
            for f in ("asc", "perm"):
                out.append(dict(kind="fit", n=30, nphi=60, pmax=300.0, real=real, masked=True, shape=shape, f=f))
    return out


def phi2_ref(phi, double):
    if not double:
        return phi
    n = len(phi)
    e = int(np.ceil(n / 2.0))
    lo = phi[0] - (phi[1] - phi[0]) * np.arange(e, 0, -1)
    hi = phi[-1] + (phi[-1] - phi[-2]) * np.arange(1, e + 1)
    return np.concatenate((lo, phi, hi))


def compare(out, mask2, lsq, phi, w, lam0, double, bits, shape, tol, info, cross=True, noMask=False):
    n, npix = mask2.shape
    M = mask2.reshape((n,) + tuple(shape)).copy()
    W = None if w is None else w.copy()
    L, PH = lsq.copy(), phi.copy()
    keep = [M.copy(), L.copy(), PH.copy()]
    r = get_rmsf_planes(L, PH, weightArr=W, mskArr=None if noMask else M, lam0Sq_m2=lam0, double=double, nBits=bits, log=lambda *a, **k: None)
    out.step()
    out.ev((mask2.any() and not mask2.all()) or w is not None)
    rmsf, phi2, fwhm, stat, l0 = r
    p2 = phi2_ref(phi, double)
    if not out.check(np.shape(phi2) == p2.shape and np.allclose(phi2, p2, rtol=1e-6, atol=1e-6), "phi2",
                     lambda: "depth axis %s expected %s; %s" % (phi2, p2, info())):
        return
    exp, l0e = ref.ref_rmsf(mask2, lsq, p2, w, lam0)
    sw = (ref.clean_weights(w, n)[:, None] * ~mask2).sum(axis=0)
    if (sw > 0).any():
        out.check(abs(l0 - l0e) <= 1e-6 * max(1e-3, abs(l0e)), "lam0", lambda: "lambda0^2 %r expected %r; %s" % (l0, l0e, info()))
    want = (len(p2),) + tuple(shape)
    got = np.asarray(rmsf)
    if not out.check(tuple(x for x in got.shape if x != 1) == tuple(x for x in want if x != 1) and (len(shape) < 2 or got.shape == want), "shape",
                     lambda: "RMSF shape %s expected %s; %s" % (got.shape, want, info())):
        return
    got = got.reshape(len(p2), npix)
    ok = sw > 0
    d = ref.maxdiff(got[:, ok], exp[:, ok])
    out.check(d <= tol, "value", lambda: "max difference %g; got %s expected %s; %s" % (
        d, np.array2string(got, precision=4, threshold=40), np.array2string(exp, precision=4, threshold=40), info()))
    dead = got[:, ~ok]
    out.check(dead.size == 0 or bool(np.all(np.isnan(dead) | (dead == 0))), "dead", lambda: "fully flagged pixel has an RMSF: %s; %s" % (dead, info()))
    fw = 3.8 / (lsq.max() - lsq.min()) if n > 1 else np.inf
    out.check(np.size(fwhm) == npix and np.allclose(np.ravel(fwhm), fw, rtol=1e-5), "fwhm", lambda: "FWHM %s expected %s; %s" % (fwhm, fw, info()))
    out.check(np.size(stat) == npix and np.all(np.ravel(stat) == -1), "status", lambda: "status %s; %s" % (stat, info()))
    if len(shape) == 2:
        out.check(np.shape(fwhm) == tuple(shape) and np.shape(stat) == tuple(shape), "mapshape", lambda: "map shapes %s %s; %s" % (np.shape(fwhm), np.shape(stat), info()))
    same = np.array_equal(M, keep[0]) and np.array_equal(L, keep[1]) and np.array_equal(PH, keep[2]) and (w is None or np.array_equal(W, w, equal_nan=True))
    out.check(same, "inputs", lambda: "caller's arrays modified; " + info())
    if cross and ok.any():
        q = np.where(mask2, np.nan, 1.0)
        u = np.where(mask2, np.nan, 0.0)
        f = do_rmsynth_planes(q[:, ok], u[:, ok], lsq.copy(), p2.astype("f8"), weightArr=None if w is None else w.copy(), lam0Sq_m2=l0, nBits=64)
        fdf = np.asarray(f[0]).reshape(len(p2), -1)
        d2 = ref.maxdiff(got[:, ok], fdf)
        out.check(d2 <= 2 * tol, "unit-source", lambda: "differs from the unit-source spectrum by %g; %s" % (d2, info()))
    out.state(got)


def ref_fits(phi2, y):
    """fits for every channel which may count as the peak (ties on even grids); None if some value sits on the threshold"""
    if np.any(np.abs(y - 0.4) < 1e-4):
        return [None]
    return [ref_fit(phi2, y, i) for i in np.where(y >= y.max() - 1e-4)[0]]


def ref_fit(phi2, y, i):
    below = np.where(y[i:] < 0.4)[0]
    if not len(below):
        return None
    s = below[0]
    lo = i - s + 1
    if lo < 0:
        return None
    idx = np.arange(lo, i + s)
    sel = idx[y[idx] >= 0.4]
    if len(sel) < 4:
        sel = idx
    if len(sel) < 4:
        return None
    x, yy = phi2[sel], y[sel]
    w0 = x.max() - x.min()
    r = least_squares(lambda p: p[0] * np.exp(-4 * np.log(2) * ((x - p[1]) / p[2]) ** 2) - yy, [1.0, x[np.argmax(yy)], w0], x_scale=[1, w0, w0], xtol=1e-12, ftol=1e-12)
    return abs(r.x[2])


def run(case, out):
    k = case["kind"]
    if k == "mask":
        n, npix = case["n"], case["npix"]
        lsq = ref.lamsq(ref.freqs(case["f"], n))
        phi = ref.PHIS[case["phi"]]
        w = None if case["w"] is None else np.array([np.nan if x is None else x for x in case["w"]])
        shape = {"1": (), "2": (npix,), "3r": (1, npix), "3c": (npix, 1)}[case["rank"]]
        for bits in itertools.product((0, 1), repeat=n * npix):
            m = np.array(bits, bool).reshape(n, npix)
            compare(out, m, lsq, phi, w, case["lam0"], case["double"], case["bits"], shape, 6e-5, lambda: "mask=%s" % (bits,))
            if not m.any() and case["rank"] == "1":
                compare(out, m, lsq, phi, w, case["lam0"], case["double"], case["bits"], shape, 6e-5, lambda: "no mask", noMask=True)
        out.sig = case["phi"]
    elif k == "large":
        n, shape = case["n"], tuple(case["shape"])
        npix = int(np.prod(shape))
        i = np.arange(n * npix).reshape(n, npix)
        m = np.zeros((n, npix), bool)
        if case["few"] == 2:  # channels with one good pixel only
            m[2, np.arange(npix) != npix // 2] = m[5, 1:] = True
        elif case["few"] == 3:  # almost everything flagged
            m[:, np.arange(npix) != npix - 1] = m[1:5, -1] = True
        elif case["few"] == 4:  # counts of flags which are multiples of 256 below the number of pixels
            m[2, :npix // 256 * 256 - (npix % 256 == 0) * 256] = m[4, :256 if npix > 256 else 0] = True
        elif case["few"]:
            m[2, npix // 2] = m[n - 1, npix - 1] = True
        else:
            m |= ((i * 7919) % 5 == 1) | ((i * 104729) % 7 == 3)
            m[:, ::17] = True
        for w in (None, 0.3 + np.arange(n) % 3):
            for double in (True, False):
                compare(out, m, ref.lamsq(ref.freqs("mix", n)), ref.PHIS["asym"], w, None, double, case["bits"], shape, 6e-5, lambda: "%d flags" % m.sum())
    elif k == "img":
        n, shape = case["n"], tuple(case["shape"])
        npix = shape[0] * shape[1]
        lsq = ref.lamsq(ref.freqs("irr", n))
        vox = [(c, p) for c in range(n) for p in range(npix)]
        sets = [()] + [s for r in ((1, 2) if case["two"] else (1,)) for s in itertools.combinations(vox, r)]
        sets += [tuple((c, p) for c in range(n)) for p in range(npix)] + [tuple((c, p) for p in range(npix)) for c in range(n)]
        w = None if case["w"] is None else np.array(case["w"])
        for s in sets:
            m = np.zeros((n, npix), bool)
            for c, p in s:
                m[c, p] = True
            compare(out, m, lsq, ref.PHIS["odd"], w, None, True, 32, shape, 6e-5, lambda: "flags=%s" % (s,))
        out.sig = "img"
    elif k == "rung":
        n, nphi = case["n"], case["nphi"]
        lsq = ref.lamsq(np.linspace(0.9e9, 1.7e9, n) if n > 1 else np.array([1.2e9]))
        phi = np.linspace(-case["pmax"], case["pmax"], nphi) + case["off"] * case["pmax"]
        for step in (0, 3):
            m = np.zeros((n, 2), bool)
            if step:
                m[1::step, 1] = True
            for w in (None, 1.0 / (1 + np.arange(n) % 5)):
                compare(out, m, lsq, phi, w, None, True, 32, (2,), 4e-4, lambda: "step=%d" % step)
        out.sig = "rung"
    else:
        n, nphi = case["n"], case["nphi"]
        f = np.linspace(0.9e9, 1.7e9, n)
        if case.get("f") == "perm":
            f = f[(np.arange(n) * 7 + 3) % n]
        lsq = ref.lamsq(f)
        phi = np.linspace(-case["pmax"], case["pmax"], nphi)
        w = 1.0 / (1 + np.arange(n) % 3)
        shape = tuple(case.get("shape", (3,)))
        npix = int(np.prod(shape))
        m = np.zeros((n, npix), bool)
        if case["masked"]:
            m[1::3, 1] = True
            m[: n // 3, 2] = True
            for p in range(3, npix):
                m[: n // 3 + 3 * p, p] = True
        M = m.reshape((n,) + shape)
        r = get_rmsf_planes(lsq, phi, weightArr=w, mskArr=M, fitRMSF=True, fitRMSFreal=case["real"], log=lambda *a, **k: None)
        out.step(); out.ev(True)
        plain = get_rmsf_planes(lsq, phi, weightArr=w, mskArr=M, log=lambda *a, **k: None)
        out.check(ref.maxdiff(r[0], plain[0]) < 1e-6, "fit-rmsf", "fitting changes the RMSF")
        exp, _ = ref.ref_rmsf(m, lsq, phi2_ref(phi, True), w)
        analytic = 3.8 / (lsq.max() - lsq.min())
        if len(shape) == 2:
            out.check(np.shape(r[2]) == shape and np.shape(r[3]) == shape, "mapshape", lambda: "map shapes %s %s" % (np.shape(r[2]), np.shape(r[3])))
        for p in range(npix):
            y = exp[:, p].real if case["real"] else np.abs(exp[:, p])
            rfs = ref_fits(phi2_ref(phi, True), y)
            got, st = float(np.ravel(r[2])[p]), int(np.ravel(r[3])[p])
            if st == -1:
                out.check(abs(got / analytic - 1) < 1e-4, "fit-fallback", "pixel %d: status -1 but FWHM %g is not the analytic %g" % (p, got, analytic))
            else:
                out.check(np.isfinite(got) and got > 0, "fit-range", "pixel %d: fitted FWHM %g, status %d" % (p, got, st))
            if all(x is not None for x in rfs):
                out.check(st != -1 and min(abs(got / x - 1) for x in rfs) < 5e-3, "fit-value",
                          "pixel %d: FWHM %g status %d, reference fit %s" % (p, got, st, rfs))
            out.sig = "fit%s" % (st == -1)
            out.state(got)


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
