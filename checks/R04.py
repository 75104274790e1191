"""R04: parallel runs equal the serial run under every schedule of tasks over workers."""
import glob, itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref, pools
import numpy as np
import astropy.io.fits as pf
from RMutils.util_RM import do_rmclean_hogbom
import RMtools_3D.do_fitIcube as FI
import RMtools_3D.rescale_I_model_3D as RS
import RMutils.util_misc as um

PID, LEVEL = "R04", "model_checking"
RULE = ("one evaluation = one complete execution under one schedule (order of chunk completion, assignment of chunks to "
        "isolated workers, chunk size); non-trivial = more than one chunk was executed and the order was not the serial one")
ASSUMPTIONS = ["real pools keep their documented contract: map/imap return results in submission order, tasks and results are pickled, "
               "each process has its own copy of module state", "schedules beyond the stated number of chunks/workers are not explored"]
CHUNK = 2
CASE_TIMEOUT = 300
NEEDS_CHILDREN = True


def cases(tier):
    big = tier == "thorough"
    out = []
    nmax, wmax = (5, 3) if big else (4, 2)
    for shape in ([2, 2], [4], [1, 4], [5, 1]) if big else ([2, 2], [4], [1, 4]):
        for cutoff in (0.0, 0.2):
            for cs in (1, 2, 3, None):
                out.append(dict(kind="clean", shape=shape, cutoff=cutoff, cs=cs, nmax=nmax, wmax=wmax))
    for order, ff in ((1, "log"), (2, "linear"), (-2, "log")):
        for mask in (False, True):
            for verbose in (False, True):
                for cs in (1, 2):
                    out.append(dict(kind="icube", order=order, ff=ff, mask=mask, verbose=verbose, cs=cs, nmax=nmax, wmax=wmax if big else 1))
    for shape in ([2, 2], [1, 4], [4, 1], [2, 3]) + (([1, 5],) if big else ()):
        for ff in ("log", "linear"):
            for cs in (1, 2):
                out.append(dict(kind="rescale", shape=shape, ff=ff, cs=cs, nmax=nmax, wmax=wmax))
    for shape, cs in (([7, 9], 16), ([9, 7], 31), ([1, 64], 30), ([64, 1], 22), ([130], 44)):
        out.append(dict(kind="clean", shape=shape, cutoff=0.2, cs=cs, nmax=nmax, wmax=wmax if big else 1))
    out.append(dict(kind="rescale-big", shape=[15, 15], ff="log"))
    out.append(dict(kind="real", what="clean"))
    out.append(dict(kind="real", what="rescale"))
    out.append(dict(kind="real", what="icube"))
    return out


def clean_inputs(shape):
    n = 9
    nch = 8
    f = np.linspace(0.85e9, 1.75e9, nch)
    lsq = ref.lamsq(f)
    phi = (np.arange(n) - 4.0) * 20
    phi2 = (np.arange(n + 10) - 9.0) * 20
    npix = int(np.prod(shape))
    D = np.zeros((n, npix), complex)
    R = np.zeros((len(phi2), npix), complex)
    for p in range(npix):
        w = np.ones(nch)
        w[p % nch] = 0
        k = lambda x: (w * np.exp(-2j * np.outer(x, lsq - lsq.mean()))).sum(1) / w.sum()
        R[:, p] = k(phi2)
        D[:, p] = (1.0 + 0.2 * p) * np.exp(0.7j * p) * k(phi - phi[(2 * p + 1) % n] - 3) + 0.5 * k(phi - phi[(5 * p) % n]) * (p % 2)
    if npix > 2:
        D[:, 1] *= 0.02  # below the larger cutoff
        D[:, 2] = np.nan
    F = 45.0 + 5 * np.arange(npix)
    return D.reshape((n,) + tuple(shape)), phi, R.reshape((-1,) + tuple(shape)), phi2, F.reshape(shape)


def clean(shape, cutoff, pool, cs):
    D, phi, R, phi2, F = clean_inputs(shape)
    r = do_rmclean_hogbom(D, phi, R, phi2, F, cutoff, maxIter=25, gain=0.3, pool=pool, chunksize=cs, window=0.05, log=lambda *a, **k: None)
    # the arrays of the caller are part of the outcome: no run may change them differently than the serial one
    return [np.array(x) for x in r] + [D, R, F, phi, phi2]


def icube_data():
    """2x3 pixels, 7 channels, distinct spectra"""
    nch, ny, nx = 7, 2, 3
    f = np.linspace(0.8e9, 1.6e9, nch)
    d = np.zeros((nch, ny, nx))
    for y in range(ny):
        for x in range(nx):
            d[:, y, x] = (1 + y * 3 + x) * (f / 1.2e9) ** (-0.5 - 0.3 * x + 0.2 * y) * (1 + 0.01 * np.cos(np.arange(nch) * (x + 2) + y))
    return d[:, :, :2].astype("f4"), f


def icube_header(d):
    h = pf.PrimaryHDU(d).header
    for i, (ct, cv, cd) in enumerate((("RA---TAN", 10.0, -0.01), ("DEC--TAN", -30.0, 0.01), ("FREQ", 0.8e9, 0.8e9 / 6)), 1):
        h["CTYPE%d" % i], h["CRVAL%d" % i], h["CDELT%d" % i], h["CRPIX%d" % i] = ct, cv, cd, 1.0
    h["BUNIT"] = "Jy/beam"
    return h


def icube(sched, order, ff, mask, verbose, cs, real=0):
    d, f = icube_data()
    with mc.scratch() as dd:
        kw = dict(polyOrd=order, threshold=2.5, num_cores=max(1, real or 2), chunk_size=cs, verbose=verbose, fit_function=ff, apply_mask=mask, outDir=dd, prefixOut="t_")
        if real:
            m = FI.make_model_I(d.copy(), icube_header(d), f.copy(), **kw)
        else:
            with pools.controlled(sched):
                m = FI.make_model_I(d.copy(), icube_header(d), f.copy(), **kw)
        res = {"model": np.array(m)}
        for fn in sorted(glob.glob("t_*")):
            if fn.endswith(".fits"):
                with pf.open(fn) as h:
                    res[fn] = np.array(h[0].data)
            else:
                res[fn] = np.loadtxt(fn)
    return res


def rescale_inputs(shape):
    ny, nx = shape
    n = ny * nx
    base = np.arange(n).reshape(ny, nx)
    co = np.zeros((6, ny, nx))
    co[5], co[4], co[3] = 0.1 + 0.05 * base, -0.7 + 0.03 * base, 0.02 * (base % 3)
    cov = np.zeros((6, 6, ny, nx))
    for i in range(3, 6):
        for j in range(3, 6):
            cov[i, j] = 0.001 * (1 + i + j) + 0.0001 * base + (0.01 if i == j else 0)
    if n > 3:
        co.reshape(6, -1)[:, 1] = np.nan
    return cov, 1.0e9 + 1e7 * base, 1.1e9 + 2e7 * (base % 2), co


def rescale(sched, shape, ff, real=0):
    cov, o, nw, co = rescale_inputs(shape)
    if real:
        r = RS.rescale_I_model_3D(cov, o, nw, co, ff, num_cores=real)
    else:
        with pools.controlled(sched):
            r = RS.rescale_I_model_3D(cov, o, nw, co, ff, num_cores=2)
    return [np.array(x) for x in r]


def eq(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(eq([a[k]], [b[k]]) for k in a)
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y, equal_nan=x.dtype.kind in "fc") for x, y in zip(a, b))


def diffs(a, b):
    if isinstance(a, dict):
        return [k for k in sorted(set(a) | set(b)) if k not in a or k not in b or not eq([a[k]], [b[k]])]
    return [i for i, (x, y) in enumerate(zip(a, b)) if not eq([x], [y])]


def schedules(n, nmax, wmax):
    n = min(n, nmax)
    ws = 1
    while ws <= wmax:
        yield from ([o for o in pools.orders(n, ws) if ws == 1 or max(w for c, w in o) == ws - 1])
        ws += 1


def run(case, out):
    k = case["kind"]
    if k == "clean":
        shape, cs = tuple(case["shape"]), case["cs"]
        serial = clean(shape, case["cutoff"], None, None)
        out.check(np.count_nonzero(serial[2]) >= 2, "vacuous", "serial run makes no iterations")
        probe = pools.Schedule()
        base = clean(shape, case["cutoff"], pools.ControlledPool(probe), cs)
        nch = probe.nchunks[0]
        out.check(eq(serial, base), "clean", lambda: "one worker in order: outputs %s differ from serial" % diffs(serial, base))
        for o in schedules(nch, case["nmax"], case["wmax"]):
            s = pools.Schedule(o)
            r = clean(shape, case["cutoff"], pools.ControlledPool(s), cs)
            out.step(len(s.trace))
            out.ev(len(s.trace) > 1 and [c for c, w, n in s.trace] != sorted(c for c, w, n in s.trace))
            out.check(eq(serial, r), "clean", lambda: "schedule %s chunk size %s: outputs %s (0 clean, 1 components, 2 iterations, 3 residual, 4.. input arrays) differ from the serial run" % (o, cs, diffs(serial, r)))
            out.state(str(s.trace), case["shape"], case["cs"])
        out.sig = "clean%d" % nch
    elif k == "icube":
        args = (case["order"], case["ff"], case["mask"], case["verbose"], case["cs"])
        serial = icube(pools.Schedule(), *args)
        out.check(len(serial) > 8 and np.isfinite(serial["model"]).any(), "vacuous", "serial run wrote %s" % sorted(serial))
        # position oracle: each pixel's model is the fit of that pixel alone
        d, f = icube_data()
        rms = serial["t_noise.dat"]
        for y, x in itertools.product(range(d.shape[1]), range(d.shape[2])):
            m = serial["model"][:, y, x]
            if np.isfinite(m).all():
                r = um.fit_StokesI_model(f, d[:, y, x], rms, polyOrd=case["order"], fit_function=case["ff"])
                exp = um.calculate_StokesI_model(r, f)
                out.check(np.allclose(m, exp, rtol=2e-4), "icube-serial", lambda: "pixel (%d,%d) of the serial run is not its own fit: %s vs %s" % (y, x, m, exp))
        nch = -(-4 // case["cs"])
        for o in schedules(nch, case["nmax"], case["wmax"]):
            s = pools.Schedule(o, force_chunk=case["cs"])
            r = icube(s, *args)
            out.step(len(s.trace))
            out.ev(len(s.trace) > 1 and [c for c, w, n in s.trace] != sorted(c for c, w, n in s.trace))
            out.check(eq(serial, r), "icube", lambda: "schedule %s: outputs %s differ from the serial run" % (o, diffs(serial, r)))
            out.state(str(s.trace), str(args))
        out.sig = "icube"
    elif k in ("rescale", "rescale-big"):
        shape = tuple(case["shape"])
        serial = rescale(pools.Schedule(), shape, case["ff"])
        cov, o_, nw, co = rescale_inputs(shape)
        for y, x in itertools.product(range(shape[0]), range(shape[1])):
            p, e = RS.rescale_I_pixel((cov[:, :, y, x], co[:, y, x], o_[y, x], nw[y, x]), case["ff"])
            out.check(np.allclose(np.asarray(p, float), serial[1][:, y, x], equal_nan=True) and np.allclose(np.asarray(e, float), serial[2][:, y, x], equal_nan=True),
                      "rescale-serial", "pixel (%d,%d) does not hold its own rescaled coefficients" % (y, x))
        force = case.get("cs")
        n = -(-shape[0] * shape[1] // (force or 100))
        for o in schedules(n, case.get("nmax", 4), case.get("wmax", 2)):
            s = pools.Schedule(o, force_chunk=force)
            r = rescale(s, shape, case["ff"])
            out.step(len(s.trace))
            out.ev(len(s.trace) > 1 and [c for c, w, n in s.trace] != sorted(c for c, w, n in s.trace))
            out.check(eq(serial, r), "rescale", lambda: "schedule %s: outputs %s differ from the serial run" % (o, diffs(serial, r)))
            out.state(str(s.trace), str(shape))
        out.sig = "rescale"
    else:
        # free-running conformance runs with the real pools
        if case["what"] == "clean":
            import multiprocessing, schwimmbad

            ctx = multiprocessing.get_context("fork")
            for shape, pool, cs in (((2, 2), ctx.Pool(2), 1), ((2, 2), ctx.Pool(3), 2), ((2, 2), schwimmbad.SerialPool(), None), ((2, 2), schwimmbad.SerialPool(), 2),
                                    ((7, 9), ctx.Pool(4), 1), ((9, 7), ctx.Pool(3), 5), ((33, 2), ctx.Pool(2), 100), ((9, 7), schwimmbad.SerialPool(), 4)):
                serial = clean(shape, 0.0, None, None)
                r = clean(shape, 0.0, pool, cs)
                out.ev(True)
                out.step(4)
                out.check(eq(serial, r), "real-clean", lambda: "real pool %s: outputs %s differ from serial" % (type(pool), diffs(serial, r)))
                if hasattr(pool, "terminate"):
                    pool.terminate()
        elif case["what"] == "rescale":
            for shape in ((3, 4), (12, 19)):
                serial = rescale(pools.Schedule(), shape, "log")
                r = rescale(None, shape, "log", real=2)
                out.ev(True)
                out.check(eq(serial, r), "real-rescale", lambda: "real pool: outputs %s differ" % diffs(serial, r))
        else:
            serial = icube(pools.Schedule(), 2, "log", False, False, 1)
            r = icube(None, 2, "log", False, False, 1, real=2)
            out.ev(True)
            out.check(eq(serial, r), "real-icube", lambda: "real pool: outputs %s differ" % diffs(serial, r))
        out.sig = "real"


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
