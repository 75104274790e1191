"""R17: 3-D Stokes I model rescaling preserves the model at every pixel."""
import itertools, multiprocessing, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, cubes
import numpy as np
from astropy.io import fits as pf
import RMtools_3D.rescale_I_model_3D as RS
import RMtools_3D.do_fitIcube as IC
from R07 import model, reexpress, jac
from R16 import SerialPool, REALPOOL

PID, LEVEL = "R17", "exploration"
RULE = ("one evaluation = one run of the rescaling tool; all supports of the coefficient planes x families x image shapes x NaN patterns x ways to give the reference are enumerated "
        "(hand-written maps and maps of real cube fits, one and two rescalings in a row) and every pixel's model is compared before and after; non-trivial = several pixels")
ASSUMPTIONS = ["maps are single precision: models are compared to 2e-4, errors (exact first-order propagation) to 1%", "a serial stand-in replaces the process pool except in the cases that name workers"]
CHUNK = 8
NEEDS_CHILDREN = True
SHAPES = [(2, 3), (1, 3), (3, 1), (1, 1), (9, 13), (40, 3)]
AMP = [0.3, -0.7, 0.11, 0.25, -0.9, 2.5]
C = 299792458.0
PRIOR = {"log4": (4, "log"), "linear0": (0, "linear"), "log0": (0, "log"), "linear5": (5, "linear"), "dynlog": (-3, "log")}


def fit_line(order, ff):
    """the line by which the cube fit records its model"""
    return "Fit model is %d-order %s-polynomial" % (order, ff) if order >= 0 else "Fit model is dynamic order %s-polynomial, max order %d" % (ff, -order)


def cases(tier):
    big = tier == "thorough"
    out = []
    for ff in ("log", "linear"):
        for supp in range(32):
            for mode in ("f", "l", "mean", "f2") if big else (("f", "l", "mean", "f2")[(supp + (ff == "log")) % 4], "f"):
                for sh in range(4) if big else (0,):
                    for nan in ("none", "pix") if big else ("pix",):
                        out.append(dict(kind="hand", ff=ff, supp=supp, mode=mode, shape=sh, nan=nan, extra=supp % 2, workers=0))
        for sh in range(4):
            for nan in ("none", "pix", "first"):
                for mode in ("f", "l", "mean", "f2"):
                    out.append(dict(kind="hand", ff=ff, supp=0b00101 if ff == "log" else 0b00011, mode=mode, shape=sh, nan=nan, extra=0, workers=0))
        for order in range(-5, 6) if big else (-3, -1, 0, 1, 2, 3):
            for mode in ("f", "l", "mean"):
                out.append(dict(kind="fit", ff=ff, order=order, mode=mode, shape=0, nan="pix", workers=0))
        # the fitted cube may itself be the model of an earlier fit, whose history it carries
        for prior in PRIOR:
            for supp in (0, 1, 5, 22) if big else (5,):
                for mode in ("f", "l"):
                    out.append(dict(kind="hand", ff=ff, supp=supp, mode=mode, shape=0, nan="pix", extra=supp % 2, workers=0, prior=prior))
            for order in (-4, 1, 3) if big else (-3, 1):
                out.append(dict(kind="fit", ff=ff, order=order, mode="f", shape=0, nan="pix", workers=0, prior=prior))
        for unit in (2e-6, 5e4):
            for order in (-3, 2):
                out.append(dict(kind="fit", ff=ff, order=order, mode="f", shape=0, nan="pix", workers=0, unit=unit))
            for supp in (1, 6):
                for mode in ("f", "l"):
                    out.append(dict(kind="hand", ff=ff, supp=supp, mode=mode, shape=0, nan="pix", extra=0, workers=0, unit=unit))
        for sh in (4, 5):  # larger instances
            for supp in (0, 5, 7, 31) if big else (5, 7):
                for mode in ("f", "l", "mean", "f2"):
                    out.append(dict(kind="hand", ff=ff, supp=supp, mode=mode, shape=sh, nan="pix", extra=supp == 7, workers=0))
            out.append(dict(kind="fit", ff=ff, order=2, mode="f", shape=sh, nan="pix", workers=0))
        for w in (1, 2):
            out.append(dict(kind="hand", ff=ff, supp=7, mode="f", shape=0, nan="pix", extra=0, workers=w))
    return out


def hand(case, pre):
    """coefficient maps, highest order first (6, ny, nx); support bit i = plane of order i+1 is not all zero"""
    ny, nx = SHAPES[case["shape"]]
    supp = [True] + [bool((case["supp"] >> i) & 1) for i in range(5)]
    order = max(i for i in range(6) if supp[i])
    P, V, R = np.zeros((6, ny, nx)), np.zeros((6, 6, ny, nx)), np.zeros((ny, nx))
    for y in range(ny):
        for x in range(nx):
            j = y * nx + x
            odd, k = j % 2, j
            j = j if j < 11 else j % 11 + 0.003 * (j // 11)
            for i in range(6):
                if supp[i] and not (0 < i < order and (k + i) % 4 == 3):
                    P[5 - i, y, x] = AMP[5 - i] * (1 + 0.2 * j) * (-1 if i and odd else 1)
            free = [5 - i for i in range(order + 1)]
            A = np.cos(np.arange(36).reshape(6, 6) * (1.7 + j)) * 0.05
            c = A @ A.T + np.diag([1e-4] * 6)
            for a in free:
                for b in free:
                    V[a, b, y, x] = c[a, b]
            R[y, x] = 1.1e9 + 2.5e7 * j
    bad = {"none": [], "pix": [(0, nx - 1)], "first": [(0, 0)], "all": list(itertools.product(range(ny), range(nx)))}[case["nan"]]
    if ny * nx == 1:
        bad = []
    for y, x in bad:
        P[:, y, x], V[:, :, y, x], R[y, x] = np.nan, np.nan, np.nan
    h = cubes.header("xyf", (ny, nx), freqs=np.array([1e9, 1.1e9]))
    IC.remove_header_third_fourth_axis(h)
    if "prior" in case:
        h["HISTORY"] = "Stokes I model fitted by RM-Tools"
        h["HISTORY"] = fit_line(*PRIOR[case["prior"]])
    h["HISTORY"] = "Stokes I model fitted by RM-Tools"
    h["HISTORY"] = fit_line(-min(5, order + 1) if case["extra"] else order, case["ff"])
    n = order if not case["extra"] else min(5, order + 1)
    u = np.array([1.0] * 5 + [case.get("unit", 1.0)]) if case["ff"] == "log" else np.full(6, case.get("unit", 1.0))
    P, V = P * u[:, None, None], V * np.outer(u, u)[:, :, None, None]
    P, V, R = P.astype("f4"), V.astype("f4"), R.astype("f4")
    for i in range(n + 1):
        pf.writeto(pre + "coeff%d.fits" % i, P[5 - i], h)
        pf.writeto(pre + "coeff%derr.fits" % i, np.sqrt(V[5 - i, 5 - i]), h)
    pf.writeto(pre + "reffreq.fits", R, h)
    pf.writeto(pre + "covariance.fits", V, h)


def fitted(case, pre):
    ny, nx = SHAPES[case["shape"]]
    N = 8
    f = 0.8e9 + 0.1e9 * np.arange(N)
    I = np.zeros((N, ny, nx))
    for j in range(ny * nx):
        x = f / 1.1e9
        J = j % 7 + 0.003 * (j // 7)
        I.reshape(N, -1)[:, j] = (1 + 0.5 * J) * x ** (-0.7 + 0.2 * J) * 10 ** (0.5 * (j % 2) * np.log10(x) ** 2) + 0.02 * np.cos(np.arange(N) * (1.3 + J))
        I[j % N].reshape(-1)[j] = np.nan
    I.reshape(N, -1)[:, 1] = np.nan if case["nan"] == "pix" else 0.5
    I *= case.get("unit", 1.0)
    cubes.write("I.fits", I, "xyf", freqs=f, stokes=1)
    if "prior" in case:
        with pf.open("I.fits", mode="update") as hd:
            hd[0].header["HISTORY"] = fit_line(*PRIOR[case["prior"]])
    assert cubes.run_main(IC, ["I.fits", "-p", case["order"], "-f", case["ff"], "-odir", ".", "-o", pre]) == "ok"


def load(pre, new=""):
    P = E = None
    k = 0
    for i in range(6):
        n = pre + new + "coeff%d.fits" % i
        if not os.path.exists(n):
            break
        a, h = cubes.read(n)
        if P is None:
            P, E, H = np.zeros((6,) + a.shape), np.zeros((6,) + a.shape), h
        P[5 - i] = a
        k = i + 1
        E[5 - i] = cubes.read(pre + new + "coeff%derr.fits" % i)[0]
    return (P, E, H, k) if P is not None else None


def run(case, out):
    multiprocessing.Pool = REALPOOL if case["workers"] else SerialPool
    ff, mode = case["ff"], case["mode"]
    with mc.scratch("r17") as d:
        pre = "m_"
        (hand if case["kind"] == "hand" else fitted)(case, pre)
        P, E, H, n = load(pre)
        V = cubes.read(pre + "covariance.fits")[0]
        R = cubes.read(pre + "reffreq.fits")[0]
        ny, nx = R.shape
        before = {p: open(p, "rb").read() for p in os.listdir(".")}
        info = lambda: "%s maps %dx%d %s planes of order %s, NaN %s, reference by %s" % (case["kind"], ny, nx, ff, [i for i in range(6) if np.nansum(np.abs(P[5 - i]))], case["nan"], mode)
        argv = [pre + "covariance.fits"]
        if mode in ("f", "f2"):
            newf = 1.17e9
            argv += ["-f", newf]
        elif mode == "l":
            newf = 1.05e9
            h = pf.Header()
            h["LAMSQ0"] = (C / newf) ** 2
            pf.writeto("FDF.fits", np.zeros((2, ny, nx), "f4"), h)
            argv += ["-l", "FDF.fits"]
        else:
            newf = np.nanmean(R)
        outn = pre
        if (ny + nx + (mode == "l")) % 2:
            outn = "out_"
            argv += ["-o", outn]
        if case["workers"]:
            argv += ["-n", case["workers"]]
        old, RS.main = getattr(RS, "main", None), RS.command_line
        try:
            got = cubes.run_main(RS, argv)
            if mode == "f2":  # changing the mind: overwriting needs -w
                before2 = {p: open(p, "rb").read() for p in os.listdir(".")}
                newf = 1.02e9
                try:
                    cubes.run_main(RS, [pre + "covariance.fits", "-f", newf] + argv[3:])
                except Exception:
                    pass
                for p, b in before2.items():
                    out.check(open(p, "rb").read() == b, "overwrite", lambda: "%s overwritten without -w; %s" % (p, info()))
                got = cubes.run_main(RS, [pre + "covariance.fits", "-f", newf, "-w"] + argv[3:])
        finally:
            multiprocessing.Pool = REALPOOL
            if old is None:
                del RS.main
        out.step(3 if mode == "f2" else 1)
        out.ev(ny * nx > 1)
        for p, b in before.items():
            out.check(open(p, "rb").read() == b, "inputs", lambda: "%s changed; %s" % (p, info()))
        q = load(outn, "new")
        if case["nan"] == "all" and q is None:
            out.sig = "all"
            return
        if not out.check(got == "ok" and q is not None, "products", lambda: "no products; " + info()):
            return
        P2, E2, H2, n2 = q
        if not out.check(P2.shape == (6, ny, nx), "shape", lambda: "shape %s; %s" % (P2.shape, info())):
            return
        s = cubes.sky_same(H2, "xy", (ny, nx))
        out.check(s is None, "header", lambda: "%s; %s" % (s, info()))
        if np.isfinite(newf):
            out.check(abs(H2.get("REFFREQ", 0) / newf - 1) < 3e-7, "reffreq", lambda: "REFFREQ %r, asked for %r; %s" % (H2.get("REFFREQ"), newf, info()))
        freqs = np.array([0.85e9, 1.0e9, 1.1e9, 1.2e9, 1.5e9])
        for y in range(ny):
            for x in range(nx):
                tag = lambda: "pixel (%d,%d); %s" % (y, x, info())
                p, p2 = P[:, y, x], P2[:, y, x]
                if not np.isfinite(R[y, x]):
                    out.check(case["kind"] == "fit" or np.isnan(p2[6 - n2:]).all(), "masked", lambda: "undefined pixel has %s; %s" % (p2, tag()))
                    continue
                a, b = model(p, freqs / R[y, x], ff), model(p2, freqs / newf, ff)
                terms = sum(np.abs(p[5 - i]) * (freqs / R[y, x]) ** i for i in range(6)) if ff == "linear" else np.abs(a)
                out.check(np.all(np.abs(a - b) <= 2e-4 * terms), "model", lambda: "model %s, was %s; %s" % (b, a, tag()))
                J = jac(p, newf / R[y, x], ff)
                W = J @ V[:, :, y, x] @ J.T
                e = np.sqrt(np.abs(np.diag(W)))
                # cancelling terms cannot be resolved in single precision
                big = np.sqrt(np.diag(np.abs(J) @ np.abs(V[:, :, y, x]) @ np.abs(J).T))
                out.check(np.all(np.abs(E2[6 - n2:, y, x] - e[6 - n2:]) <= 0.01 * e[6 - n2:] + 1e-3 * big[6 - n2:]), "errors", lambda: "errors %s, expected %s; %s" % (E2[:, y, x], e, tag()))
                out.check(np.all(np.abs(e[: 6 - n2]) <= 1e-6 * (case.get("unit", 1.0) if ff == "linear" else 1.0)), "planes", lambda: "uncertain coefficients missing from the products (%d planes, errors %s); %s" % (n2, e, tag()))
                out.state(p2, ff)
        out.sig = (ff, mode, n2)


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
