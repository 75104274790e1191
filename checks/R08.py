"""R08: fractional Stokes spectra are data divided by the Stokes I model."""
import itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref
import numpy as np
from RMutils.util_misc import create_frac_spectra
from R06 import model

PID, LEVEL = "R08", "exploration"
RULE = ("one evaluation = one I,Q,U spectrum; batches enumerate every assignment of {defined, zero Q/U, NaN in any single or all of I,Q,U,dI,dQ,dU} "
        "to the channels; non-trivial = at least one channel is not fully defined")
ASSUMPTIONS = ["errors of the Stokes I model are documented not to propagate"]
CHUNK = 2
KINDS = ["ok", "I", "Q", "U", "dI", "dQ", "dU", "zero", "all"]


def cases(tier):
    big = tier == "thorough"
    n = 5 if big else 4
    out = []
    for ff in ("log", "linear"):
        for order in (0, 1, 2, -1, -2) if not big else (0, 1, 2, 3, -1, -2, -5):
            for lev in ("pos", "weak", "neg"):
                for first in KINDS:
                    if not big and lev != "pos" and order not in (1, -2):
                        continue
                    out.append(dict(ff=ff, order=order, lev=lev, first=first, n=n, mod=None, dt="f8"))
    for order in (0, 1, 2):
        for first in KINDS:
            out.append(dict(ff="log", order=order, lev="one", first=first, n=n, mod=None, dt="f8"))
    for mod in ("pos", "zeros", "nan", "neg"):
        for first in KINDS:
            out.append(dict(ff="log", order=2, lev="pos", first=first, n=n, mod=mod, dt="f8"))
            out.append(dict(ff="linear", order=2, lev="pos", first=first, n=n, mod=mod, dt="f4"))
    for first in KINDS:
        out.append(dict(ff="log", order=1, lev="pos", first=first, n=n, mod=None, dt="f4"))
    for unit in (1e-7, 3e5, 1e9) + ((1e-10,) if big else ()):
        for ff, order, mod in (("log", 1, None), ("linear", 1, None), ("log", -1, None), ("log", 0, None), ("log", 2, "pos"), ("log", 2, "neg")):
            for lev in ("pos", "neg") if mod is None else ("pos",):
                for first in KINDS:
                    out.append(dict(ff=ff, order=order, lev=lev, first=first, n=n, mod=mod, dt="f8", unit=unit))
    for lev in ("dip", "up", "down", "hump"):  # models which are negative in a part of the band only
        for order in (1, 2, -2):
            for first in KINDS:
                for nn in (n, 41) if big or order == 2 else (n,):
                    out.append(dict(ff="linear", order=order, lev=lev, first=first, n=nn, mod=None, dt="f8", **({"many": True} if nn > n else {})))
    for nl in (41, 288):  # larger instances
        for first in KINDS:
            for ff, order, mod in (("log", 1, None), ("linear", 1, None), ("log", -2, None), ("log", 2, "zeros"), ("log", 2, "nan")):
                for lev in ("pos", "weak", "neg") if mod is None else ("pos",):
                    for dt in ("f8", "f4"):
                        out.append(dict(ff=ff, order=order, lev=lev, first=first, n=nl, mod=mod, dt=dt, many=True))
    return out


def long_patterns(kind, n):
    for where in ([0], [n - 1], [n // 3], range(0, n, 3), range(2, n), range(n // 2), range(n)):
        yield [kind if c in where else "ok" for c in range(n)]


def run(case, out):
    n, ff, order = case["n"], case["ff"], case["order"]
    unit = case.get("unit", 1.0)  # of all fluxes
    f = np.linspace(0.8e9, 1.6e9, n) if "many" in case else ref.freqs("irr", n)
    x = f / 1e9
    one = case["lev"] == "one"  # one channel noisier than the model
    tru = {"pos": model([0, 0, 0, 0, -0.7 if ff == "log" else -0.5, 2.0], x, ff),
           "dip": 9 * ((x - x.mean()) / np.ptp(x)) ** 2 - 0.6, "hump": 0.6 - 9 * ((x - x.mean()) / np.ptp(x)) ** 2,
           "up": 3 * (x - x[0]) / np.ptp(x) - 0.4, "down": 3 * (x[-1] - x) / np.ptp(x) - 0.4,
           "weak": np.resize([0.02, -0.01, 0.015, 0.01, 0.03], n),
           "neg": np.resize([-2.0, -1.0, -1.6, -1.2, -0.8], n)}["pos" if one else case["lev"]]
    if case["lev"] == "pos" and abs(order) == 0:
        tru = np.full(n, 1.7)
    tru = tru * unit
    if "many" in case:
        pats = long_patterns(case["first"], n)
    else:  # the last two channels carry a reduced alphabet
        pats = ([case["first"]] + [KINDS[k] for k in r] for r in itertools.product(range(len(KINDS)), repeat=n - 1) if r[-1] in (0, 1, 7) and r[-2] in (0, 2, 6, 8))
    for pat in pats:
        Q = 0.2 * np.cos(np.arange(n) + 0.3)
        U = 0.3 * np.sin(np.arange(n) * 1.3 + 0.7)
        I = tru.copy()
        dI, dQ, dU = np.full(n, 0.05), 0.01 * (1 + np.arange(n)), 0.02 * (1 + np.arange(n) % 2)
        if one:
            dI[2] = 7.0
        for c, k in enumerate(pat):
            if k in ("I", "all"):
                I[c] = np.nan
            if k in ("Q", "all"):
                Q[c] = np.nan
            if k in ("U", "all"):
                U[c] = np.nan
            if k == "dI":
                dI[c] = np.nan
            if k == "dQ":
                dQ[c] = np.nan
            if k == "dU":
                dU[c] = np.nan
            if k == "zero":
                Q[c] = U[c] = 0.0
        Q, U, dI, dQ, dU = [a * unit for a in (Q, U, dI, dQ, dU)]
        given = None
        if case["mod"]:
            given = np.resize({"pos": [1.0, 2, 3, 4, 5], "zeros": [0.0, 2, 0, 1, 1], "nan": [np.nan, 1, 2, 1, np.nan], "neg": [-1.0, 1, 2, -3, 1]}[case["mod"]], n) * unit
        arrs = [a.astype(case["dt"]) for a in (f, I, Q, U, dI, dQ, dU)]
        keep = [a.copy() for a in arrs]
        g0 = None if given is None else given.copy()
        info = lambda: "channels %s" % pat
        im, q, u, dq, du, fr = create_frac_spectra(*arrs, polyOrd=order, fit_function=ff, modStokesI=given)
        out.step()
        out.ev(any(p != "ok" for p in pat))
        out.check(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(arrs, keep)), "inputs", lambda: "inputs modified; " + info())
        rt = 1e-9 if case["dt"] == "f8" else 2e-5
        im = np.array(im, float)
        good = np.isfinite(I) & np.isfinite(dI)
        ng = int(good.sum())
        if "many" in case and given is None and 0 < ng < 5 and case["lev"] != "pos":
            continue  # two neighbouring values of opposite sign: the power law runs away
        if given is not None:
            out.check(np.array_equal(im, g0, equal_nan=True) and np.array_equal(given, g0, equal_nan=True), "given", lambda: "supplied model not used as given: %s; %s" % (im, info()))
            out.check(fr.fitStatus == 0, "given-status", lambda: "status %s with a supplied model" % fr.fitStatus)
        else:
            st = int(fr.fitStatus)
            base = st % 64
            failed = ng == 0 or (order >= 0 and ng < order + 1)
            if failed:
                out.check(base == 0 or base > 8, "fail-flag", lambda: "status %d although %d channels cannot give order %d; %s" % (st, ng, order, info()))
            else:
                out.check(1 <= base <= 8, "ok-flag", lambda: "status %d for a possible fit; %s" % (st, info()))
                ev = model(fr.params, keep[0].astype(float) / fr.reference_frequency_Hz, ff)
                out.check(np.allclose(im, ev, rtol=1e-6, atol=1e-9 * unit), "model", lambda: "model spectrum %s is not that of the coefficients %s; %s" % (im, ev, info()))
                out.check(bool(st & 128) == bool(np.nanmin(ev) < 0), "flag128", lambda: "status %d, model minimum %g; %s" % (st, np.nanmin(ev), info()))
                out.check(bool(st & 64) == bool(np.any(ev < np.where(np.isnan(dI), -np.inf, dI))), "flag64", lambda: "status %d, model %s errors %s; %s" % (st, ev, dI, info()))
                need = 1 if order == 0 else 2
                if case["lev"] == "pos" and ng >= need and order >= 0:
                    w = np.abs(im[good] - tru[good])
                    out.check(w.max() < 2e-3 * unit, "truth", lambda: "model %s does not follow the data %s; %s" % (im, tru, info()))
        with np.errstate(all="ignore"):
            for nm, got, num in (("q", q, keep[2]), ("u", u, keep[3]), ("dq", dq, keep[5]), ("du", du, keep[6])):
                want = num.astype(float) / im
                want = np.where(np.isfinite(want), want, np.nan)
                got = np.array(got, float)
                if nm[0] == "d":
                    got, want = np.abs(got), np.abs(want)
                ok = got.shape == want.shape and np.array_equal(np.isnan(got), np.isnan(want)) and np.allclose(got, want, rtol=rt, atol=1e-12, equal_nan=True)
                out.check(ok, nm, lambda: "%s = %s expected %s; %s" % (nm, got, want, info()))
        out.state(q, u, im)
    out.sig = case["first"] + str(case["mod"])


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
