"""R01: Faraday spectrum = weighted transform of exactly the unflagged data.

Space: every assignment of a voxel alphabet to (channel, pixel) x weight vectors x depth grids x channel
order x rank x dtype x lambda0 override (several complementary exhaustive products, see cases()).
Oracle: direct sum (lib/ref.py)."""
import gc, itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref
import numpy as np
from RMutils.util_RM import do_rmsynth_planes

gc.collect(); gc.freeze()

PID, LEVEL = "R01", "exploration"
RULE = ("one evaluation = one call of the real transform; a case is a batch sharing one configuration and enumerating "
        "all voxel assignments; non-trivial = both flagged and unflagged voxels, or a non-default weight vector")
ASSUMPTIONS = ["finufft honours its tolerance", "infinite data values and NaN lambda^2 are out of scope"]
CHUNK = 4

# voxel alphabet: (Q, U); 'n' Q flagged, 'm' U flagged, 'b' both, '0' zero, others values
VOX = {
    "a": (1.0, 0.5), "c": (-0.7, 1.3), "0": (0.0, 0.0), "q": (1.1, 0.0), "u": (0.0, -0.9),
    "n": (np.nan, 0.8), "m": (0.6, np.nan), "b": (np.nan, np.nan), "N": (np.nan, 0.0),
}


def cases(tier):
    big = tier == "thorough"
    out = []
    # A: 3 channels (4 thorough), 1 pixel, all 9^n assignments x all weights from {0,1,2.5,NaN}
    n = 3
    wal = [0.0, 1.0, 2.5, None]
    for w in [None] + [list(x) for x in itertools.product(wal, repeat=n)]:
        out.append(dict(kind="A", n=n, npix=1, w=w, vox="a0nmbq" if not big else "ac0nmbquN", phi="odd", f="irr", rank=1, dt="f8", lam0=None))
    # B: 2 channels x 2 pixels all assignments x ranks, x 3 ch x 2 px over {a,n,b... }
    for rank in ("2", "3r", "3c"):
        for w in (None, [1.0, 2.5], [0.0, 1.0], [None, 2.0]):
            out.append(dict(kind="B", n=2, npix=2, w=w, vox="a0nmb", phi="asym", f="irr", rank=rank, dt="f4", lam0=None))
        for w in (None, [2.5, 1.0, 0.5], [1.0, 0.0, 2.0]):
            out.append(dict(kind="B", n=3, npix=2, w=w, vox="anm" if not big else "anmb", phi="asym", f="desc", rank=rank, dt="f8", lam0=None))
    # C: configuration product on all Q/U flag patterns of 4 channels (2 bits each restricted alphabet)
    for phi, f, dt, lam0, rank in itertools.product(
            ("odd", "even", "asym", "pos", "one", "irr"), ("irr", "desc", "reg", "mix"), ("f4", "f8", ">f4", ">f8"),
            (None, 0.0, 0.05), ("1", "2")):
        out.append(dict(kind="C", n=4, npix=1, w=[1.0, 0.3, 2.0, 1.0], vox="am" if not big else "anm", phi=phi, f=f, rank=rank, dt=dt, lam0=lam0))
    # S: very small and very large flux units, pixels with fluxes of very different size side by side
    for s in (1e-25, 1e-13, 1e13, "mixed"):
        for rank in ("2", "3r"):
            for w in (None, [1.0, 0.3, 2.0]):
                out.append(dict(kind="S", n=3, npix=2, w=w, vox="a0n", phi="odd", f="mix", rank=rank, dt="f8", lam0=None, s=s))
    # D: 3-D images with per-pixel flags, all positions of one / two flagged voxels
    for shape in ([2, 3], [1, 3], [3, 1], [1, 1]):
        for dt in ("f4", "f8"):
            for phi in ("odd", "asym", "one"):
                out.append(dict(kind="D", n=4, shape=shape, phi=phi, f="irr", dt=dt, nflag=2 if big else 1))
    # L: images and lists of many pixels
    for shape in ([17], [300], [70000 if big else 2100], [5, 13], [31, 9], [1, 300], [130, 1], [40, 55]):
        for dt in ("f4", "f8"):
            for few in (0, 1, 2, 3):
                out.append(dict(kind="L", n=7, shape=shape, phi="asym", f="mix", dt=dt, few=few))
    # E: rungs of larger spectra
    for nch in (1, 2, 5, 16, 64, 300) + ((1024,) if big else ()):
        for nphi in (1, 2, 3, 50, 101) + ((500,) if big or nch == 300 else ()):
            for pmax in (50.0, 1000.0):
                out.append(dict(kind="E", n=nch, nphi=nphi, pmax=pmax, dt="f8"))
                out.append(dict(kind="E", n=nch, nphi=nphi, pmax=pmax, dt="f4"))
    return out


def wvec(w):
    return None if w is None else np.array([np.nan if x is None else x for x in w])


def call_and_compare(out, q, u, lsq, phi, w, lam0, shape, tol, key, info, dt, unit=1.0):
    """q,u (nchan,npix) float64; shape = data shape after the channel axis"""
    n = q.shape[0]
    Q = q.astype(dt).reshape((n,) + tuple(shape))
    U = u.astype(dt).reshape((n,) + tuple(shape))
    ph = phi.astype("f8")
    W = None if w is None else w.copy()
    keep = [x.copy() for x in (Q, U, lsq, ph)]
    L = lsq.copy()
    kw = {}
    r = do_rmsynth_planes(Q, U, L, ph, weightArr=W, lam0Sq_m2=lam0, nBits=64 if dt.endswith("8") else 32, log=lambda *a, **k: None, **kw)
    out.step()
    fl = np.isnan(q) | np.isnan(u)
    out.ev((fl.any() and not fl.all()) or w is not None)
    fdf, l0 = r[0], r[1]
    exp, l0e, norm = ref.ref_fdf(Q.astype("f8").reshape(n, -1), U.astype("f8").reshape(n, -1), lsq, phi, w, lam0)
    zero = np.all(exp == 0, axis=0)
    exp[:, zero] = np.nan
    e2 = exp.reshape((len(phi),) + tuple(shape))
    e2 = np.squeeze(e2) if e2.size > 1 else e2.reshape(())
    got = np.asarray(fdf)
    if got.shape != e2.shape and got.size == e2.size and np.squeeze(got).shape == np.squeeze(e2).shape:
        got = got.reshape(e2.shape)
    out.check(abs(l0 - l0e) <= 1e-6 * max(1e-3, abs(l0e)), key + ":lam0",
              lambda: "reference lambda^2 %r, expected %r; %s" % (l0, l0e, info()))
    if got.shape != e2.shape:
        out.fail(key + ":shape", "shape %r, expected %r; %s" % (got.shape, e2.shape, info()))
        return
    if np.ndim(unit) and np.size(got) == len(phi) * np.size(unit):
        unit = np.broadcast_to(np.asarray(unit), (len(phi), np.size(unit))).reshape(got.shape)
    d = ref.maxdiff(got / unit, e2 / unit)
    out.check(d <= tol, key + ":value", lambda: "max difference %g (NaN mismatch = inf); got %s expected %s; %s" % (
        d, np.array2string(got, precision=5, threshold=40), np.array2string(e2, precision=5, threshold=40), info()))
    same = all(np.array_equal(a, b, equal_nan=True) for a, b in zip(keep, (Q, U, L, ph))) and (
        w is None or np.array_equal(W, w, equal_nan=True))
    out.check(same, key + ":inputs", lambda: "caller's arrays were modified; " + info())
    out.state(got)


def run(case, out):
    k = case["kind"]
    f = None
    if k in "ABCS":
        n, npix = case["n"], case["npix"]
        f = ref.freqs(case["f"], n)
        lsq = ref.lamsq(f)
        phi = ref.PHIS[case["phi"]]
        w = wvec(case["w"])
        rank = str(case["rank"])
        shape = {"1": (), "2": (npix,), "3r": (1, npix), "3c": (npix, 1)}[rank]
        amp = np.linspace(1.0, 1.7, n)[:, None] * np.linspace(1, 1.3, npix)[None, :]
        letters = case["vox"]
        scale = case.get("s", 1.0)
        unit = np.array([1.0, 1e-9][:npix]) if scale == "mixed" else scale
        for assign in itertools.product(letters, repeat=n * npix):
            v = np.array([VOX[c] for c in assign]).reshape(n, npix, 2)
            q, u = v[..., 0] * amp * unit, v[..., 1] * amp[::-1] * unit
            call_and_compare(out, q, u, lsq, phi, w, case["lam0"], shape, 6e-5, k,
                             lambda: "voxels=%s w=%s" % ("".join(assign), case["w"]), case["dt"], unit)
        out.sig = k + case["phi"]
    elif k == "D":
        n, shape = case["n"], tuple(case["shape"])
        npix = shape[0] * shape[1]
        lsq = ref.lamsq(ref.freqs(case["f"], n))
        phi = ref.PHIS[case["phi"]]
        base_q = np.cos(np.arange(n * npix) * 1.7).reshape(n, npix) + 0.2
        base_u = np.sin(np.arange(n * npix) * 0.9 + 1).reshape(n, npix)
        vox = [(c, p) for c in range(n) for p in range(npix)]
        sets = [()] + [s for r in range(1, case["nflag"] + 1) for s in itertools.combinations(vox, r)]
        sets += [tuple((c, p) for c in range(n)) for p in range(npix)]  # dead pixel
        sets += [tuple((c, p) for p in range(npix)) for c in range(n)]  # dead channel
        sets += [tuple((c, p) for p in range(npix) for c in range(n) if c != 1)]
        sets += [tuple(vox)]
        for s in sets:
            for which in ("q", "u"):
                q, u = base_q.copy(), base_u.copy()
                for c, p in s:
                    (q if which == "q" else u)[c, p] = np.nan
                for w in (None, np.array([1.0, 0.2, 3.0, 0.0])):
                    call_and_compare(out, q, u, lsq, phi, w, None, shape, 6e-5, k,
                                     lambda: "flags %s in %s, w=%s" % (s, which, w), case["dt"])
    elif k == "L":
        n, shape = case["n"], tuple(case["shape"])
        npix = int(np.prod(shape))
        lsq = ref.lamsq(ref.freqs(case["f"], n))
        i = np.arange(n * npix).reshape(n, npix)
        q, u = np.cos(1.7 * i) * (1 + i % 11), np.sin(0.9 * i + 1) * (1 + i % 13)
        if case["few"] == 2:  # channels with one good pixel only
            q[2, np.arange(npix) != npix // 2] = np.nan
            u[5, 1:] = np.nan
        elif case["few"] == 3:  # almost everything flagged
            q[:, np.arange(npix) != npix - 1] = np.nan
            u[1:5, -1] = np.nan
        elif case["few"]:
            q[2, npix // 2] = u[n - 1, npix - 1] = np.nan
        else:
            q[(i * 7919) % 5 == 1] = np.nan
            u[(i * 104729) % 7 == 3] = np.nan
            q[:, ::17] = np.nan
        for w in (None, 0.3 + np.arange(n) % 3):
            call_and_compare(out, q, u, lsq, ref.PHIS[case["phi"]], w, None, shape, 6e-5 * 13, k, lambda: "%d flags" % np.isnan(q + u).sum(), case["dt"])
    else:
        n, nphi = case["n"], case["nphi"]
        f = np.linspace(0.9e9, 1.7e9, n) if n > 1 else np.array([1.2e9])
        lsq = ref.lamsq(f)
        phi = np.linspace(-case["pmax"], case["pmax"], nphi) if nphi > 1 else np.array([case["pmax"]])
        i = np.arange(n)
        q = np.cos(2 * 0.37 * i) * (1 + 0.1 * np.sin(i))
        u = np.sin(2 * 0.37 * i) * (1 + 0.1 * np.cos(3 * i))
        for step in (0, 2, 7):
            q1 = q.copy()
            if step:
                q1[::step] = np.nan
            for w in (None, 1.0 / (1 + (i % 5))):
                for sh in ((), (1,), (1, 1)):
                    call_and_compare(out, q1[:, None], u[:, None], lsq, phi, w, None, sh, 3e-4, k,
                                     lambda: "step=%d" % step, case["dt"])
    out.state(k, str(case)[:200])


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
