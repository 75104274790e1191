"""Boring reference models, written from the documentation / textbook definitions.
Nothing here imports RM-Tools."""
import itertools, math
import numpy as np

C = 299792458.0  # m/s


def lamsq(freq):
    return (C / np.asarray(freq, float)) ** 2


def clean_weights(w, n):
    w = np.ones(n) if w is None else np.array(w, float)
    return np.where(np.isnan(w), 0.0, w)


def ref_lam0(w, lsq, flagged):
    """weighted mean lambda^2 over channels with at least one unflagged voxel.
    flagged: (nchan, npix) bool"""
    good = ~np.all(flagged, axis=1)
    ww = w * good
    s = ww.sum()
    if s == 0:
        return 0.0
    return float((ww * lsq).sum() / s)


def ref_fdf(q, u, lsq, phi, w, lam0=None):
    """q,u: (nchan, npix). Direct sum. Pixels with nothing to transform -> NaN."""
    q = np.asarray(q, float)
    u = np.asarray(u, float)
    n, npix = q.shape
    w = clean_weights(w, n)
    flagged = np.isnan(q) | np.isnan(u)
    if lam0 is None:
        lam0 = ref_lam0(w, lsq, flagged)
    out = np.zeros((len(phi), npix), complex)
    norm = np.zeros(npix)
    for p in range(npix):
        s = 0.0
        acc = np.zeros(len(phi), complex)
        for c in range(n):
            if flagged[c, p]:
                continue
            s += w[c]
            acc += w[c] * (q[c, p] + 1j * u[c, p]) * np.exp(-2j * np.asarray(phi) * (lsq[c] - lam0))
        norm[p] = s
        out[:, p] = acc / s if s != 0 else np.nan
    return out, lam0, norm


def ref_rmsf(flagged, lsq, phi, w, lam0=None):
    n, npix = flagged.shape
    w = clean_weights(w, n)
    if lam0 is None:
        lam0 = ref_lam0(w, lsq, flagged)
    out = np.full((len(phi), npix), np.nan + 0j)
    for p in range(npix):
        ww = w * ~flagged[:, p]
        if ww.sum() == 0:
            continue
        acc = np.zeros(len(phi), complex)
        for c in range(n):
            if ww[c]:
                acc += ww[c] * np.exp(-2j * np.asarray(phi) * (lsq[c] - lam0))
        out[:, p] = acc / ww.sum()
    return out, lam0


def maxdiff(a, b):
    """largest |a-b| over entries where b is finite; entries where exactly one is NaN -> inf"""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    na, nb = np.isnan(a), np.isnan(b)
    if np.any(na != nb):
        return float("inf")
    d = np.abs(a - b)[~nb]
    return float(d.max()) if d.size else 0.0


FREQS = {
    "asc": np.array([0.9e9, 1.0e9, 1.15e9, 1.2e9, 1.4e9, 1.75e9]),
    "reg": 0.8e9 + 0.1e9 * np.arange(6),
}


def freqs(kind, n):
    """small channel layouts: 'reg' regular ascending, 'irr' irregular ascending, 'desc' descending"""
    if kind == "reg":
        return 0.8e9 + 0.1e9 * np.arange(n)
    if kind == "irr":
        f = np.cumsum(np.array([0.05, 0.12, 0.03, 0.2, 0.07, 0.15, 0.02, 0.11, 0.09, 0.04] * (n // 10 + 1)))[:n]
        return (0.8 + f) * 1e9
    if kind == "mix":  # neither ascending nor descending, extremes inside
        f = freqs("irr", n)
        return np.concatenate((f[1::2], f[0::2])) if n < 4 else np.roll(np.concatenate((f[1::2], f[0::2])), 1)
    if kind == "desc":
        return freqs("irr", n)[::-1].copy()
    raise ValueError(kind)


PHIS = {
    "odd": np.linspace(-60, 60, 7),
    "even": np.linspace(-50, 50, 6),
    "asym": np.linspace(-20, 90, 8),
    "pos": np.linspace(10, 40, 4),
    "one": np.array([15.0]),
    "irr": np.array([-70.0, -11.0, 2.0, 3.5, 50.0]),
}
