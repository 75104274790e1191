"""Small FITS cubes in every supported axis arrangement, and an independent reader."""
import os, sys
import numpy as np
from astropy.io import fits as pf

# axis letters in FITS order: x, y sky; f frequency; s degenerate Stokes; d other degenerate
ARR = ["xyf", "xyfs", "xysf", "xyfd", "xydf", "xfy", "fxy", "fsxy"]
SKY = {"x": ("RA---SIN", "deg", 83.5, 2.0, -0.01), "y": ("DEC--SIN", "deg", -12.25, 1.5, 0.01)}


def header(arr, shape, freqs=None, ctype=True, stokes=2, bunit="Jy/beam", extra=()):
    """FITS header for an arrangement; shape = (ny, nx)"""
    h = pf.Header()
    h["SIMPLE"] = True
    h["BITPIX"] = -32
    h["NAXIS"] = len(arr)
    n = {"x": shape[1], "y": shape[0], "s": 1, "d": 1, "f": len(freqs) if freqs is not None else 1}
    for i, a in enumerate(arr):
        h["NAXIS%d" % (i + 1)] = n[a]
    for i, a in enumerate(arr):
        k = str(i + 1)
        if a in SKY:
            t, u, v, p, d = SKY[a]
        elif a == "f":
            df = float(freqs[1] - freqs[0]) if len(freqs) > 1 else 1e6
            t, u, v, p, d = "FREQ", "Hz", float(freqs[0]), 1.0, df
        elif a == "s":
            t, u, v, p, d = "STOKES", "", float(stokes), 1.0, 1.0
        else:
            t, u, v, p, d = "BEAM", "", 1.0, 1.0, 1.0
        if ctype:
            h["CTYPE" + k] = t
            h["CUNIT" + k] = u
        h["CRVAL" + k] = v
        h["CRPIX" + k] = p
        h["CDELT" + k] = d
    if bunit is not None:
        h["BUNIT"] = bunit
    h["OBJECT"] = "TEST"
    for k, v in extra:
        h[k] = v
    return h


def to_fits_order(cube, arr):
    """cube (n, ny, nx) -> numpy array laid out for the FITS arrangement"""
    letters = "fyx"
    a = cube
    for c in arr:
        if c in "sd":
            a = a[None]
            letters = c + letters
    want = arr[::-1]
    return np.ascontiguousarray(np.transpose(a, [letters.index(c) for c in want]))


def from_fits_order(a, arr):
    """numpy array of a FITS file in the arrangement -> (n, ny, nx)"""
    letters = arr[::-1]
    if a.ndim != len(letters):
        raise ValueError("data have %d axes, expected %d" % (a.ndim, len(letters)))
    keep = [i for i, c in enumerate(letters) if c in "fyx"]
    drop = tuple(i for i, c in enumerate(letters) if c not in "fyx")
    if any(a.shape[i] != 1 for i in drop):
        raise ValueError("degenerate axis has length %s" % ([a.shape[i] for i in drop],))
    left = [letters[i] for i in keep]
    b = a.reshape([a.shape[i] for i in keep])
    return np.transpose(b, [left.index(c) for c in "fyx"])


def write(path, cube, arr, dtype="f4", **kw):
    h = header(arr, cube.shape[1:], **kw)
    pf.PrimaryHDU(to_fits_order(cube, arr).astype(dtype), h).writeto(path, overwrite=True, output_verify="silentfix")


def read(path, ext=0):
    with pf.open(path, memmap=False) as hd:
        return np.array(hd[ext].data, dtype=float) if hd[ext].data is not None else None, hd[ext].header.copy()


def axis_values(h, k, n=None):
    n = h["NAXIS%d" % k] if n is None else n
    return (np.arange(n) + 1 - h["CRPIX%d" % k]) * h["CDELT%d" % k] + h["CRVAL%d" % k]


def sky_same(h, arr, shape, at=None):
    """do the sky axes of header h describe the test cube's sky?  at: FITS axis numbers of x and y"""
    for c in "xy":
        k = (arr.index(c) + 1) if at is None else at[c]
        t, u, v, p, d = SKY[c]
        n = shape[1] if c == "x" else shape[0]
        for key, want in (("NAXIS", n), ("CRVAL", v), ("CRPIX", p), ("CDELT", d)):
            if h.get("%s%d" % (key, k)) != want:
                return "%s%d = %r, not %r" % (key, k, h.get("%s%d" % (key, k)), want)
    return None


def run_main(mod, argv, inputs=()):
    """run a tool's main() in this process; returns 'ok' or ('exit', code)"""
    old, oldin = sys.argv, None
    sys.argv = ["tool"] + [str(a) for a in argv]
    try:
        mod.main()
        return "ok"
    except SystemExit as e:
        return "ok" if e.code == 0 else "exit"
    finally:
        sys.argv = old
