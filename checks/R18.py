"""R18: axis arrays built from headers match the header's world coordinates."""
import itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, cubes
import numpy as np
from fractions import Fraction
from astropy.io import fits as pf
import RMtools_3D.make_freq_file as FF
import RMtools_3D.do_RMsynth_3D as S3
from RMutils.util_RM import fits_make_lin_axis

PID, LEVEL = "R18", "exploration"
RULE = ("one evaluation = one axis description; all combinations of axis length, axis position, reference value, reference pixel (integer, fractional, outside) and increment of both signs are enumerated; "
        "non-trivial = more than one pixel")
ASSUMPTIONS = ["values are compared with exact rational arithmetic to 1e-12 of the largest term (frequency files: 1e-12, they go through text)"]
CHUNK = 1
LEN = [1, 2, 3, 5, 10, 288]
VAL = [0.0, -100.0, 1.4e9, 0.1, 3.3333333333333335, 943490740.7407407]
PIX = [1.0, 0.0, 0.5, 2.75, -3.0, 144.5, 1e4]
INC = [1.0, -1.0, 0.1, -0.1, 1 / 3.0, -2.5, 1e6, -1e6, 925925.925925926, -0.7, 1e-3, 7.3]
LAY = ["xyf", "xyfs", "xysf", "xyfd", "xydf", "xfy", "fxy", "fsxy", "sfxy", "xysdf"]


def cases(tier):
    big = tier == "thorough"
    for dtype in ("f8", "f4"):
        for n in LEN + [4, 7, 33, 1000, 4097] * big:
            for ax in range(0, 4):
                yield dict(kind="lin", n=n, ax=ax, dtype=dtype)
    for lay in LAY:
        for n in (1, 2, 5, 17) if not big else (1, 2, 3, 5, 7, 17, 288):
            yield dict(kind="file", lay=lay, n=n, big=big)
    for naxis in (1, 2, 3, 4, 5):
        yield dict(kind="find", naxis=naxis)


def exact(n, val, pix, inc):
    v, p, d = Fraction(val), Fraction(pix), Fraction(inc)
    return [float(v + (i + 1 - p) * d) for i in range(n)]


def run(case, out):
    if case["kind"] == "lin":
        n, ax = case["n"], case["ax"]
        for val, pix, inc in itertools.product(VAL, PIX, INC):
            h = pf.Header()
            h["NAXIS"] = 4
            for k in range(1, 5):
                h["NAXIS%d" % k] = n if k == ax + 1 else 6
                h["CRVAL%d" % k] = val if k == ax + 1 else 5.0
                h["CRPIX%d" % k] = pix if k == ax + 1 else 1.0
                h["CDELT%d" % k] = inc if k == ax + 1 else 2.0
            h0 = h.copy()
            a = np.asarray(fits_make_lin_axis(h, axis=ax, dtype=case["dtype"]))
            out.step()
            out.ev(n > 1)
            info = lambda: "axis %d of %d pixels, value %r reference pixel %r increment %r: " % (ax, n, val, pix, inc)
            out.check(h == h0, "header", "header modified")
            if out.check(a.shape == (n,), "length", lambda: info() + "%s values" % (a.shape,)):
                w = np.array(exact(n, val, pix, inc))
                tol = (1e-12 if case["dtype"] == "f8" else 3e-7) * (abs(val) + (abs(pix) + n) * abs(inc))
                out.check(np.all(np.abs(a - w) <= tol), "value", lambda: info() + "%s expected %s" % (a[:5], w[:5]))
                if n < 20:
                    out.state(a)
    elif case["kind"] == "file":
        lay, n = case["lay"], case["n"]
        with mc.scratch("r18") as d:
            k = 0
            for val, pix, inc in itertools.product([1.4e9, 943490740.7407407, 8e7], [1.0, 0.0, 0.5, 3.0, -2.25, 50.0], [1e6, -1e6, 925925.925925926, -18518.5, 7e7]):
                f = val + (np.arange(n) + 1 - pix) * inc
                if f.min() <= 0:
                    continue
                k += 1
                fake = np.array([val, val + inc])
                h = cubes.header(lay, (2, 3), freqs=np.full(n, val))
                a = lay.index("f") + 1
                h["CRVAL%d" % a], h["CRPIX%d" % a], h["CDELT%d" % a] = val, pix, inc
                shape = [h["NAXIS%d" % i] for i in range(1, len(lay) + 1)][::-1]
                if k % 3 == 0:
                    h["RESTFRQ"] = 1.42040575e9
                if k % 4 == 1:
                    h["SPECSYS"] = "TOPOCENT"
                unit = {2: ("MHz", 1e6), 3: ("GHz", 1e9)}.get(k % 5)
                if unit:
                    h["CUNIT%d" % a] = unit[0]
                    h["CRVAL%d" % a], h["CDELT%d" % a] = val / unit[1], inc / unit[1]
                pf.PrimaryHDU(np.zeros(shape, "f4"), h).writeto("c.fits", overwrite=True)
                info = lambda: "%s cube, %d channels, value %r reference pixel %r increment %r %s: " % (lay, n, val, pix, inc, unit)
                ff, FF.main = getattr(FF, "main", None), FF.save_freq_file
                try:
                    got = cubes.run_main(FF, ["c.fits", "f.dat"])
                finally:
                    if ff is None:
                        del FF.main
                out.step()
                out.ev(n > 1)
                if not out.check(got == "ok" and os.path.exists("f.dat"), "run", lambda: info() + "no file"):
                    continue
                b = np.atleast_1d(np.loadtxt("f.dat"))
                arr = np.atleast_1d(FF.get_freq_array("c.fits"))
                w = np.array(exact(n, val, pix, inc))
                for nm, v in (("file", b), ("array", arr)):
                    if out.check(v.shape == (n,), "length", lambda: info() + "%s has %s values" % (nm, v.shape)):
                        out.check(np.all(np.abs(v - w) <= 1e-11 * (abs(val) + (abs(pix) + n) * abs(inc))), "value", lambda: info() + "%s %s expected %s" % (nm, v[:5], w[:5]))
                # the cube reader puts this axis first
                hd, data = S3.readFitsCube("c.fits", False)
                out.check(S3.find_freq_axis(hd) == a, "find", lambda: info() + "frequency axis %s found" % S3.find_freq_axis(hd))
                out.check(data.shape[0] == n, "cube", lambda: info() + "cube read as %s" % (data.shape,))
                out.state(b)
                os.remove("f.dat")
    else:
        m = case["naxis"]
        types = ["RA---SIN", "DEC--SIN", "STOKES", "FREQ", "Frequency", "OBSFREQ", "freq-LSR", None, "VELO-F2V"]
        for combo in itertools.product(range(len(types)), repeat=m if m <= 4 else 0):
            isf = [types[t] is not None and "FREQ" in types[t].upper() for t in combo]
            if sum(isf) > 1:
                continue
            h = pf.Header()
            h["NAXIS"] = m
            for k, t in enumerate(combo):
                h["NAXIS%d" % (k + 1)] = 2
                if types[t] is not None:
                    h["CTYPE%d" % (k + 1)] = types[t]
            out.step()
            out.ev(any(isf))
            want = isf.index(True) + 1 if any(isf) else 0
            out.check(S3.find_freq_axis(h) == want, "find", lambda: "axis types %s: frequency axis %s" % ([types[t] for t in combo], S3.find_freq_axis(h)))
            out.state(combo)
    out.sig = case["kind"]


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
