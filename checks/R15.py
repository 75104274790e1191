"""R15: region extraction cuts exactly the requested box."""
import itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, cubes
import numpy as np
from astropy.io import fits as pf
from astropy.wcs import WCS
import RMtools_3D.extract_region as XR

PID, LEVEL = "R15", "exploration"
RULE = ("one evaluation = one cutout; all boxes (corners on, inside, beyond the image edge and -1) of all images up to 4x4 (quick: 3x4) with 2, 3 and 4 axes, all plane ranges incl. -1, "
        "corner and centre notation, data types and world-coordinate systems are enumerated; non-trivial = the box is not the whole image")
ASSUMPTIONS = ["boxes with no pixel inside the image, fractional pixel coordinates and the unimplemented sky mode are not exercised"]
CHUNK = 2
LAY = ["yx", "cyx", "1yx", "c1yx", "1cyx", "ccyx"]  # numpy order
SHAPES = [(3, 4), (1, 3), (3, 1), (1, 1), (2, 2)]
NC = 3


def cases(tier):
    big = tier == "thorough"
    for lay in LAY:
        for sh in SHAPES + [(4, 4), (4, 3)] * big:
            for dt in ("f4", "f8", "i2", "scaled") if big or lay in ("yx", "cyx") and sh == (3, 4) else ("f4",):
                for wcs in ("plain", "rot", "nowcs") if big or sh == (3, 4) and dt == "f4" else ("plain",):
                    for mode in ("corner", "centre"):
                        yield dict(lay=lay, shape=list(sh), dt=dt, wcs=wcs, mode=mode, big=big)
        for sh in ((37, 53), (101, 13)):  # larger instances
            for wcs in ("plain", "rot"):
                for mode in ("corner", "centre"):
                    yield dict(lay=lay, shape=list(sh), dt="f4", wcs=wcs, mode=mode, big=big, large=19)


def make(case, path):
    ny, nx = case["shape"]
    lay, dt = case["lay"], case["dt"]
    sz = {"y": ny, "x": nx, "c": case.get("large", NC), "1": 1}
    shape = tuple(sz[c] for c in lay)
    if lay == "ccyx":
        shape = (2,) + shape[1:]
    a = (np.arange(int(np.prod(shape))) * 3 + 1).reshape(shape)
    h = pf.Header()
    if case["wcs"] != "nowcs":
        for i, c in enumerate(lay[::-1]):
            k = str(i + 1)
            if c in "xy":
                t, u, v, p, d = cubes.SKY[c]
            elif c == "c" and i == 2:
                t, u, v, p, d = "FREQ", "Hz", 1e9, 2.0, -1e6
            elif c == "c":
                t, u, v, p, d = "FARDEPTH", "rad/m2", -10.0, 1.5, 2.5
            else:
                t, u, v, p, d = "STOKES", "", 1.0, 1.0, 1.0
            for key, val in zip(("CTYPE", "CUNIT", "CRVAL", "CRPIX", "CDELT"), (t, u, v, p, d)):
                h[key + k] = val
        if case["wcs"] == "rot":
            h["PC1_1"], h["PC1_2"], h["PC2_1"], h["PC2_2"] = 0.8, -0.6, 0.6, 0.8
            h["LONPOLE"], h["LATPOLE"] = 180.0, -12.25
    h["OBJECT"], h["BUNIT"], h["BMAJ"] = "TEST", "Jy/beam", 0.01
    if dt == "scaled":
        hdu = pf.PrimaryHDU(a.astype(float) * 0.5 + 10, h)
        hdu.scale("int16", bscale=0.5, bzero=10)
        hdu.writeto(path)
    else:
        a = a.astype(dt)
        if dt[0] == "f":
            a.reshape(-1)[::5] = np.nan
        pf.PrimaryHDU(a, h).writeto(path)
    with pf.open(path, memmap=False) as hd:
        return np.array(hd[0].data, dtype=float), hd[0].header.copy()


def span(lo, hi, n):
    lo = 1 if lo < 1 else lo
    hi = n if hi == -1 or hi > n else hi
    return lo, hi


def ends(n):
    """all (min, max) requests along an axis with n pixels, with at least one pixel inside"""
    if n > 6:
        m = n // 3
        yield from [(1, n), (m, m), (2, m), (m, n - 2), (n - 1, -1), (n, n + 40), (-1, m), (m + 1, n - m), (-7, n + 1)]
        return
    for lo in [-1, 0] + list(range(1, n + 1)):
        for hi in [-1] + list(range(1, n + 2)):
            a, b = span(lo, hi, n)
            if a <= b:
                yield lo, hi


def corners(wcs, lens, off):
    pts = np.array(list(itertools.product(*[(0, n - 1) for n in lens])), float) + np.array(off)
    return wcs.wcs_pix2world(pts, 0)


def run(case, out):
    ny, nx = case["shape"]
    lay = case["lay"]
    with mc.scratch("r15") as d:
        data, head = make(case, "in.fits")
        raw = open("in.fits", "rb").read()
        zax = None  # numpy index of the axis that -z cuts
        if len(lay) == 3:
            zax = 0
        elif len(lay) == 4:
            zax = 1 if data.shape[1] != 1 else 0
        zs = [None]
        if zax is not None:
            nz = data.shape[zax]
            zs += [z for z in ends(nz) if z[0] != 0 and z[1] <= nz]
        if case["mode"] == "corner":
            boxes = [(x, y) for x in ends(nx) for y in ends(ny)]
        else:
            few = lambda n: (range(1, n + 1), range(3)) if n < 7 else ((1, n // 3, n - 1), (0, 3, n // 2))
            boxes = [((cx - hx, cx + hx), (cy - hy, cy + hy)) for cx in few(nx)[0] for hx in few(nx)[1] for cy in few(ny)[0] for hy in few(ny)[1]]
        w0 = WCS(head) if case["wcs"] != "nowcs" else None
        n = 0
        for z in zs:
            # with a plane range, every box of an axis is combined with the full range of the other
            for ib, (bx, by) in enumerate(boxes):
                if z is not None and not case["big"] and ib % 17 != (sum(z) * 3 % 17):
                    continue
                n += 1
                x1, x2 = span(*bx, nx)
                y1, y2 = span(*by, ny)
                name = "out%d.fits" % n
                if case["mode"] == "corner":
                    box = [bx[0], bx[1], by[0], by[1]]
                    argv = ["in.fits", name] + box
                else:
                    box = [(bx[0] + bx[1]) // 2, (bx[1] - bx[0]) // 2, (by[0] + by[1]) // 2, (by[1] - by[0]) // 2]
                    argv = ["in.fits", name] + box + ["-c"]
                if z is not None:
                    argv += ["-z", z[0], z[1]]
                over = n % 4 == 0
                if over:
                    open(name, "wb").write(b"old")
                    argv += ["-o"]
                info = "layout %s shape %s type %s: extract %s" % (lay, data.shape, case["dt"], " ".join(map(str, argv)))
                try:
                    got = cubes.run_main(XR, argv)
                except Exception as e:
                    out.check(False, "crash", "%s: %r" % (info, e))
                    continue
                out.step()
                out.ev((x2 - x1 + 1, y2 - y1 + 1) != (nx, ny) or z is not None)
                if not out.check(got == "ok" and os.path.exists(name), "run", info + " did not complete"):
                    continue
                sl = [slice(None)] * data.ndim
                sl[-1], sl[-2] = slice(x1 - 1, x2), slice(y1 - 1, y2)
                off = [0] * data.ndim  # FITS order
                off[0], off[1] = x1 - 1, y1 - 1
                if z is not None:
                    z1, z2 = span(*z, data.shape[zax])
                    sl[zax] = slice(z1 - 1, z2)
                    off[data.ndim - 1 - zax] = z1 - 1
                want = data[tuple(sl)]
                res, h = cubes.read(name)
                same = res is not None and res.shape == want.shape
                out.check(same, "shape", lambda: "%s: array shape %s, the box has %s" % (info, None if res is None else res.shape, want.shape))
                if same:
                    out.check(np.array_equal(res, want, equal_nan=True), "data", lambda: "%s: got\n%s\nwanted\n%s" % (info, res, want))
                    if w0 is not None:
                        lens = want.shape[::-1]
                        a, b = corners(WCS(h), lens, [0] * data.ndim), corners(w0, lens, off)
                        out.check(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True), "wcs", lambda: "%s: world coordinates of the corner pixels\n%s\nwere\n%s" % (info, a, b))
                    for k in ("OBJECT", "BUNIT", "BMAJ"):
                        out.check(h.get(k) == head[k], "header", lambda: "%s: %s lost" % (info, k))
                    out.state(res, h.get("CRPIX1"), h.get("CRPIX2"))
                os.remove(name)
        # an existing file is kept unless asked otherwise
        open("keep.fits", "wb").write(b"precious")
        try:
            cubes.run_main(XR, ["in.fits", "keep.fits", 1, nx, 1, ny])
        except Exception:
            pass
        out.check(open("keep.fits", "rb").read() == b"precious", "overwrite", "an existing output file was overwritten without -o")
        out.check(open("in.fits", "rb").read() == raw, "input", "the input file was changed (layout %s)" % lay)
        out.sig = (lay, n)


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
