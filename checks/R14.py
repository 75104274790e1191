"""R14: splitting a cube into chunks and reassembling restores it."""
import glob, itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref, cubes
import numpy as np
import astropy.io.fits as pf
import RMtools_3D.create_chunks as CC
import RMtools_3D.assemble_chunks as AC
import RMtools_3D.do_RMsynth_3D as S3
import RMtools_3D.RMpeakfit_3D as PF

PID, LEVEL = "R14", "model_checking"
RULE = ("one evaluation = one history of tool runs in one directory: split+assemble for every image shape, chunk size, data type and file name; all sequences up to the "
        "depth bound of {split with size A/B, split A/B stopped after its first chunk, delete first/last chunk, assemble, assemble with overwrite}; and synthesis/peak fits on chunks; non-trivial = more than one chunk")
ASSUMPTIONS = ["scaled integer data (BSCALE/BZERO) needs -m, as astropy says when it refuses to memory-map it", "further HDUs are documented to be lost"]
CHUNK = 4
DT = ["f4", "f8", "i2", "i4", "u1", "u2m", "f4m", "f8n"]
NAMES = ["a.fits", "b.c.fits", "c.C3.fits", "d[1].fits", "e*?.fits", "f.C12.x.fits", "noext", "g h.fits", "C1.fits", ".C7.fits", "C0.C0.C0.fits"]
DIRS = ["", "d.C1.x/", "[q]/", "s.p/", "x.fits.d/"]


def tool(mod, *argv):
    try:
        return cubes.run_main(mod, argv) == "ok"
    except Exception as e:
        return repr(e)


def cases(tier):
    big = tier == "thorough"
    out = []
    for nd in (2, 3, 4):
        for ny in range(1, 5 if big else 4):
            for nx in range(1, 6 if big else 5):
                for dt in DT:
                    if not big and dt not in ("f4", "u2m") and (nx + ny + nd + len(dt)) % 3:
                        continue
                    out.append(dict(kind="rt", nd=nd, ny=ny, nx=nx, dt=dt))
    for nd in (2, 3, 4):
        for dt in DT:
            out.append(dict(kind="rt", nd=nd, ny=31 if nd == 2 else 12, nx=37 if nd == 2 else 13, dt=dt))
    for nd, ny, nx in ((2, 5, 2), (3, 2, 5), (4, 1, 10), (2, 10, 10), (3, 20, 5)):  # exactly 10 and 100 chunks
        out.append(dict(kind="rt", nd=nd, ny=ny, nx=nx, dt="f4"))
    for n in range(len(NAMES)):
        for d in range(len(DIRS)):
            for p in range(3):
                out.append(dict(kind="name", name=n, dir=d, pre=p))
    depth = 6 if big else 5
    for ny, nx in ((1, 4), (2, 2), (3, 4)) if big else ((2, 2), (3, 4)):
        for a, b in ((1, 2), (2, 3), (5, 1)) if nx == 4 and ny == 3 else ((1, 2), (3, 2), (4, 1)):
            for first in range(8):
                out.append(dict(kind="hist", ny=ny, nx=nx, a=a, b=b, first=first, depth=depth))
    for arr in ("xyf", "xyfs", "xysf"):
        for sh in ((2, 3), (1, 3), (3, 1), (1, 1)):
            for n in (1, 2, 4, 7):
                for opt in ("", "f") if big or n == 2 else ("",):
                    out.append(dict(kind="tool", arr=arr, ny=sh[0], nx=sh[1], n=n, opt=opt))
    for arr in ("xyf", "xyfs", "xysf"):  # larger instances: chunk numbers of several digits
        for sh, n in (((9, 13), 10), ((20, 7), 13), ((5, 23), 1)) if big else (((9, 13), 10),):
            out.append(dict(kind="tool", arr=arr, ny=sh[0], nx=sh[1], n=n, opt=""))
    return out


def original(nd, ny, nx, dt):
    shape = {2: (ny, nx), 3: (3, ny, nx), 4: (2, 3, ny, nx)}[nd]
    a = np.arange(np.prod(shape)).reshape(shape) + 1
    t = dt.replace("m", "").replace("n", "")
    a = (a % 250).astype(t) if t == "u1" else (a * (-3 if t[0] in "if" else 7)).astype(t)
    if dt == "f8n":
        a = a.astype("f8")
        a.ravel()[::3] = np.nan
    h = pf.Header()
    for i in range(nd):
        k = str(i + 1)
        h["CTYPE" + k] = ("RA---SIN", "DEC--SIN", "FREQ", "STOKES")[i]
        h["CRVAL" + k], h["CRPIX" + k], h["CDELT" + k] = 10.0 + i, 2.0 + i, 0.1 * (i + 1)
    h["BUNIT"], h["LAMSQ0"], h["OBJECT"] = "Jy/beam", 0.0123456789, "x"
    h["HISTORY"] = "one"
    h["COMMENT"] = "two"
    return a, h


def same_file(path, a, h0):
    """None or what differs from data a and header h0"""
    with pf.open(path, memmap=False) as hd:
        b, h = hd[0].data, hd[0].header
        if b is None or b.shape != a.shape:
            return "shape %s instead of %s" % (None if b is None else b.shape, a.shape)
        if b.dtype.newbyteorder("=") != a.dtype.newbyteorder("="):
            return "data type %s instead of %s" % (b.dtype, a.dtype)
        if not np.array_equal(b, a, equal_nan=a.dtype.kind == "f"):
            return "%d of %d values differ" % (np.sum(~((b == a) | (np.isnan(b.astype(float)) & np.isnan(a.astype(float))))), a.size)
        k = [q for q in set(h0) | set(h) if q not in ("EXTEND", "OLDXDIM", "OLDYDIM") and str(h.get(q)) != str(h0.get(q))]
        if k or "OLDXDIM" in h:
            return "header cards %s differ" % sorted(k)
    if os.path.getsize(path) % 2880:
        return "file size %d is not a multiple of the FITS block" % os.path.getsize(path)
    return None


def check_chunks(files, a, n):
    """chunks partition the image in order"""
    ny, nx = a.shape[-2:]
    flat = [a[..., p % ny, p // ny] for p in range(nx * ny)]
    p = 0
    for i, f in enumerate(files):
        b = pf.getdata(f)
        if b.shape[:-1] != a.shape[:-2] + (1,):
            return "chunk %d has shape %s" % (i, b.shape)
        if b.shape[-1] != min(n, nx * ny - i * n):
            return "chunk %d has %d pixels" % (i, b.shape[-1])
        for j in range(b.shape[-1]):
            if not np.array_equal(b[..., 0, j], flat[p], equal_nan=a.dtype.kind == "f"):
                return "pixel %d of chunk %d is not pixel %d of the image" % (j, i, p)
            p += 1
    return None if p == nx * ny else "%d of %d pixels are in chunks" % (p, nx * ny)


def chunkfiles(prefix, end=".fits"):
    return sorted(glob.glob(glob.escape(prefix) + ".C*" + glob.escape(end)))


def run(case, out):
    globals()["run_" + case["kind"]](case, out)


def run_rt(case, out):
    a, h = original(case["nd"], case["ny"], case["nx"], case["dt"])
    npix = case["ny"] * case["nx"]
    m = ["-m"] if "m" in case["dt"] else []
    sizes = range(1, npix + 2) if npix < 100 else ((1,) if case["dt"] == "f4" and (case["nd"] == 2 or npix == 100) else ()) + (10, 20, 31, 77, npix - 1, npix, -(-npix // 10))
    for n in sizes:
        info = lambda: "%d axes, image %dx%d (y,x), %d pixels per chunk, %s" % (case["nd"], case["ny"], case["nx"], n, case["dt"])
        with mc.scratch("r14"):
            pf.writeto("a.fits", a, h)
            h0 = pf.getheader("a.fits")
            raw = open("a.fits", "rb").read()
            r = tool(CC, "a.fits", n, *m)
            out.step(2)
            out.ev(n < npix)
            if not out.check(r is True, "create", lambda: "splitting failed: %s; %s" % (r, info())):
                continue
            out.check(open("a.fits", "rb").read() == raw, "input", lambda: "input changed; " + info())
            fs = chunkfiles("a")
            c = check_chunks(fs, a, n)
            if not out.check(c is None, "chunks", lambda: "%s; %s" % (c, info())):
                continue
            os.remove("a.fits")
            r = tool(AC, fs[(n * 7) % len(fs)], *m)
            if not out.check(r is True, "assemble", lambda: "assembling failed: %s; %s" % (r, info())):
                continue
            c = same_file("a.fits", a, h0)
            out.check(c is None, "restore", lambda: "%s; %s" % (c, info()))
            out.state(open("a.fits", "rb").read(), n)
            r = tool(AC, fs[0], "-f", "other.x", *m)
            c = same_file("other.x", a, h0) if r is True else r
            out.check(c is None, "restore", lambda: "named output: %s; %s" % (c, info()))
    out.sig = case["dt"] + str(case["nd"])


def run_name(case, out):
    name, d, p = NAMES[case["name"]], DIRS[case["dir"]], (None, "p.C5", "q[0]*")[case["pre"]]
    a, h = original(3, 2, 3, "f4")
    for n in (1, 2, 6):
        info = lambda: "file %r, prefix %r, %d pixels per chunk" % (d + name, p, n)
        with mc.scratch("r14"):
            if d:
                os.makedirs(d)
            pf.writeto(d + name, a, h)
            h0 = pf.getheader(d + name)
            # decoys: other files must neither be read nor changed
            pre = os.path.splitext(d + name)[0] if p is None else d + p
            decoys = [pre + "x.C0.fits", pre + ".Cx.fits", pre + ".C1.C0.fits", pre + ".C0.other.fits", d + "1.C0.fits"]
            for q in decoys:
                open(q, "w").write("decoy")
            argv = [d + name, n] + (["-p", pre] if p is not None else [])
            before = set(glob.glob(d and glob.escape(d) + "*" or "*") + glob.glob("*") + [q for q in os.listdir(d or ".")])
            ls = lambda: set(os.path.join(d, q) for q in os.listdir(d or "."))
            before = ls()
            r = tool(CC, *argv)
            out.step(2)
            out.ev(True)
            if not out.check(r is True, "create", lambda: "splitting failed: %s; %s" % (r, info())):
                continue
            fs = sorted(ls() - before)
            if not out.check(len(fs) == -(-6 // n) and check_chunks(fs, a, n) is None, "names", lambda: "chunks %s; %s" % (fs, info())):
                continue
            os.remove(d + name)
            before = ls()
            r = tool(AC, fs[-1])
            if not out.check(r is True, "assemble", lambda: "assembling failed: %s; %s" % (r, info())):
                continue
            new = sorted(ls() - before)
            want = [pre + ".fits"]
            if not out.check(new == want, "names", lambda: "assembling created %s expected %s; %s" % (new, want, info())):
                continue
            c = same_file(new[0], a, h0)
            out.check(c is None, "restore", lambda: "%s; %s" % (c, info()))
            out.check(all(open(q).read() == "decoy" for q in decoys), "decoy", lambda: "an unrelated file was changed; " + info())
            out.state(new[0], n)
    out.sig = "%d%d" % (case["name"], case["pre"])


def run_hist(case, out):
    """explicit-state exploration of tool histories; the directory content is the state"""
    ny, nx = case["ny"], case["nx"]
    a, h = original(3, ny, nx, "f4")
    npix = ny * nx
    OPS = [("split", case["a"]), ("split", case["b"]), ("delfirst",), ("dellast",), ("assemble", False), ("assemble", True), ("stopped", case["a"]), ("stopped", case["b"])]
    with mc.scratch("r14"):
        pf.writeto("src.fits", a, h)
        h0 = pf.getheader("src.fits")
        cache = {}
        seen = set()

        def put(state):
            for q in glob.glob("z*"):
                os.remove(q)
            for q, b in state.items():
                open(q, "wb").write(b)

        def get():
            return {q: open(q, "rb").read() for q in glob.glob("z*")}

        import hashlib
        key = lambda st: tuple(sorted((q, hashlib.sha1(b).digest()) for q, b in st.items()))
        stale = open("src.fits", "rb").read()[:2880] + b"old" * 960

        def step(state, op, trace):
            k = (key(state), op)
            if k in cache:
                return cache[k]
            put(state)
            info = lambda: "image %dx%d, history %s" % (ny, nx, trace + [op])
            out.step()
            ch = chunkfiles("z")
            if op[0] == "split":
                r = tool(CC, "src.fits", op[1], "-p", "z")
                num = -(-npix // op[1])
                mine = ["z.C%0*d.fits" % (len(str(num)), i) for i in range(num)]
                st = get()
                out.check(r is True and all(q in st for q in mine) and check_chunks(mine, a, op[1]) is None and all(st[q] == state.get(q) for q in st if q not in mine), "split", lambda: "splitting wrote the wrong files (%s); %s" % (r, info()))
            elif op[0] == "stopped":  # a split that ended after its first chunk
                tool(CC, "src.fits", op[1], "-p", "z")
                q = "z.C%0*d.fits" % (len(str(-(-npix // op[1]))), 0)
                put(dict(state, **{q: open(q, "rb").read()}))
                st = get()
            elif op[0].startswith("del"):
                if ch:
                    os.remove(ch[0] if op[0] == "delfirst" else ch[-1])
                st = get()
            else:
                over = op[1]
                if ch:
                    r = tool(AC, ch[len(ch) // 2], *(["-o"] if over else []))
                    st = get()
                    # complete = exactly the chunks of one split
                    sizes = [pf.getheader(q)["NAXIS1"] for q in ch]
                    n = max(sizes)
                    num = -(-npix // n)
                    complete = len(ch) == num and sizes == [min(n, npix - i * n) for i in range(num)] and ch == ["z.C%0*d.fits" % (len(str(num)), i) for i in range(num)]
                    rest = lambda s: {q: b for q, b in s.items() if q != "z.fits"}
                    out.check(rest(st) == rest(state), "assemble-inputs", lambda: "assembling changed chunks; " + info())
                    if complete and (over or "z.fits" not in state):
                        c = same_file("z.fits", a, h0) if r is True else r
                        out.check(c is None, "restore", lambda: "%s; %s" % (c, info()))
                        out.ev(num > 1)
                    else:
                        out.check(r is not True, "refuse", lambda: "assembling succeeded with chunks %s; %s" % (ch, info()))
                        out.check(st.get("z.fits") == state.get("z.fits"), "refuse", lambda: "a refused assembly created or changed the output file; " + info())
                        out.ev(True)
                else:
                    st = state
            cache[k] = st
            return st

        def go(state, trace, left):
            k = (key(state), left)
            if left == 0 or k in seen:
                return
            seen.add(k)
            out.state(repr(key(state)))
            for op in OPS:
                go(step(state, op, trace), trace + [op], left - 1)

        for start in ({}, {"z.fits": stale}):
            st = step(start, OPS[case["first"]], [])
            go(st, [OPS[case["first"]]], case["depth"] - 1)
    out.sig = "%d,%d" % (case["a"], case["b"])


def run_tool(case, out):
    """synthesis and peak fitting of chunks, then assembly = the same on the whole cube"""
    ny, nx, n, arr = case["ny"], case["nx"], case["n"], case["arr"]
    N = 6
    f = ref.freqs("irr", N)
    l = ref.lamsq(f)
    P = np.zeros((N, ny, nx), complex)
    for p in range(ny * nx):
        j = p if p < 7 else p % 7 + 0.004 * (p // 7)
        P.reshape(N, -1)[:, p] = (0.2 + 0.13 * j) * np.exp(2j * (0.3 * j + (-45 + 15 * j) * l)) + 0.03 * np.cos(7 * np.arange(N) + p)
    P.reshape(N, -1)[:, 0] *= np.where(np.arange(N) == 2, np.nan, 1) if ny * nx > 1 and n > 1 else 1
    info = lambda: "arrangement %s image %dx%d, %d pixels per chunk" % (arr, ny, nx, n)
    fopt = ["-f"] if case["opt"] == "f" else []
    opts = ["-l", "100", "-d", "10"]
    with mc.scratch("r14"):
        np.savetxt("freqs.dat", f)
        cubes.write("Q.fits", P.real, arr, freqs=f, stokes=2)
        cubes.write("U.fits", P.imag, arr, freqs=f, stokes=3)
        r = [tool(S3, "Q.fits", "U.fits", "freqs.dat", "-o", "w.", *opts), tool(PF, "w.FDF_tot_dirty.fits", "freqs.dat", "w.m_", "-a"), tool(CC, "Q.fits", n), tool(CC, "U.fits", n)]
        if not out.check(all(x is True for x in r), "tool", lambda: "%s; %s" % (r, info())):
            return
        for q in chunkfiles("Q"):
            c = q.split(".")[1]
            r = [tool(S3, q, q.replace("Q.", "U."), "freqs.dat", "-o", "k.%s." % c, *opts), tool(PF, "k.%s.FDF_real_dirty.fits" % c, "freqs.dat", "k.%s.m_" % c, "-a")]
            out.step(2)
            if not out.check(all(x is True for x in r), "tool", lambda: "chunk %s: %s; %s" % (c, r, info())):
                return
        out.ev(n < nx * ny)
        digits = q.split(".")[1]
        maps = ["m_phiPeakPIfit_rm2", "m_ampPeakPIfit", "m_fwhmRMSF", "m_polAngle0Fit_deg", "RMSF_FWHM"]
        for prod in ["FDF_real_dirty", "FDF_im_dirty", "FDF_tot_dirty", "RMSF_real", "RMSF_im"] + maps:
            r = tool(AC, "k.%s.%s.fits" % (digits, prod))
            if not out.check(r is True, "assemble", lambda: "assembling %s failed: %s; %s" % (prod, r, info())):
                continue
            (a, ha), (b, hb) = cubes.read("w.%s.fits" % prod), cubes.read("k.%s.fits" % prod)
            ok = a.shape == b.shape and np.allclose(a, b, rtol=1e-3, atol=1e-4 if prod in maps else 1e-5 * np.nanmax(np.abs(a)), equal_nan=True)
            out.check(ok, "tool-restore", lambda: "%s of assembled chunks differs from that of the whole cube (shapes %s %s, difference %g); %s" % (prod, b.shape, a.shape, ref.maxdiff(a, b) if a.shape == b.shape else -1, info()))
            keys = [k % i for k in ("CRVAL%d", "CRPIX%d", "CDELT%d", "CTYPE%d") for i in range(1, len(arr) + 1)]
            bad = [k for k in keys if ha.get(k) != hb.get(k)]
            out.check(not bad, "tool-header", lambda: "%s: header cards %s differ from those of the whole cube; %s" % (prod, bad, info()))
            out.state(a, prod)
    out.sig = arr


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
