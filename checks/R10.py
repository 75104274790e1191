"""R10: the 1-D command-line chain computes what the in-memory calls compute."""
import glob, hashlib, itertools, json, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref
import numpy as np
import matplotlib.figure
import RMtools_1D.do_RMsynth_1D as S1
import RMtools_1D.do_RMclean_1D as C1
from R09 import base
from R05 import measure, diff, noise_ref
from RMutils.util_RM import do_rmclean_hogbom

PID, LEVEL = "R10", "model_checking"
RULE = ("one evaluation = one command run inside a history; 'opt' enumerates option combinations x column layouts x file names, 'hist' all "
        "sequences of up to 3-4 commands over two data sets in one directory, each step compared with the run in an empty directory; "
        "non-trivial = the run is preceded by others or has non-default options")
ASSUMPTIONS = ["PDF plots are replaced by a stub file"]
CHUNK = 1

matplotlib.figure.Figure.savefig = lambda self, fname, *a, **k: open(fname, "w").write("figure")

class _Fig:
    def savefig(self, fname, *a, **k):
        open(fname, "w").write("figure")


def no_plots():
    """drawing takes most of the time of a run; keep it out of the histories"""
    for mod, name in ((S1, "plot_Ipqu_spectra_fig"), (S1, "plot_rmsf_fdf_fig"), (C1, "plot_clean_spec")):
        if hasattr(mod, name):
            setattr(mod, name, lambda *a, **k: _Fig())


SOPT = {  # flags -> keyword arguments of the documented API
    "def": ([], {}), "t": (["-t"], dict(fitRMSF=True)), "grid": (["-l", "120", "-d", "3"], dict(phiMax_radm2=120.0, dPhi_radm2=3.0)),
    "s": (["-s", "5"], dict(nSamples=5.0)), "w": (["-w", "uniform", "-l", "200"], dict(weightType="uniform", phiMax_radm2=200.0)),
    "lin": (["-f", "linear", "-o", "1"], dict(fit_function="linear", polyOrd=1)), "dyn": (["-o", "-3"], dict(polyOrd=-3)),
    "i": (["-i"], dict(noStokesI=True)), "b": (["-b", "-d", "4"], dict(nBits=64, dPhi_radm2=4.0)), "U": (["-U", "mJy", "-v"], dict(units="mJy")),
    "r": (["-r", "-l", "150"], dict(super_resolution=True, phiMax_radm2=150.0)), "all": (["-t", "-w", "uniform", "-i", "-b", "-s", "7"], dict(fitRMSF=True, weightType="uniform", noStokesI=True, nBits=64, nSamples=7.0)),
    "p": (["-p", "-D", "-v", "-l", "150"], dict(phiMax_radm2=150.0)),  # drawing, debugging and talking change no result
}
COPT = {"def": ([], {}), "abs": (["-c", "0.05"], dict(cutoff=0.05)), "win": (["-c", "-6", "-w", "-2"], dict(cutoff=-6.0, window=-2.0)), "winabs": (["-c", "0.1", "-w", "0.03"], dict(cutoff=0.1, window=0.03)),
        "n": (["-n", "7", "-c", "0.001"], dict(maxIter=7, cutoff=0.001)), "g": (["-g", "0.4", "-v"], dict(gain=0.4)),
        "p": (["-p", "-v", "-c", "-5"], dict(cutoff=-5.0))}
NAMES = {"plain": "src.dat", "dots": "J12.3-4.5.dat", "noext": "source", "space": "my dir/a b.txt", "suffix": "x_RMSF.dat", "sub": "d1/d.2/y.csv", "glob": "s[1]*.dat"}
LAYOUTS = ["7", "5", "7c", "7nan", "5nan", "7tab", "7big", "5big", "7small", "5small", "7long", "5long", "7nanlong"]


def write(path, lay, seed=0):
    b = base(300, seed=seed, noisyI=True, f=np.linspace(0.9e9, 1.7e9, 300)) if "long" in lay else base(12, seed=seed, noisyI=True)
    cols = [b[k] for k in (("f", "I", "Q", "U", "dI", "dQ", "dU") if lay[0] == "7" else ("f", "Q", "U", "dQ", "dU"))]
    A = np.array(cols).T
    # fluxes in microjansky or in kilojansky
    A[:, 1:] *= 3e5 if "big" in lay else 2e-5 if "small" in lay else 1.0
    if "nan" in lay:
        A[3, 1:] = np.nan
        A[7, 2] = np.nan
        A[9, -1] = np.nan
        A[100:130, 1:] = np.nan
    d = os.path.dirname(path)
    if d:
        os.makedirs(d, exist_ok=True)
    with open(path, "w") as f:
        if "c" in lay:
            f.write("# freq I Q U dI dQ dU\n#comment 1 2 3\n")
        for i, r in enumerate(A):
            f.write(("\t" if "tab" in lay else " ").join("%.9e" % x for x in r) + (" # note" if "c" in lay and i == 4 else "") + "\n")


def load(path):
    """independent reader"""
    rows = []
    for line in open(path):
        line = line.partition("#")[0].split()
        if line:
            rows.append([float(x) for x in line])
    return np.array(rows).T


def main_of(mod, argv):
    old = sys.argv
    sys.argv = ["tool"] + list(argv)
    try:
        mod.main()
        return "ok"
    except SystemExit as e:
        return "exit"
    finally:
        sys.argv = old


def tree():
    r = {}
    for d, _, fs in os.walk("."):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), ".")
            r[p] = hashlib.sha1(open(p, "rb").read()).hexdigest()
    return r


def num(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


def same_dict(a, b, t=1e-5):
    if set(a) != set(b):
        return "keys %s" % (set(a) ^ set(b))
    for k in a:
        x, y = num(a[k]), num(b[k])
        if x is None or y is None:
            if str(a[k]) != str(b[k]):
                return "%s: %r != %r" % (k, a[k], b[k])
        elif not (np.isnan(x) and np.isnan(y)) and x != y and abs(x - y) > t * abs(y):
            return "%s: %r != %r" % (k, a[k], b[k])
    return None


def keyval(path):
    return dict(line.rstrip("\n").split("=", 1) for line in open(path))


def table(out, path, cols, tag, info, t=1e-6):
    A = load(path)
    ok = A.shape == (len(cols), len(cols[0]))
    e = 0
    if ok:
        for g, c in zip(A, cols):
            c = np.asarray(c, float)
            s = np.nanmax(np.abs(c)) if np.any(np.isfinite(c)) else 1.0
            e = max(e, ref.maxdiff(g, c) / (s or 1.0))
    out.check(ok and e <= t, tag, lambda: "%s: shape %s expected %s, relative difference %g; %s" % (path, A.shape, (len(cols), len(cols[0])), e, info()))


SYN = ["_FDFdirty.dat", "_RMSF.dat", "_weight.dat", "_RMsynth.dat", "_RMsynth.json"]
CLN = ["_FDFclean.dat", "_FDFmodel.dat", "_RMclean.dat", "_RMclean.json"]
PLOTS = ["_spectra-plots.pdf", "_RMSF-dirtyFDF-plots.pdf", "_cleanFDF-plots.pdf"]
DEBUG = ["_debug-plots.pdf", ".debug-plots.pdf"]


def synth(path, o, out, info):
    flags, kw = SOPT[o]
    before = tree()
    rc = main_of(S1, [path, "-S"] + flags)
    out.step()
    after = tree()
    root = os.path.splitext(path)[0]
    allowed = {os.path.normpath(root + s) for s in SYN + PLOTS[:2] + (DEBUG if "-D" in flags else [])}
    ch = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
    out.check(rc == "ok" and ch <= allowed and all(os.path.exists(root + s) for s in SYN), "files", lambda: "synthesis %s changed %s; %s" % (rc, sorted(ch - allowed), info()))
    bits = kw.get("nBits", 32)
    data = [c.astype("f4" if bits == 32 else "f8") for c in load(path)]
    k2 = dict(nBits=32)
    k2.update(kw)
    m, a = S1.run_rmsynth(data, **k2)
    a = {k: np.asarray(v) for k, v in a.items()}
    table(out, root + "_FDFdirty.dat", (a["phiArr_radm2"], a["dirtyFDF"].real, a["dirtyFDF"].imag), "fdf", info)
    table(out, root + "_RMSF.dat", (a["phi2Arr_radm2"], a["RMSFArr"].real, a["RMSFArr"].imag), "rmsf", info)
    table(out, root + "_weight.dat", (a["freqArr_Hz"], a["weightArr"]), "weight", info)
    js = json.load(open(root + "_RMsynth.json"))
    d = same_dict(js, m)
    out.check(d is None, "json", lambda: "saved measurements differ from those in memory: %s; %s" % (d, info()))
    d = same_dict(keyval(root + "_RMsynth.dat"), m)
    out.check(d is None, "dat", lambda: "saved key=value measurements differ: %s; %s" % (d, info()))
    out.state("synth", o, js["phiPeakPIfit_rm2"], js["N_channels"])
    return m, a


def clean(path, o, out, info, mem=None):
    flags, kw = COPT[o]
    before = tree()
    root = os.path.splitext(path)[0]
    have = all(os.path.exists(root + s) for s in ("_FDFdirty.dat", "_RMSF.dat", "_weight.dat", "_RMsynth.json"))
    rc = main_of(C1, [path, "-S"] + flags)
    out.step()
    after = tree()
    ch = {p for p in set(before) | set(after) if before.get(p) != after.get(p)}
    if not have:
        out.check(rc == "exit" and not ch, "noinput", lambda: "cleaning without synthesis products: %s, changed %s; %s" % (rc, sorted(ch), info()))
        return
    allowed = {os.path.normpath(root + s) for s in CLN + PLOTS[2:]}
    out.check(rc == "ok" and ch <= allowed and all(os.path.exists(root + s) for s in CLN), "files", lambda: "cleaning %s changed %s; %s" % (rc, sorted(ch - allowed), info()))
    m = json.load(open(root + "_RMsynth.json"))
    fd, rm, w = [load(root + s).astype("f4") for s in ("_FDFdirty.dat", "_RMSF.dat", "_weight.dat")]
    a = dict(phiArr_radm2=fd[0], dirtyFDF=fd[1] + 1j * fd[2], phi2Arr_radm2=rm[0], RMSFArr=rm[1] + 1j * rm[2], freqArr_Hz=w[0], weightArr=w[1])
    k2 = dict(cutoff=-3.0)
    k2.update(kw)
    mc_, ac = C1.run_rmclean(mDict=m, aDict=a, **k2)
    comp(root, mc_, ac, out, info, 1e-4, "clean")
    meaning(m, a, k2, out, info)
    if mem is not None:  # cleaning the in-memory results
        mm, am = mem
        mi, ai = C1.run_rmclean(mDict=dict(mm), aDict={k: np.array(v) for k, v in am.items()}, **k2)
        if abs(mi["nIter"] - mc_["nIter"]) <= 1:
            # at most one extra subtraction from rounding at the cutoff
            pk = np.nanmax(np.abs(am["dirtyFDF"]))
            t = 1e-3 * pk + (k2.get("gain", 0.1) * pk if mi["nIter"] != mc_["nIter"] else 0)
            A = load(root + "_FDFclean.dat")
            e = ref.maxdiff(A[1] + 1j * A[2], np.asarray(ai["cleanFDF"]))
            out.check(e <= t, "memory", lambda: "cleaned spectrum differs from that of the in-memory chain by %g of the peak; %s" % (e / pk, info()))
        else:
            out.check(False, "memory", lambda: "%s iterations from files, %s in memory; %s" % (mc_["nIter"], mi["nIter"], info()))
    out.state("clean", o, mc_["nIter"])


def meaning(m, a, kw, out, info):
    """what the deconvolution call reports describes the cleaned spectrum it returns (in double precision)"""
    a = {k: np.array(v, dtype=complex if np.iscomplexobj(v) else float) for k, v in a.items()}
    for k in ("phiArr_radm2", "phi2Arr_radm2"):  # saved and reread in single precision
        a[k] = np.linspace(a[k][0], a[k][-1], len(a[k]))
    F0 = a["dirtyFDF"].copy()
    r, ar = C1.run_rmclean(mDict=dict(m), aDict=a, **kw)
    out.step()
    th, lsq = m["dFDFth"], (ref.C / a["freqArr_Hz"][a["weightArr"] > 0]) ** 2
    F = np.asarray(ar["cleanFDF"])
    amp = np.abs(F)
    top = np.nanmax(amp[1:-1])
    best = None
    for i, q in itertools.product([k for k in range(1, len(F) - 1) if amp[k] >= top * (1 - 1e-9)], (1, 1 - 1e-4, 1 + 1e-4)):
        ph = a["phiArr_radm2"]
        w = measure(F, ph, m["fwhmRMSF"], th, lsq, m["lam0Sq_m2"], 5.0, i)
        if w is None:
            return
        # the masked width is a whole number of channels: either side of a ratio that is itself whole
        w["dFDFcorMAD"] = noise_ref(F, i, m["fwhmRMSF"] * q, ph[1] - ph[0])
        bad = diff(r, w)
        best = bad if best is None or len(bad) < len(best) else best
    out.check(not best, "meaning", lambda: "%s are not those of the cleaned spectrum; %s" % (best, info()))
    s = r["dFDFcorMAD"] / th
    want = dict(dPhiObserved_rm2=r["dPhiPeakPIfit_rm2"] * s, dAmpObserved=r["dFDFcorMAD"], dPolAngleFitObserved_deg=r["dPolAngleFit_deg"] * s,
                dPolAngleFit0Observed_deg=r["dPolAngle0Fit_deg"] * s)
    d = same_dict({k: r[k] for k in want}, want)
    out.check(d is None, "observed", lambda: "observed errors are not the theoretical ones scaled to the measured noise: %s; %s" % (d, info()))
    cut, win = [None if c is None else c if c >= 0 else -c * th for c in (kw["cutoff"], kw.get("window"))]
    out.check(abs(r["cleanCutoff"] - cut) <= 1e-6 * cut, "cutoff", lambda: "cutoff %s reported, %s used; %s" % (r["cleanCutoff"], cut, info()))
    h = do_rmclean_hogbom(dirtyFDF=F0, phiArr_radm2=a["phiArr_radm2"], RMSFArr=a["RMSFArr"], phi2Arr_radm2=a["phi2Arr_radm2"],
                          fwhmRMSFArr=np.array(m["fwhmRMSF"]), cutoff=cut, maxIter=kw.get("maxIter", 1000), gain=kw.get("gain", 0.1), window=np.nan if win is None else win)
    pk = np.nanmax(np.abs(F0))
    for k, j in (("cleanFDF", 0), ("ccArr", 1), ("residFDF", 3)):
        if abs(int(h[2]) - r["nIter"]) <= 1:
            e = ref.maxdiff(np.asarray(ar[k]), np.asarray(h[j]))
            out.check(e <= 1e-6 * pk + (kw.get("gain", 0.1) * 2 * cut if int(h[2]) != r["nIter"] else 0), "levels", lambda: "%s differs by %g from cleaning to %s and %s; %s" % (k, e, cut, win, info()))
        else:
            out.check(False, "levels", lambda: "%s iterations, %s when cleaning to %s and %s; %s" % (r["nIter"], h[2], cut, win, info()))
    out.check(r["nIter"] == int(ar["iterCountArr"]), "niter", lambda: info())
    cc = np.abs(np.asarray(ar["ccArr"]))
    if cc.sum() > 0:
        ph = a["phiArr_radm2"]
        m1 = np.sum(ph * cc) / cc.sum()
        m2 = np.sqrt(max(0, np.sum((ph - m1) ** 2 * cc) / cc.sum()))
        out.check(abs(m2 - r["mom2CCFDF"]) <= 1e-5 * np.ptp(ph), "mom2", lambda: "second moment %s expected %s; %s" % (r["mom2CCFDF"], m2, info()))


def comp(root, m, a, out, info, t, tag):
    a = {k: np.asarray(v) for k, v in a.items()}
    table(out, root + "_FDFclean.dat", (a["phiArr_radm2"], a["cleanFDF"].real, a["cleanFDF"].imag), tag + "-fdf", info, t)
    table(out, root + "_FDFmodel.dat", (a["phiArr_radm2"], a["ccArr"].real, a["ccArr"].imag), tag + "-model", info, t)
    d = same_dict(json.load(open(root + "_RMclean.json")), m, 1e-3)
    out.check(d is None, tag + "-json", lambda: "saved measurements differ from those in memory: %s; %s" % (d, info()))
    d = same_dict(keyval(root + "_RMclean.dat"), m, 1e-3)
    out.check(d is None, tag + "-dat", lambda: "saved key=value measurements differ: %s; %s" % (d, info()))


OPS = [("S", 0, "def"), ("S", 0, "all"), ("S", 1, "grid"), ("C", 0, "win"), ("C", 1, "def"), ("C", 0, "abs")]
PAIRS = [("src.dat", "src.b.dat"), ("src.dat", "src_FDF.dat"), ("d/a.dat", "a.dat")]


def cases(tier):
    big = tier == "thorough"
    out = []
    for lay in LAYOUTS:
        for o in SOPT:
            if lay[0] == "5" and o == "i":
                continue
            if not big and lay not in ("7", "5nan", "7nan", "5big", "7small") and o not in (("def", "all", "grid", "dyn") if "long" in lay else ("def", "all")):
                continue
            out.append(dict(kind="opt", lay=lay, opt=o, name="plain", clean=list(COPT) if big else ["def"]))
    for name in NAMES:
        for lay in ("7c", "5"):
            out.append(dict(kind="opt", lay=lay, opt="grid", name=name, clean=list(COPT) if lay == "7c" else ["win"]))
    for pair in range(len(PAIRS)):
        for h in itertools.product(range(len(OPS)), repeat=3):
            # keep histories in which every command's own result is fresh evidence
            if len(set(h)) < 3 and not big:
                continue
            if not big and (pair > 0 and OPS[h[0]][0] == "C"):
                continue
            out.append(dict(kind="hist", pair=pair, h=list(h)))
    return out


_CACHE = {}




def run(case, out):
    with mc.scratch("r10"):
        if case["kind"] == "opt":
            path = NAMES[case["name"]]
            write(path, case["lay"])
            info = lambda: "layout %s options %s file %r" % (case["lay"], case["opt"], path)
            mem = synth(path, case["opt"], out, info)
            out.ev(True)
            for c in case["clean"]:
                clean(path, c, out, info, mem)
                out.ev(True)
            out.sig = case["opt"]
            return
        no_plots()
        # history: the last command's complete output set must equal that of a minimal history in an empty directory
        names = PAIRS[case["pair"]]
        ops = [OPS[i] for i in case["h"]]
        write(names[0], "7", 0)
        write(names[1], "5nan", 1)
        inputs = tree()
        last = {}
        for i, (t, d, o) in enumerate(ops):
            mod, flags = (S1, SOPT[o][0]) if t == "S" else (C1, COPT[o][0])
            rc = main_of(mod, [names[d], "-S"] + flags)
            out.step()
            out.ev(i > 0)
            if t == "S":
                last[("S", d)] = o
                out.check(rc == "ok", "run", lambda: "synthesis failed in history %s" % (ops[: i + 1],))
            elif ("S", d) in last:
                last[("C", d)] = (o, last[("S", d)])
                out.check(rc == "ok", "run", lambda: "cleaning failed in history %s" % (ops[: i + 1],))
            else:
                out.check(rc == "exit", "noinput", lambda: "cleaning without synthesis products succeeded in history %s" % (ops[: i + 1],))
        final = tree()
        out.check(all(final.get(p) == h for p, h in inputs.items()), "inputs", lambda: "an input file changed in history %s" % (ops,))
    # the same products made in an empty directory, one data set at a time
    want = dict(inputs)
    for d in (0, 1):
        for prod in [("S", d), ("C", d)]:
            if prod not in last:
                continue
            key = (case["pair"], prod, last[prod])
            if key not in _CACHE:
                with mc.scratch("r10f"):
                    write(names[d], "7" if d == 0 else "5nan", d)
                    i0 = tree()
                    if prod[0] == "S":
                        main_of(S1, [names[d], "-S"] + SOPT[last[prod]][0])
                        _CACHE[key] = {p: h for p, h in tree().items() if p not in i0}
                    else:
                        main_of(S1, [names[d], "-S"] + SOPT[last[prod][1]][0])
                        i1 = tree()
                        main_of(C1, [names[d], "-S"] + COPT[last[prod][0]][0])
                        _CACHE[key] = {p: h for p, h in tree().items() if i1.get(p) != h}
            want.update(_CACHE[key])
    bad = sorted(p for p in set(want) | set(final) if want.get(p) != final.get(p))
    out.check(not bad, "history", lambda: "files %s after history %s differ from those made in an empty directory" % (bad, ops))
    out.state(sorted(final.items()))
    out.sig = "hist%d" % len(final)


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
