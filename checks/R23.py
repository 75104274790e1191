"""R23: what a tool writes does not depend on leftovers of earlier or interrupted runs."""
import gc, itertools, multiprocessing, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, cubes, crash
import numpy as np
import matplotlib.figure
from R16 import SerialPool, REALPOOL
import RMtools_1D.do_RMsynth_1D as S1
import RMtools_1D.do_RMclean_1D as C1
import RMtools_1D.rmtools_bwdepol as BW
import RMtools_1D.mk_test_ascii_data as TA
import RMtools_1D.do_RMsynth_1D_fromFITS as FF
import RMtools_1D.do_QUfit_1D_mnest as QF
import bilby, matplotlib.pyplot as plt
import astropy.cosmology, astropy.modeling, nestle, functools  # imported here so that the forked runs need not
import RMtools_3D.do_RMsynth_3D as S3
import RMtools_3D.do_RMclean_3D as C3
import RMtools_3D.RMpeakfit_3D as PF
import RMtools_3D.create_chunks as CC
import RMtools_3D.assemble_chunks as AC
import RMtools_3D.do_fitIcube as IC
import RMtools_3D.rescale_I_model_3D as RS
import RMtools_3D.extract_region as XR
import RMtools_3D.make_freq_file as MF
import RMtools_3D.mk_test_cube_data as TC
import RMutils.util_RM as UR
try:
    import RMtools_1D.clean_model as CM
except Exception:  # pragma: no cover
    CM = None

gc.collect(), gc.freeze()  # the tools collect garbage explicitly

PID, LEVEL = "R23", "fault_enumeration"
RULE = ("one evaluation = one re-run of a tool in one state of its directory: (a) every on-disk state that exists while the tool runs (read back after every call that can change it) and every state in between with the last write partly done, "
        "in a clean directory and on top of the results of a different run, (b) every ordered sequence of runs up to the depth, with the same inputs or with inputs that were replaced in between, (c) a run for which writing fails at a file-size limit, for every limit derived from its outputs; "
        "the outputs must be byte-identical to those of a run in a clean directory and all other files unchanged; non-trivial = the directory held results or parts of results")
ASSUMPTIONS = ["a crash is the death of the process: completed writes stay, the last one may be partial; loss of cached writes by the operating system is not modelled", "each tool runs in its own forked process; figures are not compared",
               "assembling is allowed to refuse (never to give something else) when chunks of another division lie around"]
CHUNK = 1
CASE_TIMEOUT = 800
NEEDS_CHILDREN = True
SLICES = 6


def T(mod, *argv, entry="main", before=None):
    def call():
        multiprocessing.Pool = SerialPool
        matplotlib.figure.Figure.savefig = lambda *a, **k: None
        matplotlib.figure.Figure.tight_layout = lambda *a, **k: None
        np.random.seed(11)
        if before:
            before()
        if entry != "main":
            mod.main = getattr(mod, entry)
        return cubes.run_main(mod, argv)

    return call


def quick_qufit():
    """a real (nested) sampling run with few points, without figures"""
    bilby.core.utils.random.seed(5)
    bilby.core.result.Result.plot_corner = lambda self, *a, **k: plt.figure()
    if hasattr(bilby.core.sampler, "env_package_list"):
        bilby.core.sampler.env_package_list = lambda *a, **k: None  # starts another program
    inner = bilby.run_sampler
    bilby.run_sampler = lambda *a, **k: inner(*a, **dict(k, plot=False))
    QF.plot_Ipqu_spectra_fig = lambda *a, **k: None
    if hasattr(QF, "load_model"):  # otherwise read again for every likelihood
        QF.load_model = functools.lru_cache(None)(QF.load_model)


def own_model(top):
    """the user's own model, with one of several ranges of depths, in the directory of the run"""

    def setup():
        os.makedirs("models_ns", exist_ok=True)
        src = open(os.path.join(os.path.dirname(QF.__file__), "models_ns", "m1.py")).read()
        with open("models_ns/m31.py", "w") as f:
            f.write(src + "\n\npriors['RM_radm2'] = bilby.prior.Uniform(minimum=-1100.0, maximum=%r, name='RM_radm2', latex_label='RM')\n" % top)
        quick_qufit()

    return setup


def small_cubes():
    for k, v in dict(nChans=6, nPixX=5, nPixY=4, coordSys="GAL", rmsNoise=0.0).items():
        setattr(TC, k, v)


SY = [T(S3, "Q.fits", "U.fits", "freqs.dat"), T(S3, "Q.fits", "U.fits", "freqs.dat", "-f", "-s", "3"), T(S3, "Q.fits", "U.fits", "freqs.dat", "-i", "I.fits", "-o", "a_", "-d", "20", "-l", "300"), T(S3, "Q.fits", "U.fits", "freqs.dat", "-w", "variance", "-n", "noise.dat", "-t")]
# name -> (world, steps, files that only the last step is allowed to refuse because of)
PIPES = {
    "synth": ("1", [T(S1, "obs.dat", "-S")]),
    "synthnoI": ("1", [T(S1, "obs.dat", "-S", "-i", "-b", "-s", "4")]),
    "synthoth": ("1", [T(S1, "oth.dat", "-S", "-w", "uniform", "-l", "400", "-d", "15")]),
    "clean": ("1", [T(S1, "obs.dat", "-S"), T(C1, "obs.dat", "-S", "-c", "-3")]),
    "cleannoI": ("1", [T(S1, "obs.dat", "-S", "-i", "-b", "-s", "4"), T(C1, "obs.dat", "-S", "-c", "-5", "-w", "-2", "-g", "0.3")]),
    "model": ("1", [T(S1, "obs.dat", "-S", "-i"), T(C1, "obs.dat", "-S", "-c", "-3")] + ([T(CM, "obs.dat", "obs_RMsynth.json", "obs_FDFmodel.dat", "model.dat")] if CM else [])),
    "bwdepol": ("1", [T(BW, "obs.dat", "-S")]),
    "bwdepol2": ("1", [T(BW, "obs.dat", "-S", "-i", "-l", "300", "-d", "20")]),
    "qufit": ("q", [T(QF, "obs.dat", "-m", "1", "--sampler", "nestle", "--nlive", "12", before=quick_qufit)]),
    "qufitnoI": ("q", [T(QF, "obs.dat", "-m", "1", "-i", "--sampler", "nestle", "--nlive", "12", before=quick_qufit)]),
    "qufitlive": ("q", [T(QF, "obs.dat", "-m", "1", "--sampler", "nestle", "--nlive", "14", before=quick_qufit)]),
    "qufitmod": ("q", [T(QF, "obs.dat", "-m", "2", "--sampler", "nestle", "--nlive", "12", before=quick_qufit)]),
    "qufitown": ("q", [T(QF, "obs.dat", "-m", "31", "--sampler", "nestle", "--nlive", "12", before=own_model(1100.0))]),
    "qufitrange": ("q", [T(QF, "obs.dat", "-m", "31", "--sampler", "nestle", "--nlive", "12", before=own_model(0.0))]),
    "sim": ("1", [T(TA, "cat.csv", "sim", "-c", "12", "-n", "0.1")]),
    "sim2": ("1", [T(TA, "cat.csv", "sim", "-c", "7", "-n", "0", "-l", "0.9e9,1.3e9")]),
    "freqfile": ("3", [T(MF, "Q.fits", "freqs2.dat", entry="save_freq_file")]),
    "synth3": ("3", [SY[0]]),
    "synth3one": ("3", [SY[1]]),
    "synth3I": ("3", [SY[2]]),
    "synth3w": ("3", [SY[3]]),
    "clean3": ("3", [SY[0], T(C3, "FDF_tot_dirty.fits", "RMSF_tot.fits", "-c", "0.1")]),
    "clean3one": ("3", [SY[0], T(C3, "FDF_real_dirty.fits", "RMSF_tot.fits", "-c", "0.2", "-w", "0.05", "-f")]),
    "clean3w": ("3", [SY[0], T(C3, "FDF_tot_dirty.fits", "RMSF_tot.fits", "-c", "-3", "-n", "5", "-o", "w_")]),
    "peak": ("3", [SY[0], T(PF, "FDF_tot_dirty.fits", "freqs.dat", "pk/", "-a")]),
    "chunks": ("3", [T(CC, "U.fits", "2", "-p", "part")]),
    "chunks4": ("3", [T(CC, "U.fits", "4", "-p", "part", "-m")]),
    "chunk4": ("3", [T(CC, "Q.fits", "4"), T(AC, "Q.C0.fits", "-f", "again.fits", "-o")]),
    "chunk1": ("3", [T(CC, "Q.fits", "1"), T(AC, "Q.C05.fits", "-f", "again.fits", "-o", "-m")]),
    "fit3": ("3", [T(IC, "I.fits", "-p", "3", "-odir", ".", "-o", "m_")]),
    "fit1": ("3", [T(IC, "I.fits", "-p", "1", "-odir", ".", "-o", "m_")]),
    "rescale3": ("3", [T(IC, "I.fits", "-p", "3", "-odir", ".", "-o", "m_"), T(RS, "m_covariance.fits", "-f", "1.3e9", "-w", entry="command_line")]),
    "rescale1": ("3", [T(IC, "I.fits", "-p", "-1", "-f", "linear", "-odir", ".", "-o", "m_"), T(RS, "m_covariance.fits", "-f", "1.3e9", "-w", entry="command_line")]),
    "extract": ("3", [T(XR, "Q.fits", "cut.fits", "1", "2", "2", "3", "-o")]),
    "extract2": ("3", [T(XR, "U.fits", "cut.fits", "1", "3", "1", "3", "-o", "-z", "2", "5")]),
    "pixel": ("3", [T(FF, "Q.fits", "U.fits", "2", "3", "-S")]),
    "simcube": ("3", [T(TC, "cat.csv", "cubes", before=small_cubes)]),
}
# a different run that leaves files of the same names behind
OTHER = {"qufitown": "qufitrange", "qufitrange": "qufitown", "qufit": "qufitnoI", "qufitnoI": "qufit", "qufitlive": "qufit", "qufitmod": "qufit", "synth": "synthnoI", "synthnoI": "synth", "synthoth": "clean", "clean": "cleannoI", "cleannoI": "clean", "model": "cleannoI", "bwdepol": "bwdepol2", "bwdepol2": "synth", "sim": "sim2", "sim2": "sim", "freqfile": "synth3",
         "synth3": "synth3one", "synth3one": "synth3", "synth3I": "synth3", "synth3w": "synth3", "clean3": "clean3one", "clean3one": "clean3", "clean3w": "clean3", "peak": "clean3", "chunk4": "chunk1", "chunks": "chunks4", "chunks4": "chunks", "chunk1": "chunk4", "fit3": "fit1", "fit1": "fit3",
         "rescale3": "rescale1", "rescale1": "rescale3", "extract": "extract2", "extract2": "extract", "pixel": "synth3", "simcube": "synth3"}
MAYREFUSE = {("chunk4", "chunk1"), ("chunk1", "chunk4")}


def pairs(tier):
    """(first, second, second's inputs are replaced ones)"""
    for p, (w, _) in PIPES.items():
        for n, q in enumerate(q for q in PIPES if PIPES[q][0] == w):
            if tier != "thorough" and ("own" in p + q or "range" in p + q) and not (p == q or OTHER[p] == q):
                continue
            if tier == "thorough" or p == q or OTHER[p] == q or OTHER[q] == p or w == "q":
                yield p, q, 0
                yield p, q, 1
            else:
                yield p, q, n % 2


def cases(tier):
    big = tier == "thorough"
    for p in PIPES:
        yield dict(k="clean", p=p)
    todo = {}
    for p, q, v in pairs(tier):
        todo.setdefault(p, []).append((q, v))
    for p in PIPES:
        for i in range(0, len(todo[p]), 8):
            yield dict(k="history", p=p, then=todo[p][i : i + 8])
    if big:
        for p, (w, steps) in PIPES.items():
            for q in PIPES:
                if PIPES[q][0] == w:
                    yield dict(k="history", p=p, q=q, then=[(r, (i + len(q)) % 2) for i, r in enumerate(r for r in PIPES if PIPES[r][0] == w)])
    for p, (w, steps) in PIPES.items():
        for pre in ("", OTHER[p]) if not big else ("",) + tuple(q for q in PIPES if PIPES[q][0] == w):
            for s in range(SLICES):
                if not big and (pre or w == "q") and s % 3:
                    continue
                yield dict(k="crash", p=p, pre=pre, s=s, deep=big)
    if big:  # two crashes in a row
        for p in PIPES:
            for s in range(2 * SLICES):
                yield dict(k="crash2", p=p, s=s)
    for p in PIPES:
        for s in range(3):
            yield dict(k="limit", p=p, s=s, deep=big)


# ---------------------------------------------------------------- the two directories
def base(world, v=0):
    """the input files; v=1: other contents under the same names"""
    if world in "1q":
        for name, nu, withI in (("obs", np.linspace(1.0e9, 1.6e9, 20), True), ("oth", np.linspace(0.8e9, 0.9e9, 11), False)):
            l2 = (299792458.0 / nu) ** 2
            nu = nu[: len(nu) - v]
            l2 = l2[: len(nu)]
            i = (3 + 2 * v) * (nu / 1.2e9) ** (-0.8 + 0.3 * v)
            p = 0.4 * i * np.exp(2j * (0.3 + (35 - 80 * v) * l2)) + 0.2 * i * np.exp(2j * (1.3 - 60 * l2)) + 0.02 * np.exp(1j * 7 * np.arange(len(nu)) ** 1.5)
            e = 0.02 + 0.001 * np.arange(len(nu))
            np.savetxt(name + ".dat", np.array(([nu, i, p.real, p.imag, e, e, e * 1.1] if withI else [nu, p.real, p.imag, e, e])).T)
    else:
        nu = 1.0e9 + 6e7 * np.arange(8) + 4e7 * v
        l2 = (299792458.0 / nu) ** 2
        yx = np.arange(9).reshape(3, 3)
        i = (2.0 + yx + 1.5 * v)[None] * (nu[:, None, None] / 1.2e9) ** -0.7 * (1 + 0.01 * np.cos(np.arange(8) * 2.3))[:, None, None]
        p = 0.5 * i * np.exp(2j * (0.1 * yx[None] + (yx[None] - 4 + v) * 12.0 * l2[:, None, None])) + 0.02 * np.cos(1.7 * np.arange(72).reshape(8, 3, 3))
        for n, c in (("I", i), ("Q", p.real), ("U", p.imag)):
            cubes.write(n + ".fits", c, "xyf", freqs=nu)
        np.savetxt("freqs.dat", nu)
        np.savetxt("noise.dat", 0.02 + 0.002 * np.arange(8) + 0.01 * v)
    with open("cat.csv", "w") as f:
        f.write("1, 90.0, 0.0, 0, 0, 0, %s, -0.7, 0.5, 20.0, 40.0, 3.0\n2, 89.9999, 0.0001, 0, 0, 0, 2.0, 0.5, 0.3, 70.0, 20.0, 0.1, 10.0, -20.0\n" % (5.0 - v))


class Refused(Exception):
    pass


def pipe(name, root, out=None):
    """all steps of a pipeline -> status of the last"""
    r = {"status": "ok"}
    for st in PIPES[name][1]:
        r = crash.run_tool(st, root)
        if out:
            out.step()
        if r["status"] != "ok":
            return r
    return r


def diff(a, b, keys):
    return [k for k in sorted(keys) if not cache_dir(k) and a.get(k, "missing") != b.get(k, "missing")]


def outputs(before, after):
    return {k for k in after if (k not in before or before[k] != after[k]) and not cache_dir(k)}


REFS = {}


def reference(name, root, out, v=0):
    if (name, v) not in REFS:
        REFS[name, v] = make_reference(name, root, v)
    return REFS[name, v]


def cache_dir(k):
    """what the sampler keeps for itself (only its reported results are outputs)"""
    return "nestle" in k and ("/" in k or not k.endswith((".json", ".dat", ".pdf")))


def make_reference(name, root, v=0):
    """(base, files before the last step, after it, outputs of the last step, outputs of the pipeline)"""
    crash.restore(root, {})
    base(PIPES[name][0], v)
    b = crash.snapshot(root)
    for st in PIPES[name][1][:-1]:
        r = crash.run_tool(st, root)
        if r["status"] != "ok":
            return None, r
    before = crash.snapshot(root)
    r = crash.run_tool(PIPES[name][1][-1], root)
    if r["status"] != "ok":
        return None, r
    after = crash.snapshot(root)
    return (b, before, after, outputs(before, after), outputs(b, after)), r


def changed_others(before, after, outs):
    return [k for k in sorted(set(before) | set(after)) if k not in outs and not cache_dir(k) and before.get(k, "missing") != after.get(k, "missing")]


def run(case, out):
    with mc.scratch("r23") as root:
        {"clean": run_clean, "history": run_history, "crash": run_crash, "crash2": run_crash2, "limit": run_limit}[case["k"]](case, out, root)
    out.sig = case["k"]


def describe(snap, ref, keys):
    return ["%s: %s bytes instead of %s" % (k, "no" if k not in snap else len(snap[k] or b""), len(ref[k] or b"") if k in ref else "no") for k in keys][:6]


def run_clean(case, out, root):
    name = case["p"]
    ref, r = reference(name, root, out)
    out.step(2)
    out.ev(False)
    if not out.check(ref is not None, "failed", lambda: "%s failed in a clean directory: %s %s" % (name, r["status"], r["error"])):
        return
    b, before, after, outs, allouts = ref
    out.check(len(outs) > 0, "nothing", lambda: "%s wrote nothing" % name)
    out.check(not (outs & set(before)), "overwrites", lambda: "%s changed files it was given: %s" % (name, sorted(outs & set(before))))
    ref2, r = make_reference(name, root)
    d = diff(ref2[2], after, set(after) | set(ref2[2])) if ref2 else ["everything"]
    out.check(not d, "repeatable", lambda: "two runs of %s in a clean directory differ in %s" % (name, d))
    # again on top of itself
    r = crash.run_tool(PIPES[name][1][-1], root)
    now = crash.snapshot(root)
    d = diff(now, after, set(after) | set(now))
    out.check(r["status"] == "ok" and not d, "again", lambda: "second run of %s: %s %s, differences %s" % (name, r["status"], r["error"], describe(now, after, d)))
    out.state(name, sorted(after))


def run_history(case, out, root):
    first = case["p"]
    refs = {}

    def ref_of(q, v):
        if (q, v) not in refs:
            refs[q, v], r = reference(q, root, out, v)
            if refs[q, v] is None:
                out.fail("failed", "%s failed in a clean directory: %s %s" % (q, r["status"], r["error"]))
        return refs[q, v]

    if ref_of(first, 0) is None:
        return
    snap = dict(refs[first, 0][2])
    hist = [first]
    if "q" in case:
        crash.restore(root, snap)
        r = pipe(case["q"], root, out)
        if r["status"] != "ok":
            if (first, case["q"]) not in MAYREFUSE:
                out.fail("history", "%s after %s: %s %s" % (case["q"], first, r["status"], r["error"]))
            return
        hist.append(case["q"])
        snap = crash.snapshot(root)
    for q, v in case["then"]:
        if ref_of(q, v) is None:
            return
        start = dict(snap)
        start.update(refs[q, v][0])  # the user's inputs
        crash.restore(root, start)
        r = pipe(q, root, out)
        out.ev(True)
        after = crash.snapshot(root)
        ok_refuse = any((h, q) in MAYREFUSE for h in hist) and r["status"] in ("raised", "exit")
        info = lambda: "history %s then %s%s" % (hist, q, " with replaced inputs" if v else "")
        if not ok_refuse:
            out.check(r["status"] == "ok", "history", lambda: "%s: %s %s" % (info(), r["status"], r["error"]))
            if r["status"] != "ok":
                continue
            d = diff(after, refs[q, v][2], refs[q, v][4])
            out.check(not d, "history", lambda: "%s gives other results than in a clean directory: %s" % (info(), describe(after, refs[q, v][2], d)))
        c = changed_others(start, after, refs[q, v][4])
        out.check(not c, "bystander", lambda: "%s changed files that are not its outputs: %s" % (info(), c))
        out.state(hist, q, v)


def run_crash(case, out, root):
    name, pre = case["p"], case["pre"]
    ref, r = reference(name, root, out)
    if ref is None:
        out.fail("failed", "%s failed in a clean directory: %s %s" % (name, r["status"], r["error"]))
        return
    b, before, after, outs, allouts = ref
    last = PIPES[name][1][-1]
    start = before
    if pre:  # results of another run lie around
        crash.restore(root, b)
        r = pipe(pre, root, out)
        r = {"status": "ok"}
        for st in PIPES[name][1][:-1]:
            r = crash.run_tool(st, root)
        if r["status"] != "ok":
            return
        start = crash.snapshot(root)
    crash.restore(root, start)
    r = crash.run_tool(last, root, record=True)
    if r["status"] != "ok":
        if (pre, name) not in MAYREFUSE:
            out.fail("history", "%s on the results of %s: %s %s" % (name, pre, r["status"], r["error"]))
        return
    states = r["states"]
    todo = []
    for i in range(1, len(states)):
        todo += [("in the middle of write %d" % i, s) for s in crash.torn(states[i - 1], states[i], case.get("deep"))]
        if i < len(states) - 1:
            todo.append(("after write %d" % i, states[i]))
    for n, (when, s) in enumerate(todo):
        if n % SLICES != case["s"]:
            continue
        info = lambda: "%s stopped %s of %d%s and run again" % (name, when, len(states) - 1, " (results of %s present)" % pre if pre else "")
        out.ev(True)
        out.step()
        c = changed_others(start, s, outs)
        out.check(not c, "bystander", lambda: "%s stopped %s: files that are not its outputs have changed: %s" % (name, when, c))
        crash.restore(root, s)
        r = crash.run_tool(last, root)
        now = crash.snapshot(root)
        if not out.check(r["status"] == "ok", "recovery", lambda: "%s: %s %s" % (info(), r["status"], r["error"])):
            continue
        d = diff(now, after, outs)
        out.check(not d, "recovery", lambda: "%s: results differ from those of a clean run: %s" % (info(), describe(now, after, d)))
        c = changed_others(start, now, outs)
        out.check(not c, "bystander", lambda: "%s: files that are not its outputs have changed: %s" % (info(), c))
        out.state(name, pre, when)


def run_crash2(case, out, root):
    name = case["p"]
    ref, r = reference(name, root, out)
    if ref is None:
        out.fail("failed", "%s failed in a clean directory: %s %s" % (name, r["status"], r["error"]))
        return
    b, before, after, outs, allouts = ref
    last = PIPES[name][1][-1]
    crash.restore(root, before)
    first = crash.run_tool(last, root, record=True)["states"]
    for i in range(1, len(first) - 1):
        if i % (2 * SLICES) != case["s"]:
            continue
        crash.restore(root, first[i])
        second = crash.run_tool(last, root, record=True)["states"]
        for j in range(1, len(second) - 1):
            crash.restore(root, second[j])
            r = crash.run_tool(last, root)
            now = crash.snapshot(root)
            out.ev(True)
            out.step(2)
            d = diff(now, after, set(outs) | set(before))
            out.check(r["status"] == "ok" and not d, "recovery", lambda: "%s stopped after writes %d and, in the next run, %d, and run again: %s %s, %s" % (name, i, j, r["status"], r["error"], describe(now, after, d)))
            out.state(name, i, j)


def run_limit(case, out, root):
    name = case["p"]
    ref, r = reference(name, root, out)
    if ref is None:
        out.fail("failed", "%s failed in a clean directory: %s %s" % (name, r["status"], r["error"]))
        return
    b, before, after, outs, allouts = ref
    last = PIPES[name][1][-1]
    sizes = sorted({len(after[k]) for k in outs if after[k]})
    limits = sorted({0} | {x for s in sizes for x in (s - 1, s // 2, s // 2880 * 2880 - 1, s - 2880) if 0 < x})
    if not case["deep"]:
        limits = sorted({0, sizes[-1] - 1} | {s // 2 for s in sizes if s > 1})
    for n, lim in enumerate(limits):
        if n % 3 != case["s"]:
            continue
        crash.restore(root, before)
        r = crash.run_tool(last, root, limit=lim)
        now = crash.snapshot(root)
        out.ev(True)
        out.step(2)
        info = lambda: "%s with writing failing beyond %d bytes per file" % (name, lim)
        d = diff(now, after, outs)
        out.check(r["status"] != "ok" or not d, "silent", lambda: "%s: reports success, but %s" % (info(), describe(now, after, d)))
        c = changed_others(before, now, outs)
        out.check(not c, "bystander", lambda: "%s changed files that are not its outputs: %s" % (info(), c))
        r = crash.run_tool(last, root)
        now = crash.snapshot(root)
        d = diff(now, after, set(outs) | set(before))
        out.check(r["status"] == "ok" and not d, "recovery", lambda: "%s and run again: %s %s, %s" % (info(), r["status"], r["error"], describe(now, after, d)))
        out.state(name, lim)


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
