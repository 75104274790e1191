"""Bounded-exhaustive exploration driver shared by all checks.

A check supplies
  cases(tier)  -> finite, deterministic, simplest-first iterable of JSON-able dicts
                  (the bounded behaviour space; one dict = one initial state + history/schedule)
  run(case)    -> Outcome: drives the real code in /repo, compares with a reference model
and the driver enumerates *every* case (no sampling), spreads them over worker
processes, applies the known-findings file, writes replay files and the evidence.
"""
import gc, argparse, contextlib, hashlib, io, json, multiprocessing as mp, os, resource, shutil, signal, sys, tempfile
import time, traceback, warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RMTOOLS_REPO", "/repo")
for p in (REPO, os.path.join(VERIF, "lib")):
    if p in sys.path:
        sys.path.remove(p)
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ["OMP_NUM_THREADS"] = "1"
os.environ["OPENBLAS_NUM_THREADS"] = "1"
os.environ["MKL_NUM_THREADS"] = "1"
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


class CaseTimeout(BaseException):
    pass


class Outcome:
    """What one explored case did."""

    __slots__ = ("fails", "states", "transitions", "sig", "nontrivial", "traces", "evals")

    def __init__(self):
        self.fails = []  # (key, message)
        self.states = set()  # hashes of distinct observed states
        self.transitions = 0  # calls of the real code / steps of the history
        self.traces = 0  # model traces compared with the implementation
        self.sig = None  # observed-outcome signature
        self.nontrivial = 0  # how many evaluations of this case were non-trivial
        self.evals = 0  # evaluations made by this case when it is a batch (else 1)

    def fail(self, key, msg):
        self.fails.append((key, msg))

    def check(self, cond, key, msg):
        self.traces += 1
        if not cond:
            self.fails.append((key, msg() if callable(msg) else msg))
        return bool(cond)

    def state(self, *parts):
        self.states.add(digest(*parts))

    def ev(self, nontrivial=False):
        self.evals += 1
        self.nontrivial += bool(nontrivial)

    def step(self, n=1):
        self.transitions += n


def digest(*parts):
    import numpy as np

    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        if isinstance(p, np.ndarray):
            h.update(str((p.shape, p.dtype.kind)).encode())
            if p.dtype.kind in "fc":
                # 3-4 significant digits are enough to tell observed states apart
                h.update(np.ascontiguousarray(p).astype("complex64" if p.dtype.kind == "c" else "float32").view("u4").__and__(0xFFFFF000).tobytes())
            else:
                h.update(np.ascontiguousarray(p).tobytes())
        else:
            h.update(repr(p).encode())
    return h.hexdigest()


def case_id(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=6).hexdigest()


_MOD = None
_SCRATCH = None


@contextlib.contextmanager
def scratch(prefix="mc"):
    """A scratch directory private to one case, always removed."""
    d = tempfile.mkdtemp(prefix=prefix + "_", dir=_SCRATCH or None)
    old = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    """Silence python-level output (kept for diagnosis in the returned buffer)."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        yield buf


def run_guarded(case):
    mod = _MOD

    def onalarm(signum, frame):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, onalarm)
    limit = int(getattr(mod, "CASE_TIMEOUT", 120))
    signal.alarm(limit)
    t0 = time.time()
    out = Outcome()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np

            with np.errstate(all="ignore"), quiet() as buf:
                mod.run(case, out)
    except CaseTimeout:
        out.fail("timeout", "no answer within %d s (the operation does not terminate)" % limit)
    except SystemExit as e:
        out.fail("exit", "the code under test called sys.exit(%r): %s" % (e.code, buf.getvalue()[-400:]))
    except BaseException as e:
        tb = traceback.format_exc()
        if isinstance(e, KeyboardInterrupt):
            raise
        out.fail("exception:" + type(e).__name__, "unexpected exception: " + tb[-1500:])
    finally:
        signal.alarm(0)
    with contextlib.suppress(Exception):
        if "matplotlib.pyplot" in sys.modules:
            sys.modules["matplotlib.pyplot"].close("all")
    return (case, out.fails, out.states, out.transitions, out.traces, out.sig, (int(out.nontrivial), max(1, out.evals)), time.time() - t0)


def _serve(conn):
    """worker: runs batches of cases until told to stop"""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        batch = conn.recv()
        if batch is None:
            return
        for i, case in batch:
            conn.send((i, run_guarded(case)))
        conn.send(None)


def explore(ctx, cases, jobs, chunk, stop=None):
    """Run every case in worker processes (which may have children of their own). A worker that dies is
    replaced and the cases it had not answered are run again, each on its own; a case during which workers
    die three times is reported as failing. With stop, no further chunk is begun after a failure whose key is not in it."""
    from multiprocessing.connection import wait

    todo = [[(i, c) for i, c in list(enumerate(cases))[k : k + chunk]] for k in range(0, len(cases), chunk)][::-1]
    res, deaths, workers = [None] * len(cases), {}, {}

    def start():
        here, there = ctx.Pipe()
        p = ctx.Process(target=_serve, args=(there,), daemon=False)
        p.start()
        there.close()
        workers[here] = [p, None]
        give(here)

    def give(conn):
        w = workers[conn]
        w[1] = todo.pop() if todo else None
        try:
            conn.send(w[1])
        except OSError:
            pass  # noticed below
        if w[1] is None:
            w[0].join(30)
            del workers[conn]
            conn.close()
        else:
            w[1] = list(w[1])

    try:
        for _ in range(min(jobs, len(todo))):
            start()
        while workers:
            for conn in wait(list(workers)):
                w = workers[conn]
                try:
                    m = conn.recv()
                except (EOFError, OSError):
                    w[0].join(5)
                    del workers[conn]
                    conn.close()
                    left = w[1]
                    if left:
                        i, case = left[0]
                        deaths[i] = deaths.get(i, 0) + 1
                        if deaths[i] >= 3:
                            res[i] = (case, [("died", "the process running this case died (exit code %s), three times" % w[0].exitcode)], set(), 0, 0, None, (0, 1), 0.0)
                            left = left[1:]
                        todo.extend([x] for x in left[::-1])
                    if todo:
                        start()
                    continue
                if m is None:
                    give(conn)
                else:
                    res[m[0]] = m[1]
                    if stop is not None and any(k not in stop for k, _ in m[1][1]):
                        todo.clear()
                    w[1] = [x for x in w[1] if x[0] != m[0]]
    finally:
        for conn, w in workers.items():
            conn.close()
            w[0].terminate()
    return res


def load_known(pid):
    known, path = {}, os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN ") and ("property=%s " % pid) in line:
                # KNOWN property=<id> key=<finding key> case=<case selector> :: text
                head, _, text = line.partition(" :: ")
                kv = dict(x.split("=", 1) for x in head.split()[1:])
                known.setdefault(kv["key"], []).append((kv.get("case", ""), text))
    return known


def main(mod):
    global _MOD, _SCRATCH
    _MOD = mod
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "8")))
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--slow", action="store_true")
    a = ap.parse_args()
    pid = mod.PID
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    _SCRATCH = tempfile.mkdtemp(prefix="rmmc_%s_" % pid)
    real_stdout = sys.stdout
    try:
        rc = _main(mod, a, pid, seed, t0)
    finally:
        shutil.rmtree(_SCRATCH, ignore_errors=True)
    real_stdout.flush()
    sys.exit(rc)


def _main(mod, a, pid, seed, t0):
    if a.replay:
        rep = json.load(open(a.replay))
        res = [run_guarded(rep["case"])]
        cases = [rep["case"]]
    else:
        if hasattr(mod, "prepare"):
            with quiet():
                mod.prepare(a.tier)
        cases = list(mod.cases(a.tier))
        if a.limit:
            cases = cases[: a.limit]
        gc.collect(), gc.freeze()  # many of the tools collect garbage explicitly
        if a.jobs <= 1 or len(cases) < 4:
            res = [run_guarded(c) for c in cases]
        else:
            ctx = mp.get_context("fork")
            chunk = max(1, min(getattr(mod, "CHUNK", 64), len(cases) // (a.jobs * 4) or 1))
            stop = load_known(pid) if os.environ.get("MC_FIRST") else None  # while developing: enough to know that it fails
            res = [r for r in explore(ctx, cases, a.jobs, chunk, stop) if r is not None]
    known = load_known(pid)
    states, sigs, trans, traces, nontriv, evals = set(), {}, 0, 0, {}, 0
    bad, seen_known = [], {}
    for case, fails, st, tr, trc, sig, nt, dt in res:
        states |= st
        trans += tr
        traces += trc
        if sig is not None:
            sigs[sig] = sigs.get(sig, 0) + 1
        nontriv[case_id(case)] = min(nt[0], nt[1])
        evals += nt[1]
        for key, msg in fails:
            hit = None
            for sel, text in known.get(key, []):
                if not sel or selects(sel, case):
                    hit = text
                    break
            if hit is not None:
                seen_known.setdefault((key, hit), 0)
                seen_known[(key, hit)] += 1
            else:
                bad.append((case, key, msg))
    for key in known:
        for sel, text in known[key]:
            n = seen_known.get((key, text), 0)
            if n or not a.replay:
                print("KNOWN-FINDING: property=%s %s (key=%s, %d explored cases)" % (pid, text, key, n))
    wall = time.time() - t0
    if a.slow:
        for r in sorted(res, key=lambda r: -r[-1])[:10]:
            print("slow %.2fs %s" % (r[-1], json.dumps(r[0])[:300]))
    if not a.replay:
        extra = mod.coverage(res) if hasattr(mod, "coverage") else {}
        step = max(1, len(cases) // 5)
        cov = {
            "evaluations": evals,
            "cases": len(cases),
            "distinct_nontrivial": sum(nontriv.values()),
            "rule": mod.RULE,
            "states": len(states),
            "transitions": trans,
            "traces_validated_against_impl": traces,
            "distinct_outcomes": len(sigs),
            "exhaustive": not a.limit and len(res) == len(cases),
            "samples": [c for c in cases[::step]][:5],
        }
        cov.update(extra)
        ev = {
            "property": pid,
            "tier": a.tier,
            "seed": seed,
            "level": mod.LEVEL,
            "coverage": cov,
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": len(bad),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
    print("%s: %s cases=%d states=%d transitions=%d compared=%d outcomes=%d wall=%.1fs" % (
        pid, a.tier, len(cases), len(states), trans, traces, len(sigs), wall))
    if bad:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        shown, per = 0, {}
        for case, key, msg in bad:
            per[key] = per.get(key, 0) + 1
            if per[key] > 1 or shown >= 12:
                continue
            shown += 1
            path = os.path.join(rdir, "%s_%s.json" % (pid, case_id(case)))
            json.dump({"property": pid, "case": case, "key": key, "message": msg,
                       "replay_cmd": "cd /verif && bash run.sh %s --replay %s" % (pid, path)}, open(path, "w"), indent=1)
            print("  [%s] %s\n    case=%s" % (key, msg[:1200], json.dumps(case)[:600]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        print("%s: %d failing observations, by kind: %s" % (pid, len(bad), per))
        return 1
    return 0


def selects(sel, case):
    """case selector: comma separated name:value pairs which the case must carry."""
    for part in sel.split(","):
        k, _, v = part.partition(":")
        if str(case.get(k)) != v:
            return False
    return True


def once_per(items):
    seen, out = set(), []
    for i in items:
        k = json.dumps(i, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(i)
    return out
