"""Recording and replaying the on-disk states a tool goes through.

run_tool() forks, runs one tool in the child and returns what it did; with record=True the
child also reports every distinct state of the directory that existed while the tool ran
(the directory is read after every call that can change it: open, write, flush, close,
truncate, remove, rename, mkdir, array dumps).  A process killed at any moment leaves one of
these states, or one of them with the last write partly done: torn() builds those.
"""
import builtins, hashlib, os, pickle, resource, shutil, signal, sys, traceback

NAMES = {"open", "write", "writelines", "flush", "close", "__exit__", "tofile", "truncate", "remove", "unlink", "rename", "replace", "mkdir", "rmdir", "copyfile", "sendfile", "ftruncate", "dump", "fsync", "link", "symlink"}


def snapshot(root):
    """relative path -> bytes (directories: None)"""
    out = {}
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        for x in ds:
            out[os.path.normpath(os.path.join(rel, x))] = None
        for x in fs:
            p = os.path.join(d, x)
            try:
                with open(p, "rb") as f:
                    out[os.path.normpath(os.path.join(rel, x))] = f.read()
            except FileNotFoundError:
                pass
    return out


def restore(root, snap):
    for x in os.listdir(root):
        p = os.path.join(root, x)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    for k in sorted(snap):
        p = os.path.join(root, k)
        if snap[k] is None:
            os.makedirs(p, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(snap[k])


class Recorder:
    def __init__(self, root):
        self.root, self.states, self.busy = root, [snapshot(root)], False

    def look(self):
        self.busy = True
        try:
            s = snapshot(self.root)
            last = self.states[-1]
            if s != last:
                for k in s:  # share unchanged contents
                    if k in last and last[k] == s[k]:
                        s[k] = last[k]
                self.states.append(s)
        finally:
            self.busy = False

    def hook(self, frame, event, arg):
        if self.busy or event not in ("c_return", "c_exception"):
            return
        if getattr(arg, "__name__", None) in NAMES:
            self.look()

    def __enter__(self):
        sys.setprofile(self.hook)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)
        self.look()


def run_tool(call, root, record=False, limit=None):
    """call() in a forked child with the working directory root -> dict(status, error, states)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(0)
            for s in (signal.SIGALRM, signal.SIGVTALRM):
                signal.signal(s, signal.SIG_DFL)
            signal.alarm(240)
            os.chdir(root)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1), os.dup2(dn, 2)
            sys.stdout = sys.stderr = open(os.devnull, "w")
            res = {"status": None, "error": "", "states": None}
            rec = Recorder(root) if record else None
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
            try:
                if rec:
                    with rec:
                        res["status"] = call()
                else:
                    res["status"] = call()
            except BaseException as e:
                res["status"] = "raised"
                res["error"] = "%s: %s" % (type(e).__name__, str(e)[:300])
            if rec:
                res["states"] = rec.states
            with os.fdopen(w, "wb") as f:  # a pipe: no size limit
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return {"status": "died", "error": "child died", "states": []}
    return pickle.loads(data)


def torn(a, b, deep=False):
    """states between the consecutive states a and b with the last write partly done"""
    out = []
    for k in sorted(b):
        new, old = b[k], a.get(k)
        if new is None or old == new:
            continue
        base = len(old) if old is not None and new.startswith(old) else 0
        n = len(new)
        if base or old is None or len(old) != n:
            cuts = {base + (n - base) // 2}
            if deep:
                cuts |= {base + 1, n - 1} | {x for x in (base + (n - base) // 4, n - (n - base) // 4)}
                if n > 2880:
                    cuts.add((base + (n - base) // 2) // 2880 * 2880)
            for c in sorted(cuts):
                if base < c < n:
                    s = dict(a)
                    s[k] = new[:c]
                    out.append(s)
        else:
            h = n // 2
            for v in (new[:h] + old[h:], old[:h] + new[h:]):
                if v not in (new, old):
                    s = dict(a)
                    s[k] = v
                    out.append(s)
    return out
