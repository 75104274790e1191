"""Make and confirm planted bugs.

seed.py make SPEC.py ...      SPEC defines ID, PROPERTY, EDITS=[(file, old, new[, count])], DEMO (python text), NEEDS, BREAKS
seed.py confirm ID ...        scratch copy: demo passes without / fails with the patch; stable tests pass with it
seed.py check ID [CHECK..]    which checks report it (quick), run against a patched scratch copy
"""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def copy():
    d = tempfile.mkdtemp(prefix="seedcopy", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    return d, d + "/repo"


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    d, r = copy()
    try:
        for ed in ns["EDITS"]:
            p = os.path.join(r, ed[0])
            s = open(p, newline="").read()
            if "\r\n" in s:
                ed = (ed[0], ed[1].replace("\n", "\r\n"), ed[2].replace("\n", "\r\n")) + tuple(ed[3:])
            n = ed[3] if len(ed) > 3 else 1
            assert s.count(ed[1]) == n, "%s: %r occurs %d times" % (ed[0], ed[1], s.count(ed[1]))
            open(p, "w", newline="").write(s.replace(ed[1], ed[2]))
        diff = subprocess.check_output(["git", "diff"], cwd=r)
        o = os.path.join(SEED, ns["ID"])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "wb").write(diff)
        open(o + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
        open(o + "/demo.sh", "w").write('#!/bin/bash\n# run with cwd /repo\nhere="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(o + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(d)
    return ns["ID"]


def demo(sid, r):
    t = tempfile.mkdtemp(prefix="seeddemo", dir="/tmp")
    try:
        for f in os.listdir(os.path.join(SEED, sid)):
            if not f.endswith((".diff", ".json")):
                shutil.copy(os.path.join(SEED, sid, f), t)
        return sh(["bash", t + "/demo.sh"], cwd=r, timeout=300)
    finally:
        shutil.rmtree(t)


def confirm(sid, tests=True):
    d, r = copy()
    try:
        a, oa = demo(sid, r)
        rc, o = sh("git apply %s/%s/patch.diff" % (SEED, sid), cwd=r)
        if rc:
            return "%s: patch does not apply: %s" % (sid, o)
        b, ob = demo(sid, r)
        msg = "%s: demo clean=%d patched=%d" % (sid, a, b)
        if a != 0:
            msg += "\n" + oa[-800:]
        msg += "\n   " + "\n   ".join(ob.strip().splitlines()[-2:])
        sh("git checkout -- . ; git clean -fdq; git apply %s/%s/patch.diff" % (SEED, sid), cwd=r)
        if tests:
            sh("rm -rf tests/simdata tests/models_ns models_ns", cwd=r)
            rc, o = sh(". /opt/vp/env.sh; export PYTHONPATH=%s; /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=600 -o junit_family=xunit2 --junitxml=%s/j.xml" % (r, d), cwd=r, timeout=2400)
            import xml.etree.ElementTree as E
            ok = set()
            for c in E.parse(d + "/j.xml").getroot().iter("testcase"):
                if not [x for x in c if x.tag in ("failure", "error", "skipped")]:
                    ok.add(c.get("classname") + "::" + c.get("name"))
            bad = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
            msg += "\n   stable tests failing: %s" % bad
        return msg
    finally:
        shutil.rmtree(d)


def check(sid, which):
    d, r = copy()
    out = []
    try:
        rc, o = sh("git apply %s/%s/patch.diff" % (SEED, sid), cwd=r)
        assert rc == 0, o
        for c in which or [json.load(open("%s/%s/meta.json" % (SEED, sid)))["property"]]:
            rc, o = sh(["bash", HERE + "/run.sh", c], env={"RMTOOLS_REPO": r}, timeout=900)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION") or "failing observations" in l]
            out.append("%s %s rc=%d %s" % (sid, c, rc, " | ".join(v)[:300]))
        return "\n".join(out)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        for s in args:
            print(make(s))
    elif cmd in ("confirm", "demo"):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            for m in ex.map(lambda s: confirm(s, cmd == "confirm"), args):
                print(m, flush=True)
    elif cmd == "check":
        print(check(args[0], args[1:]), flush=True)
    elif cmd == "checkall":
        for s in args or sorted(os.listdir(SEED)):
            print(check(s, []), flush=True)
