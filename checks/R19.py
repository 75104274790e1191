"""R19: QU model functions obey their physics."""
import itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import numpy as np
import RMtools_1D.do_QUfit_1D_mnest as QF

PID, LEVEL = "R19", "exploration"
RULE = ("one evaluation = one parameter vector of one model at all wavelengths (incl. lambda^2 = 0 and large ones); a full grid over every parameter's prior range including both ends is enumerated and "
        "compared with the depth distribution the model stands for, integrated numerically; non-trivial = depolarisation or several components")
ASSUMPTIONS = ["depolarisation is compared with Gauss-Legendre quadrature of the slab/dispersion along the line of sight (relative accuracy 1e-9)"]
CHUNK = 1
LAM = np.array([0.0, 1e-6, 0.01, 0.023, 0.045, 0.09, 0.2, 1.0])
# components: (fraction, angle, RM, depolarisers); depolariser: ('ext', sigma) screen, ('slab', delta) with the RM at its near end, ('int', delta, sigma)
COMP = {
    1: [("fracPol", "psi0_deg", "RM_radm2", [])],
    2: [("fracPol", "psi0_deg", "RM_radm2", [("ext", "sigmaRM_radm2")])],
    3: [("fracPol1", "psi01_deg", "RM1_radm2", [("ext", "sigmaRM_radm2")]), ("fracPol2", "psi02_deg", "RM2_radm2", [("ext", "sigmaRM_radm2")])],
    4: [("fracPol1", "psi01_deg", "RM1_radm2", [("ext", "sigmaRM1_radm2")]), ("fracPol2", "psi02_deg", "RM2_radm2", [("ext", "sigmaRM2_radm2")])],
    5: [("fracPol", "psi0_deg", "RM_radm2", [("slab", "deltaRM_radm2")])],
    6: [("fracPol1", "psi01_deg", "RM1_radm2", [("slab", "deltaRM1_radm2")]), ("fracPol2", "psi02_deg", "RM2_radm2", [("slab", "deltaRM2_radm2")])],
    7: [("fracPol", "psi0_deg", "RM_radm2", [("int", "deltaRM_radm2", "sigmaRM_radm2")])],
    11: [("fracPol1", "psi01_deg", "RM1_radm2", []), ("fracPol2", "psi02_deg", "RM2_radm2", [])],
    12: [("fracPol", "psi0_deg", "RM_screen", [("int", "deltaRM_radm2", "sigmaRM_radm2"), ("ext", "sigmaRM_radm2_FG")])],
    111: [("fracPol%d" % i, "psi0%d_deg" % i, "RM%d_radm2" % i, []) for i in (1, 2, 3)],
}
GX, GW = np.polynomial.legendre.leggauss(400)
GT, GW = (GX + 1) / 2, GW / 2


def cases(tier):
    for m in COMP:
        for ip in range(5 if tier == "thorough" else 3):
            yield dict(m=m, ip=ip, big=tier == "thorough")
        yield dict(m=m, ip=-1, big=tier == "thorough")


_memo = {}


def depol(kind, vals):
    key = (kind,) + tuple(vals)
    if key not in _memo:
        if kind == "ext":
            _memo[key] = np.exp(-2 * vals[0] ** 2 * LAM**2) + 0j
        else:
            d, s = vals[0], vals[1] if kind == "int" else 0.0
            _memo[key] = (np.exp(np.outer(2j * d * LAM - 2 * s**2 * LAM**2, GT)) * GW).sum(1)
    return _memo[key]


def spec(m, p):
    tot = 0
    for f, a, r, deps in COMP[m]:
        c = p[f] * np.exp(2j * (np.deg2rad(p[a]) + p[r] * LAM))
        for d in deps:
            c = c * depol(d[0], [p[k] for k in d[1:]])
        tot = tot + c
    return tot


def run(case, out):
    m, big = case["m"], case["big"]
    with mc.scratch("r19"):
        mod = QF.load_model(m)
    pri = mod.priors
    names = sorted({k for c in COMP[m] for k in list(c[:3]) + [x for d in c[3] for x in d[1:]]})
    cons = {k: v for k, v in pri.items() if type(v).__name__ == "Constraint"}
    free = [k for k in pri.keys() if k not in cons]
    if not out.check(sorted(free) == names, "names", lambda: "model %d: parameters %s, documented %s" % (m, sorted(free), names)):
        return
    rng = {k: (float(pri[k].minimum), float(pri[k].maximum)) for k in names}
    if case["ip"] < 0:
        # priors: angles wrap over half a turn, fractions are fractions, widths are not negative, constraints
        for k in names:
            lo, hi = rng[k]
            out.check(lo < hi and np.isfinite([lo, hi]).all(), "prior", lambda: "model %d prior of %s: %s" % (m, k, (lo, hi)))
            if k.startswith("psi"):
                out.check((lo, hi) == (0.0, 180.0) and pri[k].boundary == "periodic", "prior", lambda: "model %d: angle %s over %s %s" % (m, k, (lo, hi), pri[k].boundary))
            elif k.startswith("fracPol"):
                out.check(lo == 0 and 0 < hi <= 1, "prior", lambda: "model %d: fraction %s over %s" % (m, k, (lo, hi)))
            elif k.startswith("sigma") or k.startswith("delta"):
                out.check(lo >= 0, "prior", lambda: "model %d: width %s over %s" % (m, k, (lo, hi)))
        fr = [c[0] for c in COMP[m]]
        rm = [c[2] for c in COMP[m]]
        if len(fr) > 1:
            base = {k: 0.5 * (rng[k][0] + rng[k][1]) for k in names}
            for vals in itertools.product([0.0, 0.2, 0.3, 0.35, 0.5, 0.6, 1.0], repeat=len(fr)):
                for rms in itertools.product([-900.0, -10.0, 0.0, 10.0, 50.0], repeat=len(rm)):
                    p = dict(base, **dict(zip(fr, vals)), **dict(zip(rm, rms)))
                    if any(abs(rms[i] - rms[i + 1]) < 1e-9 for i in range(len(rms) - 1)) or abs(sum(vals) - 1) < 1e-9 or sum(vals) == 0:
                        continue
                    ok = bool(np.all(pri.evaluate_constraints(dict(p))))
                    want = sum(vals) <= 1 and all(rms[i] > rms[i + 1] for i in range(len(rms) - 1))
                    out.step()
                    out.ev(True)
                    out.check(ok == want, "constraint", lambda: "model %d: fractions %s depths %s %s" % (m, vals, rms, "accepted" if ok else "rejected"))
        out.sig = "prior"
        return
    grid = {}
    for k in names:
        lo, hi = rng[k]
        if k.startswith("psi"):
            grid[k] = [lo, 33.0, 90.0, 115.0, hi]
        elif k.startswith("RM"):
            grid[k] = [lo, -17.5, 0.0, hi]
        elif k.startswith("frac"):
            grid[k] = [lo, 0.3, hi]
        else:
            grid[k] = [lo, 1e-7, 0.4, 13.0, hi]
    if len(names) > 5:
        for k in names:
            g = grid[k]
            grid[k] = g if big and len(names) < 8 else [g[0], g[-2]] if k.startswith("frac") else [g[0], g[1], g[-1]] if k.startswith("d") or k.startswith("s") else [g[1], g[-1]] if not k.startswith("psi") else [g[1], g[-2]]
    first = names[0]
    pts = grid[first] if not big else sorted(set(grid[first] + [0.05]))
    if case["ip"] >= len(pts):
        return
    nullphase = LAM * 0
    for vals in itertools.product([pts[case["ip"]]], *[grid[k] for k in names[1:]]):
        p = dict(zip(names, vals))
        lam = LAM.copy()
        pc = dict(p)
        r = np.asarray(mod.model(pc, lam))
        out.step()
        out.ev(len(COMP[m]) > 1 or bool(COMP[m][0][3]))
        info = lambda: "model %d at %s" % (m, p)
        out.check(pc == p and np.array_equal(lam, LAM), "inputs", lambda: "inputs modified; " + info())
        if not out.check(r.shape == LAM.shape and np.isfinite(r).all(), "undefined", lambda: "value %s; %s" % (r, info())):
            continue
        w = spec(m, p)
        tot = sum(p[c[0]] for c in COMP[m])
        out.check(np.all(np.abs(r - w) <= 1e-9 * (tot + 1e-3)), "value", lambda: "%s, expected %s (lambda^2 %s); %s" % (r, w, LAM, info()))
        out.check(np.all(np.abs(r) <= tot * (1 + 1e-9) + 1e-12), "fraction", lambda: "polarised fraction %s above %s; %s" % (np.abs(r), tot, info()))
        # half a turn of every angle changes nothing; shifting every depth by D turns the spectrum by 2 D lambda^2
        q = {k: v + (180.0 if k.startswith("psi") else 0.0) for k, v in p.items()}
        s = {k: v + (7.25 if k.startswith("RM") else 0.0) for k, v in p.items()}
        out.check(np.allclose(mod.model(q, LAM), r, atol=1e-9), "periodic", lambda: "changes with half a turn; " + info())
        out.check(np.allclose(mod.model(s, LAM), r * np.exp(2j * 7.25 * LAM), atol=1e-9), "shift", lambda: "does not rotate with the depth; " + info())
        # one wavelength at a time is the same
        one = [complex(np.asarray(mod.model(p, LAM[i : i + 1]))[0]) for i in (0, 4)]
        out.check(np.allclose(one, r[[0, 4]], atol=1e-12), "single", lambda: "depends on the other wavelengths; " + info())
        out.state(m, r)
    out.sig = m


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
