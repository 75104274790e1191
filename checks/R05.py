"""R05: peak measurement reports the strongest peak of the Faraday spectrum."""
import itertools, os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc, ref
import numpy as np
from RMutils.util_RM import measure_FDF_parms

PID, LEVEL = "R05", "exploration"
RULE = ("one evaluation = one measured spectrum; batches enumerate every amplitude word over {0,1,2,3,NaN} on a short grid, every peak position and "
        "phase on a longer one; non-trivial = the strongest channel is next to an edge, tied, NaN samples exist or the vertex leaves the range")
ASSUMPTIONS = ["equally strong non-edge channels: any of them may be taken as the peak"]
CHUNK = 2

GRIDS = {"sym": np.linspace(-60, 60, 6), "odd": np.linspace(-50, 50, 5), "asym": np.linspace(-20, 90, 6), "neg": np.linspace(-310, -260, 6), "pos": np.linspace(5, 8, 6)}


def noise_ref(F, i, fwhm, dphi):
    n = len(F)
    w = int(np.ceil(fwhm / dphi)) * 2
    keep = [F[k] for k in range(n) if not (max(0, i - w) <= k < min(n, i + w)) and not np.isnan(F[k])]
    use = keep if len(keep) / n >= 0.3 else [v for v in F if not np.isnan(v)]
    a = np.array([v.real for v in use] + [v.imag for v in use])
    return float(np.median(np.abs(a - np.median(a))) / 0.6745)


def measure(F, phi, fwhm, dF, lsq, lam0, thr, i):
    """reference measurement with channel i as the peak"""
    A = np.abs(F)
    noise = noise_ref(F, i, fwhm, phi[1] - phi[0])
    d = noise if dF is None else dF
    ym, y0, yp = [float(A[k]) for k in (i - 1, i, i + 1)]
    h = phi[1] - phi[0]
    curv, slope = ym - 2 * y0 + yp, (yp - ym) / 2
    r = dict(dFDFcorMAD=noise, dAmpPeakPIfit=d)
    with np.errstate(all="ignore"):
        t = np.float64(-slope) / np.float64(curv)
        v, amp = phi[i] + h * t, np.float64(y0 + slope * t / 2)
    inside = phi[0] <= v <= phi[-1]
    near = min(abs(v - phi[0]), abs(v - phi[-1])) < 1e-9 * max(abs(phi)) if np.isfinite(v) else False
    if near:
        return None
    if not inside:
        v = amp = np.nan
    N = len(lsq)
    var = (np.sum(lsq**2) - np.sum(lsq) ** 2 / N) / (N - 1)
    with np.errstate(all="ignore"):
        snr = np.float64(amp) / d
        if not np.isnan(snr) and abs(snr - thr) < 1e-7:
            return None
        eff = np.sqrt(amp**2 - 2.3 * d**2) if snr >= thr else amp
        re, im = (np.interp(v, phi, F.real), np.interp(v, phi, F.imag)) if inside else (np.nan, np.nan)
        chi = 0.5 * np.degrees(np.arctan2(im, re)) % 180
        r.update(phiPeakPIfit_rm2=v, ampPeakPIfit=amp, dPhiPeakPIfit_rm2=fwhm * d / (2 * amp), ampPeakPIfitEff=eff, snrPIfit=snr,
                 indxPeakPIfit=(v - phi[0]) / h, peakFDFimagFit=im, peakFDFrealFit=re, polAngleFit_deg=chi, dPolAngleFit_deg=np.degrees(d / (2 * amp)),
                 polAngle0Fit_deg=(chi - np.degrees(v * lam0)) % 180,
                 dPolAngle0Fit_deg=np.degrees(np.sqrt(d**2 * N / (4 * (N - 2) * amp**2) * ((N - 1) / N + lam0**2 / var))))
    r["_inside"] = bool(inside)
    r["_unit"] = float(np.nanmax(A))
    r["_pol"] = np.hypot(re, im)
    return r


AMPS = ("dFDFcorMAD", "dAmpPeakPIfit", "ampPeakPIfit", "ampPeakPIfitEff", "peakFDFimagFit", "peakFDFrealFit")  # in flux units


def close(k, a, b, r):
    if k == "snrPIfit" and not r["_inside"]:
        return True  # not defined there
    if a is None:
        return False
    a = float(a)
    if np.isnan(b) or np.isnan(a):
        return bool(np.isnan(a) and np.isnan(b))
    if np.isinf(b):
        return a == b
    if "Angle" in k and not k.startswith("d"):
        if r["_pol"] < 1e-9 * r["_unit"]:
            return 0 <= a < 180  # undefined angle
        dd = abs(a - b) % 180
        return min(dd, 180 - dd) < 1e-5 and 0 <= a < 180 + 1e-9
    return abs(a - b) <= 1e-5 * abs(b) + (2e-5 if k == "indxPeakPIfit" else 1e-9 * (r["_unit"] if k in AMPS else 1.0))


def diff(got, r):
    return [k for k in r if not k.startswith("_") and not close(k, got[k], r[k], r)]


def cases(tier):
    big = tier == "thorough"
    out = []
    for g in GRIDS:
        for first in (0, 1, 2, 3, "nan"):
            for noise in (None, 0.05, 0.4, 1.0):
                for thr in (5.0,) if not big else (5.0, 0.0, 3.0):
                    out.append(dict(kind="word", grid=g, first=first, noise=noise, thr=thr, fw=1, big=big))
                    if noise is None:
                        out.append(dict(kind="word", grid=g, first=first, noise=noise, thr=thr, fw=0, big=big))
    for n in (21, 30) if not big else (21, 30, 41, 64):
        for lo in (-1.0, -0.25, 0.2):
            for fw in (0.7, 2.4, 4.5, 30.2):
                for nz in (None, 0.01, 0.3):
                    out.append(dict(kind="long", n=n, lo=lo, fw=fw, noise=nz, thr=5.0))
    for n in (301, 1000):
        for fw in (0.7, 4.5, 30.2, 400.0):
            for nz in (None, 0.01):
                out.append(dict(kind="long", n=n, lo=-0.75, fw=fw, noise=nz, thr=5.0, step=89))
    return out


def judge(out, F, phi, fwhm, dF, lsq, lam0, thr, info):
    A = np.abs(F)
    inner = A[1:-1]
    if np.all(np.isnan(inner)):
        return None
    m = np.nanmax(inner)
    if m == 0:
        return None  # nothing to measure
    cand = [k + 1 for k in range(len(inner)) if inner[k] >= m * (1 - 1e-9)]
    F0 = F.copy()
    got = measure_FDF_parms(F, phi, fwhm, dFDF=dF, lamSqArr_m2=lsq, lam0Sq=lam0, snrDoBiasCorrect=thr)
    out.step()
    out.check(np.array_equal(F, F0, equal_nan=True), "inputs", lambda: "spectrum modified; " + info())
    best, rbest = None, None
    for i in cand:
        r = measure(F, phi, fwhm, dF, lsq, lam0, thr, i)
        if r is None:
            return got
        bad = diff(got, r)
        if best is None or len(bad) < len(best):
            best, rbest = bad, r
    special = len(cand) > 1 or np.any(np.isnan(F)) or cand[0] in (1, len(F) - 2) or not rbest["_inside"]
    out.ev(special)
    out.check(not best, "measure", lambda: "%s; %s" % ({k: (got[k], rbest[k]) for k in best[:4]}, info()))
    return got


def rel(out, base, other, fn, what, info):
    """other == fn(base), only when the base peak is a genuine measurement"""
    if base is None or other is None or not np.isfinite(base["phiPeakPIfit_rm2"]) or np.hypot(base["peakFDFrealFit"], base["peakFDFimagFit"]) < 1e-9:
        return
    want = dict(base)
    want.update(fn(base))
    want["_inside"], want["_pol"], want["_unit"] = True, np.inf, abs(want["ampPeakPIfit"])
    want.pop("peakFDFimagFit"), want.pop("peakFDFrealFit")
    bad = diff(other, want)
    out.check(not bad, what, lambda: "%s; %s" % ({k: (other[k], want[k]) for k in bad[:4]}, info()))


def run(case, out):
    lsq = ref.lamsq(ref.freqs("irr", 7))
    lam0 = 0.06
    thr, dF = case["thr"], case["noise"]
    if case["kind"] == "word":
        phi = GRIDS[case["grid"]]
        n = len(phi)
        h = phi[1] - phi[0]
        fwhm = h * (0.4 if case["fw"] == 0 else 1.3)
        val = {0: 0.0, 1: 1.0, 2: 2.0, 3: 3.3, "nan": np.nan}
        alph = [0, 1, 2, 3, "nan"] if (n == 5 or case["big"]) else [0, 1, 2, 3]
        phase = np.exp(1j * (0.4 + 1.9 * np.arange(n)))
        for k, w in enumerate(itertools.product(alph, repeat=n - 1)):
            word = [case["first"]] + list(w)
            F = np.array([val[x] for x in word]) * phase
            info = lambda: "amplitudes %s grid %s" % (word, case["grid"])
            g = judge(out, F, phi, fwhm, dF, lsq, lam0, thr, info)
            if g is not None and k % 4 == 1:
                out.state([g[x] for x in sorted(g)])
        out.sig = case["grid"]
        return
    n = case["n"]
    phi = np.linspace(case["lo"] * 200, case["lo"] * 200 + 300, n)
    h = phi[1] - phi[0]
    fwhm = h * case["fw"]
    back = 0.05 * np.cos(np.arange(n) * 2.1) + 0.04j * np.sin(np.arange(n) * 3.3)
    for pos in sorted(set(range(0, n, case.get("step", 1))) | {1, n // 2, n - 2, n - 1}):
        for sub in (-0.4, 0.0, 0.3):
            for ang in (0.0, 1.5, 2.9, -0.7):
                x = np.arange(n) - pos - sub
                F = (np.exp(-0.5 * (x / 1.2) ** 2) * (1 + 0j) + back) * np.exp(1j * ang)
                info = lambda: "peak at channel %d%+g phase %g n=%d grid from %g fwhm %g noise %s" % (pos, sub, ang, n, phi[0], fwhm, dF)
                g = judge(out, F, phi, fwhm, dF, lsq, lam0, thr, info)
                if g is None:
                    continue
                out.state([g[x] for x in sorted(g)])
                snr = g["snrPIfit"]
                if snr is not None and np.isfinite(snr) and snr > 2 and np.isfinite(g["phiPeakPIfit_rm2"]):
                    # the limit itself is corrected, anything above the measured ratio is not
                    for lim, on in ((snr, True), (np.nextafter(snr, np.inf), False)):
                        o = measure_FDF_parms(F.copy(), phi, fwhm, dFDF=dF, lamSqArr_m2=lsq, lam0Sq=lam0, snrDoBiasCorrect=lim)
                        a, d = o["ampPeakPIfit"], o["dAmpPeakPIfit"]
                        want = np.sqrt(a**2 - 2.3 * d**2) if on else a
                        out.step()
                        out.check(abs(o["ampPeakPIfitEff"] - want) <= 1e-9 * abs(want), "bias-limit", lambda: "ratio %r limit %r: corrected amplitude %r expected %r; %s" % (snr, lim, o["ampPeakPIfitEff"], want, info()))
                # rotated, scaled, shifted spectra
                for dchi in (0.25, 1.4):
                    o = judge(out, F * np.exp(2j * dchi), phi, fwhm, dF if dF is None else dF, lsq, lam0, thr, info)
                    if dF is not None:
                        rel(out, g, o, lambda b: dict(dFDFcorMAD=o["dFDFcorMAD"], polAngleFit_deg=b["polAngleFit_deg"] + np.degrees(dchi), polAngle0Fit_deg=b["polAngle0Fit_deg"] + np.degrees(dchi)), "rotate", info)
                for s in (37.0, 2e-9, 5e7):
                    o = judge(out, F * s, phi, fwhm, None if dF is None else dF * s, lsq, lam0, thr, info)
                    amps = ("dFDFcorMAD", "ampPeakPIfit", "ampPeakPIfitEff", "dAmpPeakPIfit")
                    rel(out, g, o, lambda b: {k: b[k] * s for k in amps}, "scale", info)
                sh = 77.0
                o = judge(out, F, phi + sh, fwhm, dF, lsq, lam0, thr, info)
                rel(out, g, o, lambda b: dict(phiPeakPIfit_rm2=b["phiPeakPIfit_rm2"] + sh, polAngle0Fit_deg=b["polAngle0Fit_deg"] - np.degrees(sh * lam0)), "shift", info)
    out.sig = "long%d" % n


if __name__ == "__main__":
    mc.main(sys.modules[__name__])
