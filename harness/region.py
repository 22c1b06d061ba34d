"""Documented operating regions as half-planes, and an exact projection for comparison."""
import math


def gen_region(S, d):
    """[(a_p, a_q, b)]: a_p p + a_q q <= b.  d: the documented per-unit limits."""
    R = [(-1, 0, -d["p_min"]), (1, 0, d["p_max"]), (0, -1, -d["q_min"]), (0, 1, d["q_max"])]
    if "p_pot" in d:
        R.append((1, 0, d["p_pot"]))
    if d.get("slope_plus"):
        # from (P+, Qmax) to (Pmax, Q+), and from (P+, Qmin) to (Pmax, Q-)
        w = d["p_max"] - d["p_plus"]
        t1, t2 = (d["q_max"] - d["q_plus"]) / w, (d["q_minus"] - d["q_min"]) / w
        R.append((t1, 1, d["q_max"] + t1 * d["p_plus"]))
        R.append((t2, -1, t2 * d["p_plus"] - d["q_min"]))
    if d.get("slope_minus"):
        # from (P-, Qmax) to (Pmin, Q+), and from (P-, Qmin) to (Pmin, Q-)
        w = d["p_minus"] - d["p_min"]
        t4, t3 = (d["q_max"] - d["q_plus"]) / w, (d["q_minus"] - d["q_min"]) / w
        R.append((-t4, 1, d["q_max"] - t4 * d["p_minus"]))
        R.append((-t3, -1, -t3 * d["p_minus"] - d["q_min"]))
    if "soc" in d:
        dt, eff = d["delta_t"], d["eff"]
        R.append((-1, 0, (d["soc_max"] - d["soc"]) / (dt * eff)))
        R.append((1, 0, eff * (d["soc"] - d["soc_min"]) / dt))
    return R


def inside(S, R, x, tol=None):
    return S.And(*[S.le(a * x[0] + b * x[1], c, tol) for a, b, c in R if not _inf(c)])


def _inf(c):
    return isinstance(c, float) and math.isinf(c)


def dist2(x, y):
    return (x[0] - y[0]) * (x[0] - y[0]) + (x[1] - y[1]) * (x[1] - y[1])


def project(R, pt):
    """Exact (floating-point) projection of a concrete point on the region."""
    R = [tuple(float(v) for v in r) for r in R if not _inf(r[2])]
    R = [(a / n, b / n, c / n) for a, b, c in R for n in [math.hypot(a, b)] if n > 0]
    ok = lambda x: all(a * x[0] + b * x[1] <= c + 1e-9 for a, b, c in R)
    cand = [tuple(map(float, pt))]
    for a, b, c in R:
        t = c - a * pt[0] - b * pt[1]
        cand.append((pt[0] + t * a, pt[1] + t * b))
    for i, (a, b, c) in enumerate(R):
        for a2, b2, c2 in R[i + 1:]:
            det = a * b2 - a2 * b
            if abs(det) > 1e-12:
                cand.append(((c * b2 - c2 * b) / det, (a * c2 - a2 * c) / det))
    cand = [x for x in cand if ok(x)]
    return min(cand, key=lambda x: dist2(x, pt)) if cand else None
