"""Thorough tier: goals the certificate search discharged are proved again by z3 (another back end, on the full hypotheses).

An answer "unsat" confirms the certificate; "unknown" (nonlinear integer arithmetic) confirms nothing and is counted as such;
"sat" would be a disagreement between the two back ends."""
import time
from fractions import Fraction
from math import lcm

import z3


def one(p, hs, ms):
    names = {}

    def v(a):
        if a not in names:
            names[a] = z3.Int("a%d" % a.id)
        return names[a]

    def tr(q):
        den = 1
        for c in q.t.values():
            if isinstance(c, Fraction):
                den = lcm(den, c.denominator)
        r = z3.IntVal(0)
        for m, c in q.t.items():
            t = z3.IntVal(int(c * den))
            for a in m:
                t = t * v(a)
            r = r + t
        return r
    s = z3.Solver()
    s.set("timeout", ms)
    for h in hs:
        s.add(tr(h) >= 0)
    s.add(tr(p) < 0)
    for a in list(names):
        if a.nonneg:
            s.add(names[a] >= 0)
    return str(s.check())


def certificates(dump, end, limit=120, ms=500):
    """{"goals", "tried", "unsat", "unknown", "sat"}; identical goals once, within `limit` seconds and before `end`"""
    stop = min(end, time.time() + limit)
    seen, out = set(), {"goals": len(dump), "tried": 0, "unsat": 0, "unknown": 0, "sat": 0, "disagreements": []}
    for p, hs in dump:
        key = (repr(p), len(hs))
        if key in seen:
            continue
        seen.add(key)
        if time.time() > stop:
            break
        r = one(p, hs, ms)
        out["tried"] += 1
        out[r] += 1
        if r == "sat" and len(out["disagreements"]) < 5:
            out["disagreements"].append(repr(p)[:300])
    return out
