"""Counter-models of failed obligations (explanation and search seeds only; never used to accept)."""
from terms import *
import prove


def model(ctx, cond, tries=60):
    """integer values of the symbols that satisfy the hypotheses and violate cond, or None"""
    ge, eq, ne, other = ctx.facts()
    hs = list(ge) + list(eq) + [-e for e in eq]
    hs = [h for h in hs if all(a.sort == "i" for a in h.atoms())]
    goals = []

    def add(c):
        if c.kind == "ge":
            goals.append((c.args[0], hs))
        elif c.kind == "eq":
            goals.append((c.args[0], hs))
            goals.append((-c.args[0], hs))
        elif c.kind == "ne":
            goals.append((C(-1), hs + [c.args[0], -c.args[0]]))
        elif c.kind == "false":
            goals.append((C(-1), hs))
        elif c.kind == "and":
            for x in c.args:
                add(x)
    add(cond)
    for p, h in goals[:6]:
        try:
            env = prove.refute(p, h, tries)
        except Exception:
            env = None
        if env:
            out = {}
            for a, v in env.items():
                if a.kind == "sym":
                    out[str(a.args[0])] = int(v)
            return out
    return None
