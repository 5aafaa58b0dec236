"""Format of the CPU lists of Linux (Documentation/admin-guide/cputopology.rst): entries N or N-M, separated by commas."""
import re


def entries(tpl):
    """Template (see vf/strflow.py) -> list of (kind, positions) per entry: ("one", (a, b)) the digits of N,
    ("range", (a, b), (c, d)) the digits of N and M, ("none",) something that does not start with a number,
    ("any",) everything else, for which nothing is promised."""
    out = []
    pos = 0
    for e in tpl.split(","):
        s, t = pos, pos + len(e)
        pos = t + 1
        while s < t and tpl[s] == "W":
            s += 1
        while t > s and tpl[t - 1] == "W":
            t -= 1
        x = tpl[s:t]
        if re.fullmatch(r"D+", x):
            out.append(("one", (s, t)))
        elif re.fullmatch(r"D+-D+", x):
            k = s + x.index("-")
            out.append(("range", (s, k), (k + 1, t)))
        elif not x.startswith("D"):
            out.append(("none",))
        else:
            out.append(("any",))
    return out
