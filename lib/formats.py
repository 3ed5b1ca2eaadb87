"""Writers of the four instance formats and of solution files."""
import random


def num(c):
    s = repr(float(c))
    if s.endswith(".0"):
        s = s[:-2]
    return s


def rail(inst, sep=" ", end="\n", last="\n"):
    out = ["%d%s%d" % (inst.nr, sep, inst.nc)]
    for c, col in zip(inst.costs, inst.cols):
        out.append(sep.join([num(c), str(len(col))] + [str(i + 1) for i in col]))
    return end.join(out) + last


def scp(inst, rng=None, end="\n", last="\n", width=12):
    def wrap(xs):
        res, i = [], 0
        while i < len(xs):
            w = rng.randint(1, width) if rng else width
            res.append(" ".join(xs[i:i + w]))
            i += w
        return res
    rows = [[] for _ in range(inst.nr)]
    for j, col in enumerate(inst.cols):
        for i in col:
            rows[i].append(j + 1)
    out = ["%d %d" % (inst.nr, inst.nc)] + wrap([num(c) for c in inst.costs])
    for r in rows:
        out.append(str(len(r)))
        out += wrap([str(j) for j in r])
    return end.join(out) + last


def cvrp(inst, sol, end="\n", last="\n"):
    out = ["%d %d" % (inst.nr, inst.nc)]
    for c, col in zip(inst.costs, inst.cols):
        out.append(" ".join([num(c), num(c + 1)] + [str(i) for i in col]))
    out.append(" ".join(map(str, sol)))
    return end.join(out) + last


def mps(inst, end="\n", last="\n", pairs=1, rng=None, header=True):
    """columns must not be empty lines: an empty column only has its objective entry"""
    out = (["NAME t"] if header else []) + ["ROWS", " N OBJ"]
    for i in range(inst.nr):
        out.append(" G R%d" % i)
    out.append("COLUMNS")
    for j, (c, col) in enumerate(zip(inst.costs, inst.cols)):
        ent = [("OBJ", num(c))] + [("R%d" % i, "1") for i in col]
        k = 0
        while k < len(ent):
            w = rng.randint(1, 2) if rng else pairs
            out.append("    C%d " % j + " ".join("%s %s" % e for e in ent[k:k + w]))
            k += w
    out.append("RHS")
    for i in range(inst.nr):
        out.append("    RHS R%d 1" % i)
    out.append("BOUNDS")
    for j in range(inst.nc):
        out.append(" UP BND C%d 1" % j)
    out.append("ENDATA")
    return end.join(out) + last
