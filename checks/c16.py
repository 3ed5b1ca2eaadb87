import itertools, os
import vf, filesc, gen, formats

FMTS = ("RAIL", "SCP", "CVRP", "MPS")


def truncations(rng, per):
    """every prefix of a few files"""
    fs = []
    for fmt in FMTS:
        for _ in range(per):
            inst = gen.rnd_inst(rng, rng.randint(1, 3), rng.randint(1, 3), "int", empty=0)
            L = filesc.lay(rng, fmt, inst, gen.greedy_ws(rng, inst))
            t = L.text(plain=True)
            fs += [filesc.F(fmt, t[:k], tag="truncated") for k in range(len(t) + 1)]
    return fs


def everyword(rng, per):
    """each word of a file replaced by neighbours and by limits, removed, doubled"""
    fs = []
    for fmt in FMTS:
        for _ in range(per):
            inst = gen.rnd_inst(rng, 2, 3, "int", empty=0)
            L = filesc.lay(rng, fmt, inst, gen.greedy_ws(rng, inst))
            for k, line in enumerate(L.lines):
                for i, w in enumerate(line):
                    reps = [[], [w, w], [rng.choice(filesc.BADNUM)], [rng.choice(filesc.BADNUM)]]
                    try:
                        v = int(w)
                        reps += [[str(v + 1)], [str(v - 1)], [str(v + 65536)], [str(v + 2 ** 32)], ["%d.5" % v], ["%dx1" % v if 0 else "%d-1" % v]]
                    except ValueError:
                        reps += [[w + "z"], [w[:-1]] if len(w) > 1 else [], ["q"]]
                    for r in reps:
                        M = L.copy()
                        M.lines[k][i:i + 1] = r
                        fs.append(filesc.F(fmt, M.text(plain=True), tag="word changed"))
    return fs


def infeasible(rng, n):
    """whole files with one fault of meaning: an uncovered row, a repeated row, an invalid initial solution"""
    fs = []
    for q in range(n):
        fmt = FMTS[q % 4]
        inst = filesc.small_inst(rng, fmt)
        s = gen.greedy_ws(rng, inst)
        kind = rng.choice(["uncovered", "repeated", "notcover", "twice", "range"])
        ws = None
        if kind == "uncovered":
            i = rng.randrange(inst.nr)
            inst.cols = [[r for r in c if r != i] for c in inst.cols]
        elif kind == "repeated":
            js = [j for j in range(inst.nc) if inst.cols[j]]
            j = rng.choice(js)
            inst.cols[j] = inst.cols[j] + [rng.choice(inst.cols[j])]
            if fmt == "SCP":           # the column twice in a row's list
                L = filesc.lay(rng, fmt, inst, s)
                i = inst.cols[j][-1]
                rows = [[str(k + 1) for k in range(inst.nc) if r in inst.cols[k]] for r in range(inst.nr)]
                rows[i].insert(rng.randint(0, len(rows[i])), str(j + 1))
                L.lines = [["%d" % inst.nr, "%d" % inst.nc], [formats.num(c) for c in inst.costs]]
                for r in rows:
                    L.lines += [[str(len(r))], r]
                fs.append(filesc.F(fmt, L.text(rng), tag=kind))
                continue
        else:
            w = list(s)
            if kind == "notcover":
                w.pop(rng.randrange(len(w)))
                cov = {r for j in w for r in inst.cols[j]}
            elif kind == "twice":
                w.insert(rng.randint(0, len(w)), rng.choice(w))
            else:
                w[rng.randrange(len(w))] = rng.choice([inst.nc, -1, inst.nc + 1, 2 ** 31 - 1, 2 ** 32])
            if fmt == "CVRP" and rng.random() < 0.5:
                s = w
            else:
                ws = " ".join(["7"] + [str(j) for j in w]) + "\n"
        fs.append(filesc.F(fmt, filesc.lay(rng, fmt, inst, s).text(rng), ws, tag=kind))
    return fs


def limits(rng, n):
    """sizes around the largest index of one byte types"""
    fs = []
    for q in range(n):
        fmt = FMTS[q % 4]
        nr, nc = rng.choice([(rng.randint(120, 131), rng.randint(1, 4)), (rng.randint(1, 3), rng.randint(120, 131)), (rng.randint(125, 129), rng.randint(125, 129)), (rng.randint(250, 259), 2), (2, rng.randint(250, 259))])
        cols = [[] for _ in range(nc)]
        for i in range(nr):
            cols[rng.randrange(nc)].append(i)
        for j in range(nc):
            cols[j] = cols[j] or [rng.randrange(nr)]
        inst = gen.Inst(nr, cols, [1.0] * nc)
        fs.append(filesc.F(fmt, filesc.lay(rng, fmt, inst, list(range(nc))).text(rng), None if rng.random() < 0.7 else "1 " + " ".join(map(str, range(nc))), tag="sizes near the limits"))
    return fs


def main():
    chk = vf.Check("C16")
    rng = chk.rng
    inv = ["MalformedRefused", "NeverMisread"]
    fs = []
    for i in range(chk.n(4000, 40000)):
        f = filesc.bad(rng, FMTS[i % 4])
        if not filesc.special(f.txt + (f.ws or "")) or i % 4 == 3:
            fs.append(f)
    fs = [f for f in fs if not (filesc.special(f.ws or "") or (f.fmt == "MPS" and any(w in f.txt.lower() for w in (" 0x", "inf", "nan"))))]
    filesc.run(chk, "broken at random", fs, inv, sanitize=True)
    fs = truncations(rng, chk.n(2, 12)) + everyword(rng, chk.n(3, 15)) + infeasible(rng, chk.n(800, 8000))
    for fmt in FMTS:
        for t in ("", "\n", " ", "\n\n\n", "0", "0 0", "0 0\n", "1 1", "1 1\n", "-1 -1\n", "1 0\n", "0 1\n1 0\n", "32767 1\n", "32768 1\n", "1 2147483648\n", "@none@", "ROWS\nCOLUMNS\nRHS\n", "ROWS", "COLUMNS\nRHS\n", "ROWS\n N\n", "ROWS\n N O\nCOLUMNS\n C O 1\nRHS\n",
                  "1\x001\n", "\x00", "\xff\xfe1 1\n", "1 1\n1 1 1\n\x00\n", "1 1 1\n", "1\n1\n"):
            fs.append(filesc.F(fmt, t, tag="special"))
    filesc.run(chk, "broken systematically", [f for f in fs if not filesc.special(f.txt.replace("'MARKER'", ""))], inv, sanitize=True)
    for t in ("int8_t", "uint8_t"):
        filesc.run(chk, "limits of " + t, limits(rng, chk.n(60, 400)), ["WellFormedRead"] + inv, sanitize=True, defs=["-DCFT_RIDX_TYPE=" + t, "-DCFT_CIDX_TYPE=" + t])
    return chk.finish("well-formed files changed at random (words, lines, characters) and systematically (every prefix, every word), files with one fault of meaning; the parser runs under address and undefined behaviour sanitizers; verdicts computed by FileFormats.tla",
                      ["hexadecimal, inf and nan literals are not judged", "layouts outside the formats (blank lines inside, several objectives in MPS, further lines in a solution file) may be accepted or refused"])
