"""Texts of instance files (well formed in every free layout, and broken in every way) and their records."""
import math, random
from fractions import Fraction
import vf, gen, comp, formats

# ------------------------------------------------------------------ numbers
def lit(rng, c):
    """a literal of the cost c"""
    u = rng.random()
    s = formats.num(c)
    if "e" in s:
        return s
    if u < 0.1 and "." not in s:
        return s + rng.choice([".", ".0", ".000"])
    if u < 0.15 and "." in s:
        return s + "00"
    if u < 0.2:
        return "+" + s
    if u < 0.25:
        return "0" + s
    if u < 0.3 and "." not in s and c:
        return "%de%s%d" % (int(c), rng.choice(["", "+", "-"]), 0)
    if u < 0.33 and s.startswith("0.") and len(s) > 2:
        return s[1:]
    return s


def il(rng, i):
    u = rng.random()
    return "0%d" % i if u < 0.02 else "+%d" % i if u < 0.03 else "%d" % i


def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


def costs_for(rng, n):
    k = rng.random()
    if k < 0.6:
        reg = rng.choice(["int", "unit", "dyadic", "frac", "large", "zero", "tiny", "wide"])
        return [gen.cost_of(rng, reg) for _ in range(n)]
    out = []
    for _ in range(n):
        u = rng.random()
        out.append(float(rng.choice([16777217, 16777219, 33554433, 123456789, 0.1, 0.3, 1e-5, 2.0 ** -20, 3e37, 1e30, 99999.99, 0.7000001])) if u < 0.5 else round(rng.uniform(0, 100), rng.randint(0, 9)))
    return out


# ------------------------------------------------------------------ layouts
class Lay:
    """a text as lines of words, so that it can be broken at every level"""
    def __init__(self, fmt, lines, sol=None):
        self.fmt, self.lines, self.sol = fmt, lines, sol

    def copy(self):
        return Lay(self.fmt, [list(l) for l in self.lines], self.sol)

    def text(self, rng=None, plain=False):
        if plain or rng is None:
            return "\n".join(" ".join(l) for l in self.lines) + "\n"
        end = rng.choice(["\n", "\n", "\r\n"])
        sep = rng.choice([[" "], [" "], ["  ", " "], ["\t", " "], [" \t "]])
        ind = rng.choice([[""], [""], [" "], ["", "   ", "\t"]])
        tail = rng.choice([[""], [""], [" "], ["", "  ", "\t"]])
        out = []
        for l in self.lines:
            s = rng.choice(ind)
            for i, w in enumerate(l):
                s += (rng.choice(sep) if i else "") + w
            out.append(s + rng.choice(tail))
        t = end.join(out)
        return t + rng.choice([end, end, end, "", end * 2, end + "  " + end, " "])


def wrap(rng, ws):
    if not ws:
        return []
    mode = rng.choice(["one", "all", "rand", "rand"])
    if mode == "one":
        return [[w] for w in ws]
    if mode == "all":
        return [list(ws)]
    out = []
    while ws:
        k = rng.randint(1, 6)
        out.append(list(ws[:k]))
        ws = ws[k:]
    return out


def lay(rng, fmt, inst, sol=None):
    L = []
    costs = [lit(rng, c) for c in inst.costs]
    cols = [shuffled(rng, c) if rng.random() < 0.5 else list(c) for c in inst.cols]
    if fmt == "RAIL":
        L.append([il(rng, inst.nr), il(rng, inst.nc)])
        L += [[c, il(rng, len(col))] + [il(rng, i + 1) for i in col] for c, col in zip(costs, cols)]
    elif fmt == "SCP":
        L.append([il(rng, inst.nr), il(rng, inst.nc)])
        L += wrap(rng, costs)
        rows = [[j + 1 for j in range(inst.nc) if i in inst.cols[j]] for i in range(inst.nr)]
        for r in rows:
            L.append([il(rng, len(r))])
            L += wrap(rng, [il(rng, j) for j in (shuffled(rng, r) if rng.random() < 0.5 else r)])
    elif fmt == "CVRP":
        L.append([il(rng, inst.nr), il(rng, inst.nc)])
        L += [[c, rng.choice([c, "%d" % (int(k) + rng.randint(2, 9)) if k < 1e9 else "3.1e38"])] + [il(rng, i) for i in col] for c, k, col in zip(costs, inst.costs, cols)]
        L.append([il(rng, j) for j in sol])
    else:
        rn = rng.choice([lambda i: "R%d" % i, lambda i: "r%04d" % i, lambda i: "c%d_a" % i, lambda i: "%d" % (i + 1), lambda i: "ROW%d" % (i * 7), lambda i: ["COST", "RHS1", "N", "RHSX", "obj", "OBJ2", "BOUNDS", "ENDATA", "ROWSX"][i % 9] + "_" * (i // 9)])
        cn = rng.choice([lambda j: "C%d" % j, lambda j: "%d" % j, lambda j: "var_%d" % j, lambda j: "R%d" % j])
        on = rng.choice(["OBJ", "cost", "COST", "obj0", "z"])
        for _ in range(rng.choice([0, 1, 1, 2, rng.randint(0, 10)])):
            L.append(rng.choice([["NAME", "inst"], ["*", "a", "comment"], ["NAME"], ["OBJSENSE"], ["MIN"], ["*SENSE:Minimize"], ["N", "x1"], ["G", "y", "2"], ["1", "2", "3"]]))
        rl = [["G", rn(i)] for i in range(inst.nr)]
        rl.insert(rng.choice([0, 0, len(rl), rng.randint(0, len(rl))]), ["N", on])
        if rng.random() < 0.15:
            rl.insert(rng.randint(0, len(rl)), rng.choice([["*"], ["*", "G", "zz"]]))
        if rng.random() < 0.06:
            rng.choice([r for r in rl if r[0] == "G"])[0] = rng.choice("EL")
        L += [["ROWS"]] + rl + [["COLUMNS"]]
        if rng.random() < 0.3:
            L.append(["MARKER1", "'MARKER'", "'INTORG'"])
        for j, (c, k, col) in enumerate(zip(costs, inst.costs, cols)):
            ent = [[rn(i), rng.choice(["1", "1", "1", "1.0", "1."] if rng.random() < 0.98 else ["-1"])] for i in col]
            if k or not col or rng.random() < 0.5:
                ent.insert(rng.choice([0, 0, len(ent), rng.randint(0, len(ent))]), [on, c])
            q = 0
            while q < len(ent):
                w = rng.choice([1, 2, 2, 3, 5])
                L.append([cn(j)] + [x for e in ent[q:q + w] for x in e])
                if rng.random() < 0.03:
                    L.append(["*", "comment"])
                q += w
        if rng.random() < 0.3:
            L.append(["MARKER2", "'MARKER'", "'INTEND'"])
        L.append(["RHS"])
        q = list(range(inst.nr))
        while q:
            w = rng.choice([1, 2])
            L.append(["RHS"] + [x for i in q[:w] for x in (rn(i), "1")])
            q = q[w:]
        L.append(["BOUNDS"])
        L += [["UP", "BND", cn(j), "1"] for j in range(inst.nc)]
        L.append(["ENDATA"])
    return Lay(fmt, L, sol)


# ------------------------------------------------------------------ breakage
BADNUM = ["abc", "-", "+", ".", "1.5.5", "1-2", "1,2", "--1", "1e", "99999999999999999999", "-99999999999999999999", "1e39", "-1", "0", "32767", "32768", "40000", "65537", "65536", "70000", "2147483648", "4294967296", "4294967297", "1.5",
          "1e5", "3;", "1_000", "/", "1e400", "2.0", "-0", "9999999", "N", "RHS", "3.5e38"]


def nudge(rng, w):
    try:
        return str(int(w) + rng.choice([1, -1, 1, -1, 65536, 4294967296, -65536, 1000]))
    except ValueError:
        return rng.choice(BADNUM)


def breakit(rng, L):
    """one random change of the words"""
    L = L.copy()
    ls = L.lines
    if not ls:
        return L
    k = rng.randrange(len(ls)) if rng.random() < 0.7 else rng.choice([0, len(ls) - 1])
    u = rng.randrange(14)
    line = ls[k]
    if u == 0 and line:
        line[rng.randrange(len(line))] = rng.choice(BADNUM)
    elif u in (1, 2) and line:
        i = rng.randrange(len(line))
        line[i] = nudge(rng, line[i])
    elif u == 3 and line:
        del line[rng.randrange(len(line))]
    elif u == 4:
        line.insert(rng.randint(0, len(line)), rng.choice(["1", "2", "0", rng.choice(rng.choice(ls) or ["1"]), rng.choice(BADNUM)]))
    elif u == 5:
        del ls[k]
    elif u == 6:
        ls.insert(rng.randint(0, len(ls)), list(line))
    elif u == 7 and k + 1 < len(ls):
        ls[k] = line + ls.pop(k + 1)
    elif u == 8 and len(line) > 1:
        q = rng.randint(1, len(line) - 1)
        ls[k:k + 1] = [line[:q], line[q:]]
    elif u == 9:
        ls.insert(rng.randint(0, len(ls)), [])
    elif u == 10 and len(ls) > 1:
        q = rng.randrange(len(ls))
        ls[k], ls[q] = ls[q], ls[k]
    elif u == 11 and line:
        line.append(line[-1])
    elif u == 12:
        del ls[k:]
    elif u == 13:
        ls.append(rng.choice([["1"], ["end"], ["0", "1"], ["#", "x"], list(line)]))
    return L


def breakchars(rng, t):
    """one random change of the characters"""
    u = rng.randrange(6)
    if not t:
        return "\n"
    k = rng.randrange(len(t))
    if u <= 1:
        return t[:k]
    c = rng.choice("0123456789 \n\t.-+eabc*'\r\x00\xff,;")
    if u == 2:
        return t[:k] + t[k + 1:]
    if u == 3:
        return t[:k] + c + t[k:]
    return t[:k] + c + t[k + 1:]


def special(t):
    """literals that the specification does not judge"""
    low = t.lower()
    return "x" in low or "inf" in low or "nan" in low


# ------------------------------------------------------------------ cases
class F:
    __slots__ = ("fmt", "txt", "ws", "unit", "tag")

    def __init__(self, fmt, txt, ws=None, unit=False, tag=""):
        self.fmt, self.txt, self.ws, self.unit, self.tag = fmt, txt, ws, unit, tag

    def case(self, path):
        T = lambda s: "%d %s" % (len(s), " ".join(str(ord(c)) for c in s))
        return "%s %d %s %s %s" % (self.fmt, self.unit, path, T(self.txt), "-1" if self.ws is None else T(self.ws))

    def stim(self):
        return {"fmt": self.fmt, "text": self.txt, "initsol": self.ws, "unit": self.unit, "kind": self.tag}


def init_text(rng, inst, s, broken=False):
    ws = [formats.num(gen.f32sum(inst.costs[j] for j in s))] + [str(j) for j in s]
    if broken:
        L = Lay("SOL", [ws])
        for _ in range(rng.choice([1, 1, 2])):
            L = breakit(rng, L)
        return L.text(rng)
    if rng.random() < 0.3:
        ws[0] = rng.choice(["0", "1", "-1", "3.4e38", "1e-9", "7.25"])      # the cost comes from the columns
    return Lay("SOL", [ws]).text(rng)


def small_inst(rng, fmt):
    nr, nc = rng.randint(1, 5), rng.randint(1, 6)
    inst = gen.rnd_inst(rng, nr, nc, "int", empty=rng.choice([0, 0.1]))
    inst.costs = costs_for(rng, nc)
    if fmt == "CVRP" and rng.random() < 0.3:
        inst.costs = [float(int(min(c, 1e6))) for c in inst.costs]
    return inst


def good(rng, fmt, inst=None):
    inst = inst or small_inst(rng, fmt)
    s = gen.greedy_ws(rng, inst)
    L = lay(rng, fmt, inst, s)
    ws = None
    if rng.random() < 0.25:
        ws = init_text(rng, inst, gen.greedy_ws(rng, inst))
    return F(fmt, L.text(rng), ws, rng.random() < 0.15, "well formed"), L, inst


def bad(rng, fmt):
    f, L, inst = good(rng, fmt)
    u = rng.random()
    if u < 0.6:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            L = breakit(rng, L)
        f.txt = L.text(rng)
        f.tag = "words changed"
    elif u < 0.85:
        for _ in range(rng.choice([1, 1, 2])):
            f.txt = breakchars(rng, f.txt)
        f.tag = "characters changed"
    else:
        f.ws = init_text(rng, inst, gen.greedy_ws(rng, inst), broken=True)
        f.tag = "initial solution changed"
    return f


# ------------------------------------------------------------------ records
def neighbours(x, mant):
    """values a bit more than half a unit below and above |x| as integers times 10^f"""
    a = abs(x)
    if mant == 24:
        import struct
        bits = struct.unpack("I", struct.pack("f", a))[0]
        g = lambda b: struct.unpack("f", struct.pack("I", b))[0]
        dn = g(bits - 1) if bits else 0.0
        up = g(bits + 1)
    else:
        dn, up = math.nextafter(a, 0), math.nextafter(a, math.inf)
    A, D = Fraction(a), Fraction(dn)
    U = 2 * A - D if math.isinf(up) else Fraction(up)
    lo, hi = A - (A - D) * Fraction(33, 64), A + (U - A) * Fraction(33, 64)
    k = max(lo.denominator.bit_length(), hi.denominator.bit_length()) - 1
    dg = lambda q: [int(ch) for ch in str(int(q * 10 ** k))]
    return dg(lo), dg(hi), -k


def digits(s):
    return [int(c) for c in s if c.isdigit()]


def record(f, e):
    costs = [float.fromhex(h) for h in e["costs"].split()]
    cost = []
    for c in costs:
        lo, hi, x = neighbours(c, e["mant"])
        cost.append({"lo": lo, "hi": hi, "f": x, "neg": c < 0})
    fake = gen.Inst(1, [[]] * len(costs), costs)
    scale, exact = gen.exact_scale(fake)
    return {"fmt": f.fmt, "txt": [ord(c) for c in f.txt], "hasw": f.ws is not None, "ws": [ord(c) for c in f.ws or ""], "unit": f.unit,
            "ok": e["ok"], "nr": e["nr"], "cols": e["cols"], "rows": e["rows"], "cost": cost, "init": e["init"], "exact": exact,
            "kc": [vf.enc(c, scale) for c in costs], "ic": vf.enc(float(e["icost"]), scale),
            "rlo": digits(e["rlo"]), "rhi": digits(e["rhi"]), "clo": digits(e["clo"]), "chi": digits(e["chi"]),
            "rmax": [int(c) for c in str(int(float.fromhex(e["rmax"])) + 2 ** ((127 if e["mant"] == 24 else 1023) - e["mant"]))]}


SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-g1"]
SANENV = {"ASAN_OPTIONS": "allocator_may_return_null=1:detect_leaks=0:max_allocation_size_mb=4000", "UBSAN_OPTIONS": "print_stacktrace=0"}


def run(chk, part, fs, invs, sanitize=False, defs=()):
    b = comp.build(chk, "comp/files.cpp", name="files_san" if sanitize else "files", flags=(SAN if sanitize else []) + list(defs))
    if not b:
        return None
    d = vf.path("files/x")[:-2]
    cs = [f.case("%s/%s%d" % (d, part.replace(" ", "_"), i)) for i, f in enumerate(fs)]
    out, why = comp.run(b, cs, env=SANENV if sanitize else None)
    if comp.failed(chk, part, why, [f.stim() for f in fs]):
        return None
    ok = [i for i in range(len(fs)) if out[i]]
    recs = [record(fs[i], out[i][0]) for i in ok]
    v = comp.records(chk, part, "FileRes", recs, [dict(fs[i].stim(), observed=out[i][0]) for i in ok], invs,
                     consts={"RLo": "<- cRLo", "RHi": "<- cRHi", "CLo": "<- cCLo", "CHi": "<- cCHi", "RealMax": "<- cRealMax"})
    d = chk.parts[part]
    d["accepted"] = sum(r["ok"] for r in recs)
    d["refused"] = sum(not r["ok"] for r in recs)
    return v
