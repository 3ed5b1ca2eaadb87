import itertools, os
import vf, comp

BITS = [(-2 ** 7, 2 ** 7 - 1), (0, 2 ** 8 - 1), (-2 ** 15, 2 ** 15 - 1), (0, 2 ** 16 - 1), (-2 ** 31, 2 ** 31 - 1), (0, 2 ** 32 - 1), (-2 ** 63, 2 ** 63 - 1), (0, 2 ** 64 - 1)]


def T(s):
    return "%d %s" % (len(s), " ".join(str(ord(c)) for c in s))


def int_text(rng, t):
    lo, hi = BITS[t]
    v = rng.choice([lo, hi, lo - 1, hi + 1, hi + 2, 2 * hi + 2, 2 * hi + 1, -hi, -hi - 1, -hi - 2, 0, 1, -1, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(-300, 300), hi * 10, hi * 10 + 7, lo * 10, 10 ** rng.randint(1, 25), -10 ** rng.randint(1, 25)])
    s = str(v)
    if rng.random() < 0.15:
        s = s.replace("-", "-" + "0" * rng.randint(1, 6)) if v < 0 else "0" * rng.randint(1, 6) + s
    if rng.random() < 0.1 and v >= 0:
        s = "+" + s
    if rng.random() < 0.25:
        s = rng.choice([" ", "\t", "  \t", "\n", "\r"]) + s
    if rng.random() < 0.4:
        s += rng.choice([" ", "  ", " 5", "\t\r", "x", ".5", "e3", "-", "+1", " x", "\r\n", ",", "_"])
    if rng.random() < 0.05:
        s = s.replace("-", rng.choice(["- ", "--", "+-"]))
    return s


def real_text(rng, t):
    u = rng.random()
    if u < 0.25:
        s = "%d" % rng.choice([rng.randint(-9, 9), rng.randint(-10 ** 6, 10 ** 6), rng.randint(0, 10 ** 12), 16777217, 16777216, 2 ** 53 + 1])
    elif u < 0.55:
        s = "%d.%s" % (rng.randint(0, rng.choice([9, 10 ** 5])), "".join(rng.choice("0123456789") for _ in range(rng.randint(0, 18))))
    elif u < 0.7:
        s = repr(rng.choice([rng.random(), rng.uniform(0, 1e9), rng.uniform(0, 1e-6), 2.0 ** rng.randint(-60, 60)]))
    elif u < 0.9:
        s = "%d%se%s%d" % (rng.randint(0, 99999), rng.choice(["", ".", ".5", ".0625", ".123456789"]), rng.choice(["", "+", "-"]), rng.choice([0, 1, 3, 10, 30, 33, 40]))
        if rng.random() < 0.3:
            s = s.replace("e", "E")
    else:
        s = rng.choice([".", ".5", "5.", "e5", "-", "-.5", "+.e1", "1e", "1e+", "1e-", "1.e2", ".0", "-0", "-0.0", "00.5", "340282346638528859811704183484516925440", "3.4028235e38", "3.40282356e38", "3.40282357e38", "-3.4028235e+38", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "3.4028236e38", "3.5e38", "1e39", "-3.41e38", "1e400", "-1e5000",
                        "179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347764797926204144723168738177180919299881250404026184124858368", "1.8e308"])
    if rng.random() < 0.3 and not s.startswith(("-", "+")):
        s = rng.choice("+-") + s
    if rng.random() < 0.2:
        s = rng.choice([" ", "\t ", "\n"]) + s
    if rng.random() < 0.3:
        s += rng.choice([" ", " 7", "y", "..", ".", "-3", "\r", "e", "f", " z"])
    return s


def any_text(rng):
    return "".join(rng.choice("   \t\n\r\v\fab1-Z.é_\x7f\x80") for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 14])))


def main():
    chk = vf.Check("C27")
    rng = chk.rng
    b = comp.build(chk, "comp/text.cpp")
    if b:
        cs = []
        for n in range(0, 4):                                   # every short text
            for w in itertools.product(" -+09x", repeat=n):
                cs += ["0 %d %s" % (t, T("".join(w))) for t in ((0, 1) if n == 3 else (0, 1, 6, 7))]
            for w in itertools.product(" -1.e", repeat=n):
                cs.append("1 0 " + T("".join(w)))
        if chk.thorough:
            cs += ["0 %d %s" % (t, T("".join(w))) for w in itertools.product(" -+129", repeat=5) for t in (0, 1)]
            cs += ["1 0 " + T("".join(w)) for n in (4, 5) for w in itertools.product(" -1.e", repeat=n)]
        for _ in range(chk.n(4000, 40000)):
            t = rng.randrange(8)
            cs.append("0 %d %s" % (t, T(int_text(rng, t))))
        for _ in range(chk.n(1500, 15000)):
            t = rng.choice([0, 0, 1])
            cs.append("1 %d %s" % (t, T(real_text(rng, t))))
        for n in range(0, 6):
            for w in itertools.product(" a\t", repeat=n):
                cs.append("2 %d %d %s" % (rng.randint(0, n // 2), rng.randint(n // 2, n), T("".join(w))))
        for _ in range(chk.n(800, 8000)):
            s = any_text(rng)
            i = rng.randint(0, len(s))
            cs.append("2 %d %d %s" % (i, rng.randint(i, len(s)), T(s.encode("latin-1", "replace").decode("latin-1"))))
        for a in [w for n in range(0, 4) for w in itertools.product("ab", repeat=n)]:
            for c in [w for n in range(0, 4) for w in itertools.product("ab", repeat=n)]:
                cs.append("3 %s %s" % (T("".join(a)), T("".join(c))))
        d = vf.path("lines/x")[:-2]
        for k in range(chk.n(200, 2000)):
            s = "".join(rng.choice(["\n", "\n", " ", "x", "12 3", "\r\n", "\t", "end"]) for _ in range(rng.choice([0, 1, 3, 6, 10])))
            cs.append("4 %s/%d %d %s" % (d, k, s.count("\n") + 3, T(s)))
        out, why = comp.run(b, cs)
        if not comp.failed(chk, "texts", why, cs):
            ok = [i for i in range(len(cs)) if out[i]]
            comp.records(chk, "texts", "TextRes", [out[i][0] for i in ok], [cs[i] for i in ok], ["IntOK", "RealOK", "ViewOK", "CmpOK", "FileOK"])
    return chk.finish("every short text over small alphabets, numbers at and around the limits of each type, random texts; results computed by Text.tla on character codes",
                      ["numbers are read from texts, or views of them, that end at the end of the text or before a blank", "hexadecimal and special (inf, nan) floating point literals are not judged"])
