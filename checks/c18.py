import itertools
import vf, comp, filesc

FLAGS = {"inst": ("-i", "--inst"), "parser": ("-p", "--parser"), "sol": ("-o", "--out-sol"), "init": ("-w", "--init-sol"), "seed": ("-s", "--seed"), "tlim": ("-t", "--timelimit"), "verbose": ("-v", "--verbose"),
         "eps": ("-e", "--epsilon"), "giters": ("-g", "--heur-iters"), "beta": ("-b", "--beta"), "abs": ("-a", "--abs-subg-exit"), "rel": ("-r", "--rel-subg-exit")}
PATHS = ["inst", "a/b/inst.txt", "x.y.z", "/tmp/rail507", "dir.d/file", "dir.d/file.ext", "a\\b\\c.txt", "./p.scp", "../q", "name.", "long-name_1.2.3", "a b/c d.txt", "sol", ".hidden", "dir/", "..", "a/b.c/", "", "i.sol", "-", "é.txt", "a\\b/c.d\\e.f"]
NATS = ["0", "1", "7", "42", "1000", "18446744073709551615", "18446744073709551616", "-1", "-0", "+3", "007", "4294967296", " 5", "5 ", "", " ", "a", "5a", "1.5", "1e3", "--", "9223372036854775808", "-u", "-5", "99999999999999999999999"]
REALS = ["0", "1", "0.5", "1e-4", "0.999", "1.0", "-1", "-0.25", "3e38", "3.5e38", "1e39", "1e300", "1e-30", "", "x", "0.5x", "1,5", "1.5.5", ".5", "5.", "+2.5", " 2", "2 ", "1e", "100", "3600", "16777217", "0.1", "1-2", "-"]
JUNK = ["x", "--unknown", "-x", "foo", "-", "--", "5", "-is", "-i=3", "--inst=x", "-I", "--Inst", "i", "", " -i", "-ii", "--unit", "-unit-costs", "--u", "-hs", "--out", "inst", "--timelimit=3", "--time-limit"]


def value(rng, n):
    return rng.choice(PATHS if n in ("inst", "sol", "init") else ["RAIL", "SCP", "CVRP", "MPS", "rail", "", "X"] if n == "parser" else NATS if n in ("seed", "verbose", "giters") else REALS)


def good(rng, n):
    """mostly valid, so that later words matter"""
    if n in ("seed", "verbose", "giters"):
        return str(rng.choice([0, 1, 5, rng.randint(0, 10 ** 6), rng.randint(0, 2 ** 64 - 1)]))
    if n in ("tlim", "eps", "beta", "abs", "rel"):
        return rng.choice(["%d" % rng.randint(0, 1000), "%.3f" % rng.uniform(-2, 10), "%g" % (10 ** rng.uniform(-10, 10)), "1e-%d" % rng.randint(0, 20)])
    return value(rng, n)


def line(rng):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 9, 14])):
        u = rng.random()
        if u < 0.12:
            out.append(rng.choice(JUNK))
        elif u < 0.2:
            out.append(rng.choice(["-u", "--unit-costs"]))
        elif u < 0.23:
            out.append(rng.choice(["-h", "--help"]))
        else:
            n = rng.choice(list(FLAGS))
            out.append(rng.choice(FLAGS[n]))
            if rng.random() < 0.93:
                out.append(good(rng, n) if rng.random() < 0.85 else value(rng, n) if rng.random() < 0.9 else rng.choice(list(FLAGS.values()))[rng.randrange(2)])
    if rng.random() < 0.85:
        k = rng.randint(0, len(out)) if rng.random() < 0.5 else 0
        out[k:k] = [rng.choice(["-i", "--inst"]), rng.choice(PATHS[:14])]
    if rng.random() < 0.1:
        out.append(rng.choice(["-i", "-s", "-u", "--verbose", "x", "-o"]))
    return out


def main():
    chk = vf.Check("C18")
    rng = chk.rng
    r = vf.tlc("CliMC", spec="MCSpec", consts={"N": chk.n(5, 6), "RealMax": "<- mRealMax"}, invariants=["LastWins", "UnitOnce", "ErrorsJustified"], deadlock=False)
    chk.model("model of the command line", r)
    if not r.ok:
        raise vf.MachineryError("CliMC: " + r.out[-2000:])
    b = comp.build(chk, "comp/cli.cpp")
    if b:
        ls = [[]]
        for n in FLAGS:                                   # every flag with every value
            for v in PATHS + NATS + REALS:
                ls += [["-i", "x.txt", FLAGS[n][0], v], [FLAGS[n][1], v, "--inst", "d/y"]]
        for a in [f for p in FLAGS.values() for f in p] + ["-u", "--unit-costs", "-h", "--help"] + JUNK:    # every pair of words
            for c in [f for p in FLAGS.values() for f in p] + ["-u", "5"]:
                ls.append(["-i", "p/q.r", a, c])
                ls.append([a, c, "3", "-i", "z", "4"])
        for n in range(1, chk.n(5, 6)):
            ls += [list(w) for w in itertools.product(["-i", "-s", "-u", "5"], repeat=n)]
        ls += [line(rng) for _ in range(chk.n(3000, 40000))]
        ls = [l for l in ls if not any(filesc.special(w) for w in l if w[:1] in "0123456789+-." and w not in [f for p in FLAGS.values() for f in p])]
        T = lambda s: "%d %s" % (len(s.encode()), " ".join(str(c) for c in s.encode()))
        cs = ["%d %s" % (len(l), " ".join(T(w) for w in l)) for l in ls]
        out, why = comp.run(b, cs)
        if not comp.failed(chk, "command lines", why, ls):
            recs, own = [], []

            def conv(e, m):
                d = dict(e)
                for n in ("seed", "verbose", "giters"):
                    d[n] = filesc.digits(str(int(e[n]))) if int(e[n]) else []
                for n in ("tlim", "eps", "beta", "abs", "rel"):
                    x = float.fromhex(e[n])
                    if x in (float("inf"), -float("inf")) or x != x:
                        d[n] = {"lo": [9], "hi": [9], "f": 4000, "neg": x < 0}
                    else:
                        lo, hi, f = filesc.neighbours(x, 53 if n == "tlim" else m)
                        d[n] = {"lo": lo, "hi": hi, "f": f, "neg": x < 0}
                return d
            for l, o in zip(ls, out):
                if o:
                    e = o[0]
                    recs.append({"args": [list(w.encode()) for w in l], "ok": e["ok"], "rnd": e["rnd"], "env": conv(e["env"], e["mant"]), "def": conv(e["def"], e["mant"]),
                                 "rmax": [int(c) for c in str(int(float.fromhex(e["rmax"])) + 2 ** ((127 if e["mant"] == 24 else 1023) - e["mant"]))]})
                    own.append({"args": l, "observed": e["env"], "ok": e["ok"]})
            comp.records(chk, "command lines", "CliRes", recs, own, ["Errors", "Sets", "Output", "Defaults"], consts={"RealMax": "<- cRealMax"})
    return chk.finish("every flag with every value of the pools, every pair of words, short lines exhaustively, random lines; parameters computed by Cli.tla from the characters",
                      ["default output names of instance names that are empty or start with a dot are not judged", "hexadecimal, inf and nan literals are not judged"])
