import itertools
import vf, comp


def history(rng, n, nr):
    ops = []
    for _ in range(n):
        u = rng.random()
        o = rng.randint(1, 3)
        if u < 0.5:
            k = rng.choice([0, 1, 1, 2, 2, 3, 3, 5, nr])
            rows = rng.sample(range(nr), min(k, nr))
            if rng.random() < 0.03 and rows:
                rows.append(rows[0])
            ops.append("a %d %d %d %s %s" % (o, rng.randrange(4), len(rows), " ".join(map(str, rows)), rng.randint(0, 50)))
        elif u < 0.65:
            ops.append("c %d %d %d" % (o, rng.randrange(4), rng.choice([x for x in (1, 2, 3) if x != o])))
        elif u < 0.72:
            ops.append("x %d" % o)
        elif u < 0.78:
            ops.append("= %d %d" % (o, rng.randint(1, 3)))
        else:
            ops.append("f %d %d" % (o, rng.choice([nr, nr, 0, nr + 3])))
    return "%d %s" % (len(ops), " ".join(ops))


def main():
    chk = vf.Check("C28")
    r = vf.tlc("InstBuildMC", consts={"NR": 2, "MaxOps": chk.n(4, 5)}, spec="MCSpec", invariants=["Consistent", "Aligned"], deadlock=False, mem="8g")
    if not r.ok:
        raise vf.MachineryError("InstBuildMC: %s" % r.out[-1500:])
    chk.model("design model InstBuildMC", r)
    b = comp.build(chk, "comp/build.cpp")
    if b:
        cs = []
        cols = ["0", "1 0", "1 1", "2 0 1", "2 1 0"]
        for n in range(0, 4):                     # every short matrix, filled twice into a used object
            for w in itertools.product(cols, repeat=n):
                pre = [[], ["a 1 0 2 0 2 7", "f 1 3", "x 1"], ["a 2 0 3 2 1 0 9", "f 2 4", "= 2 1"]][len(cs) % 3]
                ops = pre + ["a 1 %d %s %d" % (i % 4, c, i + 1) for i, c in enumerate(w)] + ["f 1 %d" % (len(cs) % 4)] + (["x 1", "a 1 0 1 1 5", "f 1 2"] if len(cs) % 5 == 0 else [])
                cs.append("%d %s" % (len(ops), " ".join(ops)))
        cs += [history(chk.rng, chk.rng.randint(2, 25), chk.rng.choice([1, 2, 4, 7])) for _ in range(chk.n(1500, 20000))]
        cs += [history(chk.rng, 60, 25) for _ in range(chk.n(30, 400))]
        out, why = comp.run(b, cs)
        if not comp.failed(chk, "histories", why, cs):
            ok = [i for i in range(len(cs)) if out[i]]
            comp.traces(chk, "histories", "InstBuildTrace", [out[i] for i in ok], [cs[i] for i in ok])
    return chk.finish("every short matrix and random histories over three instance objects, all of them observed after every step, against InstBuild.tla",
                      ["a column is not appended to the object it is taken from"])
