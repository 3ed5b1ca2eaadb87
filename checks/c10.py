import vf, gen, comp, pipeline


def u_for(rng, inst, unit):
    kind = rng.choice(["zero", "small", "greedy", "large", "mixed", "sparse"])
    hi = {"zero": 0, "small": 1, "greedy": 2, "large": 12, "mixed": 4, "sparse": 6}[kind]
    u = []
    for i in range(inst.nr):
        c = [inst.costs[j] / max(1, len(inst.cols[j])) for j in range(inst.nc) if i in inst.cols[j]]
        x = min(c) if c and kind == "greedy" else rng.uniform(0, hi)
        if kind == "sparse" and rng.random() < 0.6:
            x = 0
        u.append(round(x * unit) / unit)
    return u


def cases(rng, n):
    out, ex = [], []
    for i in range(n):
        exact = rng.random() < 0.85
        reg = rng.choice(["unit", "int", "dyadic", "zero"] if exact else ["frac", "wide", "int"])
        u = rng.random()
        if u < 0.35:      # many columns, few rows: both selections are limited
            inst = gen.rnd_inst(rng, rng.randint(1, 3), rng.randint(6, 45), reg, dens=rng.choice([0.3, 0.6]), dup=rng.choice([0, 0.3]), empty=rng.choice([0, 0.1]))
        elif u < 0.7:
            inst = gen.rnd_inst(rng, rng.randint(2, 8), rng.randint(2, 30), reg, dens=rng.choice([0.2, 0.4]), dup=rng.choice([0, 0.3]), empty=rng.choice([0, 0.1]))
        else:
            inst = gen.rnd_inst(rng, rng.randint(8, 20), rng.randint(15, 60), reg, dens=0.1, empty=rng.choice([0, 0.05]))
        unit = rng.choice([8, 64]) if exact else 1000
        sc = 64 if exact else gen.exact_scale(inst)[0]
        if not exact:
            sc = min(sc, 1e4)
        us = [u_for(rng, inst, unit) for _ in range(rng.randint(1, 4))]
        t = ["%.17g %d %d %d" % (sc, rng.random() < 0.2, inst.nr, inst.nc)]
        t += ["%.17g %d %s" % (c, len(col), " ".join(map(str, col))) for c, col in zip(inst.costs, inst.cols)]
        t += [str(len(us))] + [" ".join("%.17g" % x for x in u) for u in us]
        out.append(" ".join(t))
        ex.append(exact)
    return out, ex


def main():
    chk = vf.Check("C10")
    b = comp.build(chk, "comp/pricing.cpp")
    if b:
        cs, ex = cases(chk.rng, chk.n(4000, 50000))
        out, why = comp.run(b, cs)
        if not comp.failed(chk, "pricing calls", why, cs):
            recs, own = [], []
            for c, e, o in zip(cs, ex, out):
                for ev in o or []:
                    ev["exact"] = e
                    recs.append(ev)
                    own.append(c)
            v = comp.records(chk, "pricing calls", "PricingTrace", recs, own, ["Bound", "CoreMap", "CoreCopy", "CoreRows", "Selection", "Unchanged"])
            d = chk.parts["pricing calls"]
            d["threshold_selection_capped"] = sum(1 for r in recs if r["exact"] and sum(1 for j, c in enumerate(r["cols"]) if (r["costs"][j] - sum(r["u"][i] for i in c)) * 10 < r["s"]) > 5 * r["nr"])
    pipeline.check(chk, ["C10"], pipeline.cases(chk.rng, chk.n(60, 2000), expire=0.05), "recorded runs")
    return chk.finish("random pricing calls, exact dyadic numbers, stale objects; the pricings inside recorded runs")
