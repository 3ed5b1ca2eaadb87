"""Direct calls of the subgradient phases (C24, C25)."""
import vf, gen, comp


def case(rng, long=False):
    reg = rng.choice(["int", "dyadic", "unit", "frac", "wide", "zero", "int"])
    if long:
        nr = rng.choice([rng.randint(31, 50), rng.randint(62, 75)])
        inst = gen.rnd_inst(rng, nr, rng.randint(2 * nr, 2 * nr + 40), reg, dens=rng.choice([0.05, 0.08]), empty=0)
    elif rng.random() < 0.5:
        inst = gen.rnd_inst(rng, rng.randint(1, 7), rng.randint(1, 12), reg, dup=rng.choice([0, 0.3]), empty=rng.choice([0, 0.1]))
    else:
        inst = gen.rnd_inst(rng, rng.randint(6, 14), rng.randint(10, 40), reg, dens=rng.choice([0.15, 0.25]), empty=0)
    sc = gen.exact_scale(inst)[0]
    tot = sum(inst.costs)
    while (tot + 10) * sc > 3e7:
        sc /= 2
    eps = rng.choice([0.999, 0.0, 0.125, 1e-4])
    absx, relx = rng.choice([(1.0, 0.001), (0.5, 0.05), (100.0, 0.5), (1e-3, 1e-4)]) if not long else rng.choice([(0.5, 0.01), (100.0, 0.5), (0.01, 0.001), (1.0, 0.001)])
    heur = rng.choice([0, 1, 2, 5, 9])
    ex = rng.choice([-1, -1, -1, 0, 1, 2, 3, 5]) if not long else -1
    t = ["%.17g %d %.9g %.9g %.9g %d %d %d" % (sc, ex, eps, absx, relx, heur, inst.nr, inst.nc)]
    t += ["%.17g %d %s" % (c, len(col), " ".join(map(str, col))) for c, col in zip(inst.costs, inst.cols)]
    n = 1 if long else rng.randint(1, 3)
    t.append(str(n))
    ws = gen.greedy_ws(rng, inst)
    wc = gen.f32sum(inst.costs[j] for j in ws)
    nok = True
    for _ in range(n):
        u0 = rng.choice([0, 0.2, 1.0])
        mean = tot / inst.nr
        u = [gen.f32(rng.uniform(0, 2 * mean) * u0) for _ in range(inst.nr)]
        cut = rng.choice([wc, wc * 0.6, wc * 0.3, wc * 1.3, tot, wc + 1e-3]) if not long or rng.random() < 0.3 else rng.choice([wc, tot])
        if rng.random() < 0.05 and not long:
            cut, nok = rng.choice([1e30, 1e8]), False
        step = rng.choice([0.1, 0.1, 1.0, 10.0, 1e-6, 0.01])
        hc = rng.choice([wc, wc * 2, wc + 5, cut, 3.4e38])
        # the incumbent given to the heuristic is only looked at through its cost
        t.append("%d %.9g %.9g %s %.9g %d %s" % (rng.random() < 0.2, cut, step, " ".join("%.9g" % x for x in u), hc, len(ws), " ".join(map(str, ws))))
    return " ".join(t), nok


def check(chk, props, n, nlong):
    b = comp.build(chk, "comp/subg.cpp", incs=["recsub", "rec"])
    if not b:
        return
    got = [case(chk.rng, i < nlong) for i in range(n + nlong)]
    cs = [g[0] for g in got]
    out, why = comp.run(b, cs)
    part = "phases called directly"
    if comp.failed(chk, part, why, cs):
        return
    ok = [i for i in range(len(cs)) if out[i]]
    trs = [out[i] for i in ok]
    hasit = sum(1 for t in trs if any(e["e"] == "it" for e in t))
    for t in trs:
        for e in t:
            pass
    meta = []
    for i in ok:
        big = max([abs(x) for e in out[i] for k in ("mult",) if k in e for x in e[k]] or [0])
        meta.append({"nok": got[i][1] and big * 400 < 2e9 and sum(max([0] + e["costs"]) for e in out[i] if e["e"] == "call") < 1e8})
    if not hasit:
        chk.degraded.append("no iterations recorded: the schedule managers are not used as expected")
        props = [p for p in props if p != "C24"]
        return
    comp.traces(chk, part, "SubgradientTrace", trs, [cs[i] for i in ok], consts={"Check": "{%s}" % ",".join('"%s"' % p for p in props)}, meta=meta)
    d = chk.parts[part]
    d["iterations"] = sum(1 for t in trs for e in t if e["e"] == "it")
    d["pricings"] = sum(1 for t in trs for e in t if e["e"] == "pr")
    d["ended_by_exit_condition"] = sum(1 for t in trs for e in t if e["e"] == "it" and e["exit"])
    d["attempts"] = sum(1 for t in trs for e in t if e["e"] == "gr")
