import vf, gen, comp, pipeline


def text(rng, inst, steps, reset):
    sc, exact = gen.exact_scale(inst)
    t = ["%.17g %d %d %d" % (sc, reset, inst.nr, inst.nc)]
    t += ["%.17g %d %s" % (c, len(col), " ".join(map(str, col))) for c, col in zip(inst.costs, inst.cols)]
    t += [str(len(steps))] + ["%d %s" % (len(s), " ".join(map(str, s))) for s in steps]
    return " ".join(t), exact


def cases(rng, n):
    out, ex = [], []
    for i in range(n):
        reg = gen.COSTS[i % len(gen.COSTS)]
        u = rng.random()
        if u < 0.5:
            inst = gen.rnd_inst(rng, rng.randint(1, 7), rng.randint(1, 9), reg, dup=rng.choice([0, 0.3]), nested=rng.choice([0, 0.4]), empty=rng.choice([0, 0.15]), singles=rng.choice([0, 0.4]))
        else:
            inst = gen.rnd_inst(rng, rng.randint(5, 25), rng.randint(5, 40), reg, dens=rng.choice([0.06, 0.1, 0.2]), empty=rng.choice([0, 0.1]), singles=rng.choice([0, 0.3]))
        steps = [[rng.randrange(10 ** 6) for _ in range(rng.choice([1, 1, 1, 2, 3, 5]))] for _ in range(rng.randint(1, 6))]
        t, e = text(rng, inst, steps, rng.random() < 0.2)
        out.append(t)
        ex.append(e)
    return out, ex


def main():
    chk = vf.Check("C09")
    r = vf.tlc("FixingMC", consts={"NR": 3, "MaxCols": chk.n(3, 4), "MaxSel": 2}, spec="MCSpec", invariants=["TypeOK", "Maps", "Exact", "Lift", "Complete"], deadlock=False, mem="8g", timeout=800)
    if not r.ok:
        raise vf.MachineryError("FixingMC: %s %s" % (r.kind, r.out[-1500:]))
    chk.model("design model FixingMC", r)
    b = comp.build(chk, "comp/fixing.cpp")
    if b:
        cs, ex = cases(chk.rng, chk.n(3000, 30000))
        out, why = comp.run(b, cs)
        if not comp.failed(chk, "fixing sequences", why, cs):
            ok = [i for i in range(len(cs)) if out[i]]
            comp.traces(chk, "fixing sequences", "FixingTrace", [out[i] for i in ok], [cs[i] for i in ok], invariants=["TLift"], meta=[{"exact": ex[i]} for i in ok])
    pipeline.check(chk, ["C09"], pipeline.cases(chk.rng, chk.n(60, 2500), expire=0.1), "recorded runs")
    pipeline.check(chk, ["C09"], pipeline.chaos_cases(chk.rng, chk.n(200, 4000), "parts", 0.1), "recorded runs, stand-in phases", kind="parts")
    return chk.finish("random and adversarial sequences of fixings (nested, duplicate, empty columns, reused objects) step by step against Fixing.tla; "
                      "the fixings inside recorded runs; the lifting theorem model checked over all small instances")
