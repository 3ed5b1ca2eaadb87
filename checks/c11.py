import vf, comp, greedyc


def main():
    chk = vf.Check("C11")
    r = vf.tlc("GreedyMC", consts=dict({"NR": 3, "NCols": chk.n(3, 4), "CostSet": "{0,1,3}", "USet": chk.n("{0,2}", "{0,1,2}"), "WSet": chk.n("{1}", "{1,2}")}, EnumVars="<- MCEnumVars"),
               spec="MCSpec", invariants=["CoverKept", "Complete", "Needed", "Optimal"], properties=["ScoresGrow"], deadlock=False, mem="8g", timeout=800, allow_timeout=True)
    if not r.ok and r.kind != "timeout":
        raise vf.MachineryError("GreedyMC: %s %s" % (r.kind, r.out[-1500:]))
    chk.model("design model GreedyMC", r)
    b = comp.build(chk, "comp/greedy.cpp")
    if b:
        for part, cs in (("exact calls", greedyc.small_calls(chk.rng, chk.n(4000, 40000))),
                         ("blocks of rows", greedyc.block_calls(chk.rng, chk.n(150, 2000), 32767))):
            out, why = comp.run(b, cs)
            if not comp.failed(chk, part, why, cs):
                ok = [i for i in range(len(cs)) if out[i]]
                comp.traces(chk, part, "GreedyTrace", [out[i] for i in ok], [cs[i] for i in ok])
                chk.parts[part]["below_cutoff"] = sum(1 for o in out if o for e in o if e["below"])
        cs = greedyc.float_calls(chk.rng, chk.n(2500, 20000))
        out, why = comp.run(b, cs)
        if not comp.failed(chk, "arbitrary costs", why, cs):
            recs = [(e, c) for o, c in zip(out, cs) if o for e in o]
            comp.records(chk, "arbitrary costs", "GreedyRes", [x[0] for x in recs], [x[1] for x in recs], ["Valid", "Above", "Lean", "Unchanged"])
    return chk.finish("recorded calls must be behaviours of Greedy.tla (all tie orders allowed); larger calls on arbitrary costs against the result relation; the design model checked over all small instances")
