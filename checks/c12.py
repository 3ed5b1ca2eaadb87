import vf, comp, greedyc


def main():
    chk = vf.Check("C12")
    r = vf.tlc("GreedyMC", consts=dict({"NR": 3, "NCols": chk.n(3, 4), "CostSet": "{0,1,3}", "USet": "{0}", "WSet": "{1}"}, EnumVars="<- MCEnumVars"),
               spec="MCSpec", invariants=["CoverKept", "Needed", "Optimal"], deadlock=False, mem="8g", timeout=800, allow_timeout=True)
    if not r.ok and r.kind != "timeout":
        raise vf.MachineryError("GreedyMC: %s %s" % (r.kind, r.out[-1500:]))
    chk.model("design model GreedyMC", r)
    b = comp.build(chk, "comp/greedy.cpp")
    if b:
        for part, cs in (("up to ten redundant", greedyc.forced_calls(chk.rng, chk.n(2500, 20000), False)),
                         ("more than ten redundant", greedyc.forced_calls(chk.rng, chk.n(2000, 15000), True))):
            out, why = comp.run(b, cs)
            if not comp.failed(chk, part, why, cs):
                ok = [i for i in range(len(cs)) if out[i]]
                comp.traces(chk, part, "GreedyTrace", [out[i] for i in ok], [cs[i] for i in ok])
                chk.parts[part]["below_cutoff"] = sum(1 for o in out if o for e in o if e["below"])
    return chk.finish("calls of the greedy procedure whose selection is forced, so that only redundancy removal decides; against Greedy.tla")
