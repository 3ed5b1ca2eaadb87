import os
import vf, gen, formats, filesc, results, agree


def texts(rng, fmt, inst, s):
    if fmt == "RAIL":
        return formats.rail(inst)
    if fmt == "SCP":
        return formats.scp(inst)
    if fmt == "MPS":
        return formats.mps(inst)
    return formats.cvrp(inst, s)


def main():
    chk = vf.Check("C19")
    rng = chk.rng
    exe = vf.build_cli()
    jobs = []
    for i in range(chk.n(500, 6000)):
        fmt = ("RAIL", "SCP", "CVRP", "MPS")[i % 4]
        reg = ["int", "frac", "large", "zero", "wide", "dyadic", "tiny"][i % 7]
        if i % 25 == 0:
            inst = gen.big_inst(rng, rng.choice([30, 60]), rng.choice([60, 150]), reg)
        else:
            inst = gen.rnd_inst(rng, rng.randint(1, 8), rng.randint(1, 12), reg, empty=0 if fmt == "MPS" else 0.05)
        s = gen.greedy_ws(rng, inst)
        w = None
        if rng.random() < 0.4:
            w = gen.greedy_ws(rng, inst)
            rest = [j for j in range(inst.nc) if j not in w]
            w += rest[:rng.choice([0, 0, 1, 2])]
            rng.shuffle(w)
        args = rng.choice([[], [], ["-e", "0.001"], ["-s", str(rng.randint(0, 99))], ["-b", "1.5"], ["-g", "5"], ["-t", "0"] if w else ["-g", "2"]])
        jobs.append((inst, fmt, s, w, args))

    def one(kj):
        k, (inst, fmt, s, w, args) = kj
        d = vf.path("unit/%d/x" % k)[:-2]
        out = []
        for v, (ins, extra) in enumerate(((inst, [("-u", "--unit-costs")[(k // 2) % 2]]), (gen.Inst(inst.nr, inst.cols, [1.0] * inst.nc), []))):
            p = "%s/i%d.txt" % (d, v)
            open(p, "w").write(texts(rng, fmt, ins, s))
            a = [exe] + (extra if k % 2 else []) + ["-i", p, "-o", p + ".sol", "-p", fmt, "-v", "0"] + args + ([] if k % 2 else extra)
            if w is not None:
                open(p + ".w", "w").write(" ".join([formats.num(gen.f32sum(ins.costs[j] for j in w))] + [str(j) for j in w]))
                a += ["-w", p + ".w"]
            rc, so, se = vf.run_harness(a, timeout=120, cwd=d)
            r = {"ok": False, "rc": rc}
            if rc == 0 and os.path.exists(p + ".sol"):
                try:
                    c, sol = results.parse_solfile(p + ".sol")
                    r = {"ok": True, "cost": c, "sol": sol}
                except (ValueError, IndexError):
                    pass
            out.append(r)
        return out
    outs = vf.pmap(one, list(enumerate(jobs)))
    stim = [{"inst": i.rec() if i.nc < 30 else "big", "parser": f, "embedded": s, "initsol": w, "args": a} for i, f, s, w, a in jobs]
    agree.decide(chk, "unit costs against costs of one", [[{"ok": r["ok"], "sol": r.get("sol", []), "cost": repr(r.get("cost", 0))} for r in o] for o in outs], stim)
    recs, own = [], []
    for (inst, fmt, s, w, a), o, st in zip(jobs, outs, stim):
        u = gen.Inst(inst.nr, inst.cols, [1.0] * inst.nc)
        ws = w if w is not None else (s if fmt == "CVRP" else None)
        for r in o[:1]:
            recs.append(results.record(u, 1, True, r, ws, float(len(ws)) if ws is not None else None, dual=False, mults=False))
            own.append(("cost is the number of columns", st, r))
    results.decide(chk, recs, own, ["C01_Cover", "C02_Cost", "C04_Warm"])
    # the parsed instance itself
    fs = []
    for i in range(chk.n(800, 6000)):
        f = filesc.good(rng, ("RAIL", "SCP", "CVRP", "MPS")[i % 4])[0]
        f.unit = True
        fs.append(f)
    filesc.run(chk, "parsed with unit costs", fs, ["WellFormedRead", "NeverMisread"])
    return chk.finish("accft with unit costs against accft on the same instance with costs of one (all formats, initial solutions); the parsed instance against FileFormats.tla")
