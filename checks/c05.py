import os, time
import vf, gen, pipeline, agree, formats, suite


def cli_limit(chk):
    """real clock: accft with a limit on instances it cannot solve quickly must return a cover"""
    rng = chk.rng
    exe = vf.build_cli()
    jobs = []
    for k, (inst, t) in enumerate([(gen.steiner(4), 1), (gen.big_inst(rng, 300, 3000, "frac", per=12), 1), (gen.big_inst(rng, 200, 2000, "int", per=8), 0)]):
        jobs.append((k, inst, t))

    def one(j):
        k, inst, t = j
        d = vf.path("lim/%d/x" % k)[:-2]
        open(d + "/i.txt", "w").write(formats.rail(inst))
        t0 = time.time()
        rc, so, se = vf.run_harness([exe, "-i", d + "/i.txt", "-o", d + "/o.sol", "-t", str(t), "-v", "0", "-g", "100000"], timeout=100, cwd=d)
        w = time.time() - t0
        ok = rc == 0 and os.path.exists(d + "/o.sol")
        return {"terminated": rc is not None, "solved": ok}, {"limit": t, "wall": round(w, 1), "nr": inst.nr, "nc": inst.nc, "rc": rc, "err": (se or "")[-200:]}
    outs = vf.pmap(one, jobs)
    agree.decide(chk, "accft with a real limit", [[{"terminated": True, "solved": True}, a] for a, _ in outs], [b for _, b in outs])


def debug(chk):
    """with assertions enabled every run still ends, with the same result"""
    rng = chk.rng
    try:
        b, base = vf.build("lab.cpp", name="lab_dbg", flags=["-UNDEBUG"]), vf.build("lab.cpp")
    except vf.NotBuildable as e:
        chk.degraded.append("debug lab not buildable: " + str(e)[:300])
        return
    cs = gen.mixed_cases(rng, chk.n(500, 6000), expire=0.3) + pipeline.cases(rng, chk.n(150, 1500))
    for reg in gen.COSTS:
        for _ in range(chk.n(2, 12)):
            cs.append(gen.Case(gen.big_inst(rng, rng.choice([50, 120, 250]), rng.choice([100, 250, 600]), reg, per=6), "run", {"heur": 5, "alpha": 1.5, "eps": rng.choice([1e-6, 0.999])}, -1, None, "big"))
    o, why = gen.run_cases(b, cs)
    o2, why2 = gen.run_cases(base, cs)
    idx = [i for i in range(len(cs)) if why.get(i) != "not run" and why2.get(i) != "not run"]
    agree.decide(chk, "with assertions", [[agree.lab_result(o2[i]), dict(agree.lab_result(o[i]), **({"why": why[i]} if i in why else {}))] for i in idx],
                 [cs[i].stim() if cs[i].inst.nc < 100 else {"nr": cs[i].inst.nr, "nc": cs[i].inst.nc, "env": cs[i].env} for i in idx])


def main():
    chk = vf.Check("C05")
    rng = chk.rng
    pipeline.model(chk, ids="1,2,3", thorough_ids="1,2,3,4,5,7", liveness=True)
    pipeline.check(chk, ["C05"], pipeline.cases(rng, chk.n(500, 5000), expire=0.75), "expiry in recorded runs")
    pipeline.check(chk, ["C05"], pipeline.chaos_cases(rng, chk.n(500, 6000), "parts", 0.7), "expiry, stand-in phases", kind="parts")
    pipeline.check(chk, ["C05"], pipeline.chaos_cases(rng, chk.n(500, 6000), "3p", 0.7), "expiry, stand-in 3-phase", kind="3p")
    # a limit that is never reached does not matter; a limit of zero or an expired timer still gives a cover
    try:
        b = vf.build("lab.cpp")
    except vf.NotBuildable as e:
        chk.degraded.append("lab harness not buildable: " + str(e)[:300])
        b = None
    if b:
        base = gen.mixed_cases(rng, chk.n(900, 9000), expire=0, ws=0.2)
        for inst in suite.instances_big(rng, chk.n(6, 60)):
            base.append(gen.Case(inst, "run", {"heur": 20, "alpha": 1.5}, tag="big"))
        cs, own = [], []
        for c in base:
            cs.append(c)
            cs.append(gen.Case(c.inst, c.mode, dict(c.env, tlim=1000.0), -1, c.ws, c.tag))
        outs, why = gen.run_cases(b, cs)
        groups = [[agree.lab_result(outs[i]), agree.lab_result(outs[i + 1])] for i in range(0, len(cs), 2)]
        for i, w in why.items():
            if w != "not run":
                groups[i // 2] = [{"ok": True}, {"ok": False, "exc": w}]
            else:
                groups[i // 2] = [{"ok": False}]
        agree.decide(chk, "limit never reached", groups, [cs[i].stim() if cs[i].inst.nc < 100 else cs[i].tag for i in range(0, len(cs), 2)])
        early = []
        for c in gen.mixed_cases(rng, chk.n(900, 9000), expire=1.0, ws=0.3):
            if rng.random() < 0.3:
                c.env["tlim"] = rng.choice([0.0, 899.0])
                c.expire = rng.choice([0, -1])
            early.append(c)
        outs, why = gen.run_cases(b, early)
        groups = []
        for i, (c, o) in enumerate(zip(early, outs)):
            if why.get(i) == "not run":
                continue
            r = {"returned": o is not None, "cover": False}
            if o is not None and o[-1]["ok"]:
                s = o[-1]["sol"]
                r["cover"] = all(0 <= j < c.inst.nc for j in s) and len({q for j in s for q in c.inst.cols[j]}) == c.inst.nr
            groups.append(([{"returned": True, "cover": True}, r], dict(c.stim(), why=why.get(i))))
        agree.decide(chk, "expired early", [g for g, _ in groups], [s for _, s in groups])
    debug(chk)
    cli_limit(chk)
    return chk.finish("runs with the virtual clock expiring at each kind of reading, replayed against Cft; model checking of termination",
                      ["time is virtual except in the accft part"])
