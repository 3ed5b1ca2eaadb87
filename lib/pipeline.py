"""Recorded executions of the whole algorithm against spec/CftTrace.tla."""
import vf, gen


def trace_of(c, evs):
    """events of one case (mode run) -> trace for CftTrace, or None when it cannot be encoded"""
    sc = c.scale
    env = c.env
    g = lambda k, d: env.get(k, d)
    par = {"eps": vf.enc(gen.f32(g("eps", gen.f32(0.999))), sc), "alpha": int(round(g("alpha", 1.1) * 1000)), "beta": int(round(g("beta", 1.0) * 1000)),
           "minfix": int(round(g("minfix", 0.3) * 100000)), "heur": int(g("heur", 250))}
    out, nok = [], True
    for e in evs:
        if e["e"] == "run":
            e = dict(e, nr=c.inst.nr, cols=c.inst.cols, costs=[vf.enc(gen.f32(x), sc) for x in c.inst.costs], par=par,
                     ws=c.ws or [], wcost=vf.enc(c.wcost(), sc) if c.ws else 0)
        if "mult" in e:
            e["nok"] = sum(abs(x) for x in e["mult"]) + sum(abs(vf.enc(x, sc)) for x in c.inst.costs) < 4 * 10 ** 8
            nok = nok and e["nok"]
        if e["e"] == "res" and not e["ok"]:
            return None, nok
        out.append(e)
    return out, nok


def cases(rng, n, expire=0.4, ws=0.3, maxnr=7, maxnc=11, regs=None, hard=0.5, hardnr=13):
    cs = []
    regs = regs or ["int", "dyadic", "unit", "frac", "zero", "large", "dyadic", "wide"]
    for i in range(n):
        reg = regs[i % len(regs)]
        nr, nc = rng.randint(1, maxnr), rng.randint(1, maxnc)
        u = rng.random()
        if u < 0.06:
            inst = gen.steiner(3)
        elif u < hard:
            n = rng.randint(8, hardnr)
            inst = gen.rnd_inst(rng, n, rng.randint(n, 2 * n), reg, dens=rng.choice([0.15, 0.2, 0.25]), dup=rng.choice([0, 0.2]), empty=0.03)
        else:
            inst = gen.rnd_inst(rng, nr, nc, reg, dup=rng.choice([0, 0.1, 0.3]), nested=rng.choice([0, 0.4]), empty=rng.choice([0, 0.1]))
        env = {"heur": rng.choice([0, 0, 1, 1, 2, 3, 6]), "alpha": rng.choice([1.1, 1.25, 1.5, 2.0, 3.0]), "eps": rng.choice([0.999, 0.01, 1e-6, 0.0, 0.125, 0.0]),
               "minfix": rng.choice([0.3, 0.3, 0.1, 0.5, 0.7]), "beta": rng.choice([1.0, 1.0, 1.1, 0.8]), "seed": rng.randrange(1 << 16)}
        if env["alpha"] < 1.2 or env["minfix"] < 0.1:
            env["heur"] = min(env["heur"], 2)
        ex = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 18, 22, 27, 33, 40, 60, 90, 130, 200]) if rng.random() < expire else -1
        if expire:
            gen.some_limit(rng, env, ex)
        w = gen.greedy_ws(rng, inst) if rng.random() < ws else None
        cs.append(gen.Case(inst, "run", env, ex, w, reg))
    return cs


def chaos_cases(rng, n, kind, expire=0.35):
    """cases for the builds with stand-ins of the phases (kind 3p or parts)"""
    cs = []
    regs = ["int", "dyadic", "unit", "zero", "dyadic", "frac", "wide", "large"]
    for i in range(n):
        inst = gen.rnd_inst(rng, rng.randint(2, 10), rng.randint(2, 16), regs[i % len(regs)], dens=rng.choice([0.2, 0.3, 0.4]),
                            dup=rng.choice([0, 0.2]), empty=rng.choice([0, 0.1]))
        env = {"alpha": rng.choice([1.1, 1.25, 1.5, 2.0, 3.0, 6.0]), "eps": rng.choice([0.999, 0.125, 0.0, 1e-6, 2.0]), "minfix": rng.choice([0.3, 0.1, 0.5, 0.75, 1.0]),
               "beta": rng.choice([1.0, 1.0, 1.2, 2.0, 0.5]), "seed": rng.randrange(1 << 16), "chaos": rng.randrange(1 << 30)}
        ex = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 17, 20, 25, 32]) if rng.random() < expire else -1
        gen.some_limit(rng, env, ex)
        w = gen.greedy_ws(rng, inst) if rng.random() < 0.3 else None
        cs.append(gen.Case(inst, "run", env, ex, w, kind))
    return cs


BUILDS = {None: ("labrec", ["rec"]), "3p": ("labchaos3p", ["chaos3p", "rec"]), "parts": ("labchaosparts", ["chaosparts", "rec"])}


def check(chk, props, cs, part="pipeline traces", maxev=900, kind=None):
    """records the cases and validates them; returns False when the recorder could not be built"""
    try:
        b = vf.build("lab.cpp", name=BUILDS[kind][0], incs=BUILDS[kind][1])
    except vf.NotBuildable as e:
        chk.degraded.append("recording harness not buildable against this tree: " + str(e)[:300])
        return False
    cut = {}
    outs, why = gen.run_cases(b, cs, rec=True, cut=cut)
    for i in sorted(why):
        if why[i] != "not run" and "C05" in props:
            chk.violation(part, "run " + why[i], {"stimulus": cs[i].stim()})
            return True
    trs, metas, idx, skipped = [], [], [], 0
    for i, (c, o) in enumerate(zip(cs, outs)):
        if o is None and not cut.get(i):
            continue
        tr, nok = trace_of(c, o if o is not None else cut[i][:maxev])  # also what an unfinished run did so far
        if tr is None or len(tr) > maxev:
            skipped += 1
            continue
        trs.append(tr)
        metas.append({"nok": nok, "stub": kind == "3p"})
        idx.append(i)
    v = vf.validate_traces("CftTrace", trs, consts={"Check": "{%s}" % ",".join('"%s"' % p for p in props)}, meta=metas)
    chk.add(part, v)
    d = chk.parts[part]
    d["events"] = d.get("events", 0) + sum(map(len, trs))
    d["with_expiry"] = d.get("with_expiry", 0) + sum(1 for t in trs if t[-1].get("x"))
    d["refinement_rounds"] = d.get("refinement_rounds", 0) + sum(1 for t in trs for e in t if e["e"] == "tp0")
    d["skipped_too_long"] = d.get("skipped_too_long", 0) + skipped
    if trs:
        chk.sample({"stimulus": cs[idx[0]].stim(), "events": [e["e"] for e in trs[0]][:60]})
    if not v.ok:
        k, m = v.rejected[0]
        chk.violation(part, "%s; %d of %d traces rejected" % (v.fail[1], getattr(v, "nrejected", 1), len(trs)),
                      {"stimulus": cs[idx[k]].stim(), "explained": m, "events": trs[k][max(0, m - 6):m + 2], "tlc": v.fail[2]})
    return True


INVS = ["InvBest", "InvRound", "InvFix", "InvDual", "InvWarm", "InvLate", "InvFrac", "InvDone"]


def model(chk, ids="1,2,3,4,5", thorough_ids="1,2,3,4,5,6,7,8,9", liveness=False, tries=1):
    """model checks the design (spec/CftMC.tla)"""
    r = vf.tlc("CftMC", consts={"Tol": "<- MCTol", "NFix": "<- MCNFix", "Check": '{"C05","C07","C08","C09","C10","C25"}',
                                "InstIds": "{%s}" % (thorough_ids if chk.thorough else ids), "MaxTries": 2 if chk.thorough and not liveness else tries, "Expiry": "TRUE"},
               spec="FairSpec" if liveness else "MCSpec", invariants=INVS,
               properties=["Monotone", "Progress3P"] + (["Termination"] if liveness else []), timeout=700, allow_timeout=True, mem="8g")
    chk.model("design model CftMC", r)
    if not r.ok and r.kind != "timeout":
        raise vf.MachineryError("the design model violates %s %s\n%s" % (r.kind, r.name, r.out[-1500:]))
    if r.kind == "timeout":
        chk.notes.append("model checking of the design stopped after 700 s with %d states, no error found" % r.distinct)
    return r


def main(pid, rule, modelids="1,2,3,5", kinds=("real", "parts", "3p"), n=(400, 4000), **kw):
    """the checks decided by recorded executions against Cft"""
    chk = vf.Check(pid)
    if modelids:
        model(chk, modelids)
    rng = chk.rng
    if "real" in kinds:
        check(chk, [pid], cases(rng, chk.n(*n), **kw), "recorded runs")
    for k, name in (("parts", "recorded runs, stand-in phases"), ("3p", "recorded runs, stand-in 3-phase")):
        if k in kinds:
            check(chk, [pid], chaos_cases(rng, chk.n(2 * n[0], 2 * n[1]), k), name, kind=k)
    return chk, rule
