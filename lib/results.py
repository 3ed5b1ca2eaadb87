"""Results of run / ThreePhase / accft / Python against spec/Results.tla (properties C01 to C04)."""
import json, os, re
import vf, gen, formats


def optcost(inst):
    return None


def known_best(pairs):
    """id(inst) -> smallest cost of a cover seen for it (scaled). pairs: (inst, scale, sol)"""
    best = {}
    for inst, scale, sol in pairs:
        if sol is None or any(not (0 <= j < inst.nc) for j in sol):
            continue
        cov = set()
        for j in sol:
            cov.update(inst.cols[j])
        if len(cov) == inst.nr:
            c = sum(inst.costs[j] for j in sol) * scale
            best[id(inst)] = min(best.get(id(inst), 1e9), c)
    return best


def small(inst):
    return inst.nr <= 9 and inst.nc <= 14


def record(inst, scale, exact, res, ws=None, wcost=None, known=vf.BIG, full=None, dual=True, mults=True):
    """res: dict with ok, sol, cost, lb (raw floats), nm, mneg, mfin, mbig"""
    big = inst.nr * inst.nc > 3000
    cols, costs, sol, w = inst.cols, inst.costs, res.get("sol") or [], ws or []
    if big:  # only the columns the record talks about
        used = sorted({j for j in list(sol) + list(w) if 0 <= j < inst.nc})
        ren = {j: k for k, j in enumerate(used)}
        cols, costs = [inst.cols[j] for j in used], [inst.costs[j] for j in used]
        sol, w = [ren.get(j, len(used) + 1) for j in sol], [ren.get(j, len(used) + 1) for j in w]
    lim = lambda x: vf.enc(x, scale)
    r = {"nr": inst.nr, "cols": cols, "costs": [lim(c) for c in costs], "exact": exact and not (res.get("cost", 0) > 2 ** 24),
         "ok": res["ok"], "sol": [j if abs(j) < vf.BIG else vf.BIG for j in sol], "cost": lim(res.get("cost", 0.0)),
         "lb": lim(res.get("lb", 0.0)), "hasdual": dual and res["ok"], "hasmults": mults and res["ok"], "nm": res.get("nm", 0),
         "mneg": res.get("mneg", False), "mfin": res.get("mfin", True), "mbig": res.get("mbig", False),
         "full": (small(inst) if full is None else full) and not big, "known": vf.BIG if known is None else int(min(known, vf.BIG)),
         "hasws": ws is not None, "ws": w, "cmp": 0}
    if ws is not None and res["ok"]:
        r["cmp"] = -1 if res["cost"] < wcost else (0 if res["cost"] == wcost else 1)
    return r


def from_lab(c, evs):
    e = evs[-1]
    res = {"ok": e["ok"]}
    if e["ok"]:
        res.update(sol=e["sol"], cost=float(e["costs"]), lb=float(e["lbs"]), nm=e["nm"], mneg=e["mneg"], mfin=e["mfin"], mbig=e["mbig"])
    return res


def lab_records(chk, cases, binary=None, part="lab", hang_is=None):
    """runs the cases and returns (records, owners); crashes/hangs are reported through chk when hang_is"""
    binary = binary or vf.build("lab.cpp")
    out, why = gen.run_cases(binary, cases)
    recs, own = [], []
    res = [None if o is None else from_lab(c, o) for c, o in zip(cases, out)]
    kb = known_best([(c.inst, c.scale, r.get("sol")) for c, r in zip(cases, res) if r])
    for i, (c, r) in enumerate(zip(cases, res)):
        if r is None:
            if why.get(i) != "not run":
                recs.append(record(c.inst, c.scale, False, {"ok": False}))
                own.append((part, c.stim(), why.get(i)))
            continue
        k = kb.get(id(c.inst))
        recs.append(record(c.inst, c.scale, c.exact, r, c.ws, c.wcost() if c.ws is not None else None, k))
        own.append((part, c.stim(), out[i][-1]))
    return recs, own


def parse_solfile(p):
    t = open(p).read().split()
    return float(t[0]), [int(x) for x in t[1:]]


def cli_records(chk, jobs, part="accft"):
    """jobs: (inst, parser, text, extra args, ws or None, initsol text or None)"""
    exe = vf.build_cli()

    def one(kj):
        k, (inst, parser, text, args, ws, wtext) = kj
        d = vf.path("cli/%s%d/x" % (part, k))[:-2]
        open(d + "/i.txt", "w", newline="").write(text)
        a = [exe, "-i", d + "/i.txt", "-o", d + "/o.sol", "-p", parser, "-v", "0"] + args
        if wtext is not None:
            open(d + "/w.sol", "w").write(wtext)
            a += ["-w", d + "/w.sol"]
        rc, so, se = vf.run_harness(a, timeout=120, cwd=d)
        if rc == 0 and os.path.exists(d + "/o.sol"):
            try:
                cost, sol = parse_solfile(d + "/o.sol")
                cost = gen.f32(cost)
                return {"ok": True, "cost": cost, "sol": sol}, a
            except (ValueError, IndexError):
                return {"ok": False, "err": "unreadable solution file"}, a
        return {"ok": False, "err": "rc=%s %s" % (rc, (se or "")[-300:])}, a

    outs = vf.pmap(one, list(enumerate(jobs)))
    recs, own = [], []
    for (inst, parser, text, args, ws, wtext), (r, a) in zip(jobs, outs):
        scale, exact = gen.exact_scale(inst)
        recs.append(record(inst, scale, exact, r, ws, gen.f32sum(inst.costs[j] for j in ws) if ws is not None else None, dual=False, mults=False))
        own.append((part, {"inst": inst.rec() if inst.nc < 200 else "big", "args": args, "parser": parser, "ws": ws}, {k: v for k, v in r.items()}))
    return recs, own


def py_sessions(sessions, timeout=200, shards=4, driver="pydrv.py", dead=None):
    """runs lists of operations in the Python package; returns list of outputs (None when it died)"""
    d = vf.build_py()
    outs = [None] * len(sessions)
    dead = [] if dead is None else dead

    def shard(s):
        idx = list(range(s, len(sessions), shards))
        n = 0
        while idx:
            n += 1
            fi = vf.path("py_%d_%d_%d.json" % (id(sessions), s, n))
            json.dump([sessions[i] for i in idx], open(fi, "w"))
            rc, so, se = vf.run_harness([vf.VENV_PY, "-B", os.path.join(vf.HARN, driver), fi, fi + ".out"], timeout=timeout,
                                        env={"PYTHONPATH": d})
            got = vf.read_ndjson(fi + ".out") if os.path.exists(fi + ".out") else []
            for i, o in zip(idx, got):
                outs[i] = o
            if len(got) == len(idx):
                break
            if not got and rc not in (None,) and rc > 0:
                raise vf.MachineryError("python driver failed: " + (se or "")[-800:])
            dead.append(idx[len(got)])
            idx = idx[len(got) + 1:]
            if rc is None or len(dead) > 6:
                break
    vf.pmap(shard, range(shards))
    return outs


def py_records(chk, cases, part="python"):
    """cases (gen.Case, mode run without expiry) through the Python solver"""
    names = {"eps": "epsilon", "heur": "heur_iters", "alpha": "alpha", "beta": "beta", "minfix": "min_fixing", "absx": "abs_subgrad_exit",
             "relx": "rel_subgrad_exit", "seed": "seed", "tlim": "time_limit"}
    sess = []
    for c in cases:
        ops = [["add", col, cost] for col, cost in zip(c.inst.cols, c.inst.costs)]
        ops.append(["solve", {names[k]: (int(v) if k in ("heur", "seed") else v) for k, v in c.env.items()}])
        ops.append(["solve", {"epsilon": 1e-6, "heur_iters": 5, "alpha": 1.5, "seed": 7}])   # warm started by the first
        sess.append(ops)
    outs = py_sessions(sess)
    recs, own = [], []
    for c, o in zip(cases, outs):
        prev = None
        for q in (-2, -1):
            if o is None or not o[q]["ok"] or "sol" not in o[q]["st"] or o[q]["st"]["sol"] is None:
                r = {"ok": False}
            else:
                st = o[q]["st"]
                r = {"ok": True, "sol": st["sol"], "cost": st["cost"], "lb": st["lb"], "nm": st["nm"], "mneg": st["mbad"]}
            recs.append(record(c.inst, c.scale, c.exact, r, prev["sol"] if prev and prev["ok"] else None, prev["cost"] if prev and prev["ok"] else None))
            own.append((part, c.stim(), o[q] if o else "died"))
            prev = r
    return recs, own


def py_growing(rng, n, part="python growing"):
    """sessions in which sets are added between the solves and files bring solutions: each later solve is warm
    started by what the solver knows unless an element was new"""
    sess, files = [], {}
    pars = [{"time_limit": 0, "heur_iters": 2}, {"heur_iters": 3, "seed": 9}, {"time_limit": 0, "epsilon": 3.0}, {"epsilon": 0.0, "heur_iters": 2},
            {"epsilon": 5.0, "heur_iters": 2, "beta": 1.5}, {"time_limit": 1e-5, "heur_iters": 4}]
    for k in range(n):
        nr, ops, seen = rng.randint(2, 9), [], set()

        def add(col, cost):
            ops.append(["add", sorted(col), cost])
            seen.update(col)
        if k % 4 == 0:
            inst = gen.rnd_inst(rng, nr, rng.randint(3, 14), "int", empty=0)
            p = vf.path("grow/%d.txt" % k)
            ws = gen.greedy_ws(rng, inst)
            open(p, "w").write(formats.cvrp(inst, ws))
            files[p] = (inst, ws)
            ops.append(["file", p, "CVRP"])
            seen.update(range(nr))
        else:
            for _ in range(rng.randint(nr, 2 * nr)):
                add(rng.sample(range(nr), min(nr, rng.choice([1, 1, 2, 2, 3, 4]))), float(rng.choice([1, 2, 3, 5, 8, 13, 20, 0.5])))
            if seen != set(range(nr)):
                add(set(range(nr)) - seen, 30.0)
        for t in range(rng.randint(2, 6)):
            if t:
                for _ in range(rng.randint(0, 3)):
                    add(rng.sample(range(nr), min(nr, rng.choice([1, 1, 2, 2, 3, 4]))), float(rng.choice([1, 2, 3, 5, 8, 13, 20, 0.5])))
                if rng.random() < 0.15:
                    add([nr], 4.0)
                    nr += 1
            ops.append(["solve", rng.choice(pars)])
        sess.append(ops)
    outs = py_sessions(sess, shards=vf.NCPU)
    recs, own = [], []
    for ops, o in zip(sess, outs):
        cols, costs, prev = [], [], None
        for q, op in enumerate(ops):
            st = None if o is None else o[q].get("st", {})
            if op[0] == "file":
                if not o or not o[q]["ok"] or st.get("sol") is None:
                    recs.append(record(gen.Inst(1, [[0]], [1.0]), 1, True, {"ok": False}))
                    own.append((part, ops, o))
                    break
                inst, ws = files[op[1]]
                cols, costs = [list(c) for c in inst.cols], list(inst.costs)
                prev = (ws, sum(costs[j] for j in ws))
            elif op[0] == "add":
                if cols and max(op[1]) > max(e for c in cols for e in c):
                    prev = None
                cols.append(list(op[1]))
                costs.append(op[2])
            else:
                inst = gen.Inst(max(e for c in cols for e in c) + 1, [list(c) for c in cols], list(costs))
                scale, exact = gen.exact_scale(inst)
                if o is None or not o[q]["ok"] or st.get("sol") is None:
                    r = {"ok": False}
                else:
                    r = {"ok": True, "sol": st["sol"], "cost": st["cost"], "lb": st["lb"], "nm": st["nm"], "mneg": st["mbad"]}
                recs.append(record(inst, scale, exact, r, prev[0] if prev else None, prev[1] if prev else None, dual=False, mults=False))
                own.append((part, {"calls": ops[:q + 1]}, o[q] if o else "died"))
                if not r["ok"]:
                    break
                prev = (r["sol"], r["cost"])
    return recs, own


def decide(chk, recs, own, invs, rerun=None):
    """validates the records with TLC and reports the first rejected one"""
    left, lo = recs, own
    by = {}
    for o in own:
        by[o[0]] = by.get(o[0], 0) + 1
    v = vf.validate_records("Results", recs, invs, consts={"NW": 64})
    for p in sorted(by):
        w = vf.Validation()
        w.records = by[p]
        chk.add(p, w)
    chk.states += v.states
    chk.transitions += v.transitions
    if not v.ok:
        i = v.fail[0]
        v2 = vf.validate_records("Results", [recs[i]], invs, consts={"NW": 64})
        if v2.ok:
            raise vf.MachineryError("rejection not reproducible")
        chk.violation(own[i][0], "%s rejected" % v.fail[1], {"record": recs[i] if len(str(recs[i])) < 20000 else "big", "stimulus": own[i][1], "observed": own[i][2]})
    return v
