import os, threading
import vf, gen, formats, results, agree, suite

LOCK = threading.Lock()
NAMES = {"eps": "epsilon", "heur": "heur_iters", "beta": "beta", "absx": "abs_subgrad_exit", "relx": "rel_subgrad_exit", "seed": "seed", "alpha": "alpha", "minfix": "min_fixing"}
FLAGS = {"eps": "-e", "heur": "-g", "beta": "-b", "absx": "-a", "relx": "-r", "seed": "-s"}


def strip(r, lb=True):
    """what every interface tells, as exact floats"""
    if r is None or not r.get("ok"):
        return {"ok": False}
    o = {"ok": True, "sol": r["sol"], "cost": repr(gen.f32(float(r["cost"])))}
    if lb:
        o["lb"] = repr(gen.f32(float(r["lb"])))
    return o


def lab(evs, lb=True):
    r = agree.lab_result(evs)
    return strip(r, lb)


def accft(exe, k, inst, fmt, s, env, ws, verbose, tag):
    """one run of the program; returns its result and the command"""
    d = vf.path("same/%s%d/x" % (tag, k))[:-2]
    p = d + "/i.txt"
    with LOCK:                                     # several runs share a file
        if not os.path.exists(p):
            with open(p, "w") as f:
                f.write({"RAIL": formats.rail, "SCP": formats.scp, "MPS": formats.mps, "CVRP": lambda i: formats.cvrp(i, s)}[fmt](inst))
    if not all(e in FLAGS for e in env):              # not reachable from the command line
        return None
    out = d + "/o%s_%s.sol" % (verbose, env.get("seed", ""))
    a = [exe, "-i", p, "-o", out, "-p", fmt, "-v", str(verbose)]
    for n, v in env.items():
        a += [FLAGS[n], "%d" % v if n in ("heur", "seed") else repr(v)]
    if ws is not None and fmt != "CVRP":
        open(d + "/w.sol", "w").write(" ".join([formats.num(gen.f32sum(inst.costs[j] for j in ws))] + [str(j) for j in ws]))
        a += ["-w", d + "/w.sol"]
    rc, so, se = vf.run_harness(a, timeout=200, cwd=d)
    if rc == 0 and os.path.exists(out):
        try:
            c, sol = results.parse_solfile(out)
            return {"ok": True, "cost": c, "sol": sol}
        except (ValueError, IndexError):
            pass
    return {"ok": False, "rc": rc}


def kw(env):
    return {NAMES[k]: (int(v) if k in ("heur", "seed") else v) for k, v in env.items()}


def py_state(o):
    if o is None or not o["ok"] or "bad" in o["st"] or o["st"]["sol"] is None:
        return {"ok": False}
    return strip({"ok": True, "sol": o["st"]["sol"], "cost": o["st"]["cost"], "lb": o["st"]["lb"]})


def repeats(chk, b):
    """the same calls in another order, in other processes, with other memory contents and verbosity"""
    rng = chk.rng
    cs = gen.mixed_cases(rng, chk.n(700, 8000), expire=0, ws=0.2)
    for inst in suite.instances_big(rng, chk.n(8, 60)):
        cs.append(gen.Case(inst, rng.choice(["run", "3p"]), {"heur": 10, "alpha": 1.5, "seed": rng.randrange(99)}, tag="big"))
    groups = [[] for _ in cs]
    for rnd, (shards, mem) in enumerate([(vf.NCPU, "0"), (3, "85"), (5, "170")]):
        order = list(range(len(cs)))
        if rnd:
            rng.shuffle(order)
        todo = []
        for i in order:
            c = cs[i]
            env = dict(c.env) if rnd == 0 else dict(c.env, verbose=rng.choice([0, 1, 2, 3, 4, 5, 9]))
            todo.append(gen.Case(c.inst, c.mode, env, -1, c.ws, c.tag))
        outs, why = gen.run_cases(b, todo, shards=shards, env={"MALLOC_PERTURB_": mem})
        for q, i in enumerate(order):
            if why.get(q) != "not run":
                groups[i].append(lab(outs[q]))
    agree.decide(chk, "order, process, memory, verbosity", [g for g in groups if g], [c.stim() if c.inst.nc < 100 else c.tag for c, g in zip(cs, groups) if g])


def interfaces(chk, b):
    rng = chk.rng
    exe = vf.build_cli()
    jobs = []
    for k in range(chk.n(260, 2500)):
        fmt = ("RAIL", "SCP", "CVRP", "MPS")[k % 4]
        reg = ["int", "frac", "unit", "dyadic", "zero", "wide", "large"][k % 7]
        if k % 5 == 0:
            inst = gen.big_inst(rng, rng.choice([30, 60]), rng.choice([80, 200]), reg)
        else:
            inst = gen.rnd_inst(rng, rng.randint(1, 9), rng.randint(1, 14), reg, dup=rng.choice([0, 0.2]), empty=0)
        exits = k % 17 == 3
        if exits:                                   # large enough for the exit thresholds to matter
            inst = gen.big_inst(rng, 100, rng.choice([300, 400]), rng.choice(["large", "wide", "unit", "frac"]), per=5)
        s = gen.greedy_ws(rng, inst)
        inst.cols = [sorted(c) for c in inst.cols]      # the order in which SCP files give them
        ws = s if fmt == "CVRP" or rng.random() < 0.3 else None
        env = {}
        if rng.random() < 0.8:
            env = dict(rng.choice([{"heur": 5}, {"heur": 20, "eps": 1e-6}, {"eps": 0.25, "beta": 1.5}, {"absx": 0.125, "relx": 0.25}, {"heur": 0}, {"beta": 0.5, "eps": 0.0, "heur": 3}, {"absx": 1e-4, "heur": 2}, {"relx": 1e-6, "heur": 2},
                                   {"alpha": 2.0, "heur": 2, "eps": 1e-6}, {"minfix": 0.8, "heur": 2, "eps": 1e-6}, {"alpha": 1.5, "minfix": 0.15, "heur": 1, "eps": 0.125}]))
        if exits:
            env = dict(rng.choice([{"relx": 0.5}, {"absx": 1e4}, {"relx": 0.5, "absx": 1e4}]), heur=1, beta=1.25)
        if rng.random() < 0.6:
            env["seed"] = rng.choice([1, 2, 12345, 2 ** 32, 2 ** 31, 2 ** 63, rng.randrange(2 ** 20)])
        jobs.append((inst, fmt, s, env, ws))
    outs, why = gen.run_cases(b, [gen.Case(i, "run", e, -1, w) for i, f, s, e, w in jobs])
    cli = vf.pmap(lambda kj: [accft(exe, kj[0], kj[1][0], kj[1][1], kj[1][2], kj[1][3], kj[1][4], v, "if") for v in (0, 2 + kj[0] % 4)], list(enumerate(jobs)))
    sess = []
    for k, (inst, fmt, s, env, ws) in enumerate(jobs):
        ops = []
        p = vf.path("same/if%d/i.txt" % k)
        # the solver has been used for something else before
        if k % 3 == 0:
            ops += [["add", [0, 1], 3], ["add", [1], 1], ["solve", {"seed": 3}]] + ([["solve", {}]] if k % 2 else [])
        ops += [["file", p, fmt], ["solve", dict(kw(env), verbose=k % 6)]]
        if ws is not None and fmt != "CVRP":
            ops = [["query"]]                     # Python has no way of giving an initial solution
        sess.append(ops)
        ops = []
        if ws is None and all(inst.cols):
            ops = [["add", c, x] for c, x in zip(inst.cols, inst.costs)] + [["solve", kw(env)]]
        sess.append(ops or [["query"]])
    # several solver processes, sessions of other instances in between
    po = results.py_sessions(sess, shards=vf.NCPU)
    groups, stim = [], []
    for k, (inst, fmt, s, env, ws) in enumerate(jobs):
        if why.get(k) == "not run":
            continue
        full = [lab(outs[k])]
        for q in (0, 1):
            if sess[2 * k + q][0][0] != "query":
                full.append(py_state(po[2 * k + q][-1]) if po[2 * k + q] else {"ok": False})
        st = {"inst": inst.rec() if inst.nc < 30 else "big", "parser": fmt, "env": env, "ws": ws}
        groups.append(full)
        stim.append(dict(st, of="C++, Python from file, Python sets"))
        groups.append([{x: full[0][x] for x in full[0] if x != "lb"}] + [strip(r, False) for r in cli[k] if r is not None])
        stim.append(dict(st, of="C++, accft silent, accft talking"))
    agree.decide(chk, "C++, accft, Python", groups, stim)


def seeds(chk, b):
    rng = chk.rng
    exe = vf.build_cli()
    pool = [gen.big_inst(rng, 100, 300, "unit", per=6) for _ in range(chk.n(8, 16))]
    sd = [0, 1, 2, 3, 255, 256, 2 ** 16, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 40, 2 ** 52 + 1, 2 ** 63] + [rng.randrange(2 ** 50) for _ in range(chk.n(7, 40))]
    cs = [gen.Case(i, "run", {"seed": s, "heur": 3, "eps": 1e-6}) for s in sd for i in pool]
    outs, why = gen.run_cases(b, cs)
    n = len(pool)
    rec = [lab(o) for o in outs]
    agree.decide(chk, "seeds select the sequence", [[[rec[q * n + k]["sol"] if rec[q * n + k]["ok"] else [] for k in range(n)] for q in range(len(sd))]], [{"seeds": sd, "of": "solutions of %d instances with 100 rows, unit costs" % n}], inv="AllDiffer")
    chk.parts["seeds select the sequence"]["distinct"] = [len({str(rec[q * n + k]["sol"]) for q in range(len(sd)) if rec[q * n + k]["ok"]}) for k in range(n)]
    # and the same one through every interface
    cut = sd[:chk.n(13, 30)]
    jobs = [(q, k) for q in range(len(cut)) for k in range(2)]
    cli = vf.pmap(lambda j: accft(exe, j[1], pool[j[1]], "RAIL", None, {"seed": cut[j[0]], "heur": 3, "eps": 1e-6}, None, 0, "sd"), jobs)
    # the default seed is zero
    dfl = [accft(exe, k, pool[k], "RAIL", None, {"heur": 3, "eps": 1e-6}, None, 0, "sd") for k in range(2)]
    sess = [[["add", c, x] for c, x in zip(pool[k].cols, pool[k].costs)] + [["solve", {"seed": cut[q], "heur_iters": 3, "epsilon": 1e-6}]] for q, k in jobs]
    po = results.py_sessions(sess, shards=vf.NCPU)
    groups, stim = [], []
    for (q, k), c, o in zip(jobs, cli, po):
        base = rec[q * n + k]
        nb = {x: base[x] for x in base if x != "lb"}
        groups.append([nb, strip(c, False)] + ([strip(dfl[k], False)] if cut[q] == 0 else []))
        stim.append({"seed": cut[q], "of": "C++, accft"})
        groups.append([base, py_state(o[-1]) if o else {"ok": False}])
        stim.append({"seed": cut[q], "of": "C++, Python"})
    agree.decide(chk, "a seed is the same everywhere", groups, stim)


def main():
    chk = vf.Check("C06")
    try:
        b = vf.build("lab.cpp")
    except vf.NotBuildable as e:
        chk.degraded.append("lab harness not buildable: " + str(e)[:300])
        b = None
    if b:
        repeats(chk, b)
        interfaces(chk, b)
        seeds(chk, b)
    return chk.finish("groups of executions that must agree (order, process, memory contents, verbosity, interface, seed), decided by Agree.tla; distinct seeds must not act as one",
                      ["an Environment object carries its random generator: repeating means a fresh one"])
