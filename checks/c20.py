import os
import vf, comp, gen, formats, results, filesc

SC = 4


def write(name, text):
    p = vf.path("sess_files/" + name)
    open(p, "w", newline="").write(text)
    return p


def texts(fmt, inst, s):
    return {"RAIL": lambda: formats.rail(inst), "SCP": lambda: formats.scp(inst), "MPS": lambda: formats.mps(inst), "CVRP": lambda: formats.cvrp(inst, s)}[fmt]()


def files(rng, n):
    """well-formed and refused files with what they say"""
    good, bad = [], []
    for k in range(n):
        fmt = ("RAIL", "SCP", "CVRP", "MPS")[k % 4]
        inst = gen.rnd_inst(rng, rng.randint(1, 5), rng.randint(1, 6), "int", empty=0)
        inst.costs = [float(rng.choice([0, 1, 1, 2, 3, 5, 0.5, 7.25])) for _ in inst.costs]
        s = gen.greedy_ws(rng, inst)
        good.append({"e": "file", "kind": "plain", "path": write("g%d.txt" % k, texts(fmt, inst, s)), "parser": fmt, "form": rng.randrange(6),
                     "cols": inst.cols, "costs": [int(c * SC) for c in inst.costs], "sol": list(s) if fmt == "CVRP" else []})
        t = texts(fmt, inst, s)
        w = k % 5
        if w == 0:
            p, fm = vf.path("sess_files/none%d" % k), fmt
            if os.path.exists(p):
                os.unlink(p)
        elif w == 1:
            p, fm = write("b%d.txt" % k, ""), fmt
        elif w == 2:
            p, fm = write("b%d.txt" % k, t), "NOPARSER"
        elif w == 3:
            p, fm = write("b%d.txt" % k, t.replace("1", "x")if "1" in t else "x"), fmt
        else:
            p, fm = write("b%d.txt" % k, t[:len(t) // 3]), fmt
        if w == 4 and fmt not in ("RAIL", "SCP"):
            p = write("b%d.txt" % k, "hello world\n")
        bad.append({"e": "file", "kind": "bad", "path": p, "parser": fm, "form": rng.choice([1, 2, 5]), "cols": [], "costs": [], "sol": []})
    return good, bad


PARS = [{"heur_iters": 5, "alpha": 1.5}, {"heur_iters": 3, "epsilon": 1e-3, "seed": 5}, {"heur_iters": 20, "alpha": 2.0, "beta": 1.2}, {"time_limit": 0, "heur_iters": 2},
        {"heur_iters": 10, "min_fixing": 0.6, "abs_subgrad_exit": 0.5, "rel_subgrad_exit": 0.01}, {"time_limit": 1e-4, "heur_iters": 8}, {"epsilon": 0.0, "heur_iters": 4, "seed": 2 ** 40}]


def small(rng, h, good, bad):
    ops = []
    w = 0
    other = rng.random() < 0.25
    for a in h:
        if other and rng.random() < 0.4:
            w = 1 - w
        ops.append(op(rng, a, w, good, bad))
    ops.append(solve(rng, w))
    if other:
        ops.append(solve(rng, 1 - w))
    return ops


def solve(rng, w):
    return {"e": "solve", "w": w, "kind": "plain", "par": rng.choice(PARS)}


def op(rng, a, w, good, bad):
    if a["o"] == "add":
        return {"e": "add", "w": w, "kind": "plain", "els": a["els"], "cost": a["cost"], "form": rng.randrange(42)}
    if a["o"] == "solve":
        return solve(rng, w)
    if a["o"] == "file":
        return dict(rng.choice(good), w=w)
    if a["o"] == "badfile":
        return dict(rng.choice(bad), w=w)
    if rng.random() < 0.5:
        return {"e": "add", "w": w, "kind": "type", "which": rng.randrange(100), "els": [], "cost": 0}
    return {"e": "solve", "w": w, "kind": "type", "which": rng.randrange(100)}


def long(rng, good, bad):
    ops = []
    n = rng.randint(5, 30)
    top = [rng.choice([1, 2, 3, 4]), rng.choice([1, 3, 6])]
    for _ in range(n):
        w = 0 if rng.random() < 0.7 else 1
        u = rng.random()
        if rng.random() < 0.12:
            top[w] = min(9, top[w] + rng.choice([1, 1, 2]))
        if u < 0.55:
            els = rng.sample(range(top[w]), rng.randint(1, top[w]) if rng.random() < 0.5 else min(top[w], rng.randint(1, 3)))
            if rng.random() < 0.25:
                els = list(range(top[w]))
            cost = rng.choice([0, 1, 2, 4, 4, 8, 12, 20, 28, 400, 4000])
            if rng.random() < 0.12:
                z = rng.randrange(3)
                if z == 0:
                    els = []
                elif z == 1:
                    els.insert(rng.randint(0, len(els)), -rng.randint(1, 5))
                else:
                    cost = -rng.randint(1, 40)
                if rng.random() < 0.3:
                    els.append(rng.randint(0, 12))
            a = {"o": "add", "els": els, "cost": cost}
        else:
            a = {"o": "solve" if u < 0.8 else "file" if u < 0.85 else "badfile" if u < 0.92 else "badcall"}
        ops.append(op(rng, a, w, good, bad))
        if a["o"] == "file":
            top[w] = max(1, max([r for c in ops[-1].get("cols", []) for r in c] + [0]) + 1)
    ops += [solve(rng, 0), solve(rng, 1)]
    return ops


def main():
    chk = vf.Check("C20")
    rng = chk.rng
    r = vf.tlc("SessionMC", consts={"Ids": "{0}", "NE": 2, "MaxSets": chk.n(3, 4), "CostSet": "{0,1,2}"}, spec="MCSpec", invariants=["KnownIsCover", "GapKnowsNothing", "Usable"], properties=["Monotone", "Forgets", "Alone"], deadlock=False)
    chk.model("sessions of one solver", r)
    r2 = vf.tlc("SessionMC", consts={"Ids": "{0,1}", "NE": 2, "MaxSets": 2, "CostSet": "{0,1}"}, spec="MCSpec", invariants=["KnownIsCover", "GapKnowsNothing"], properties=["Monotone", "Forgets", "Alone"], deadlock=False)
    chk.model("sessions of two solvers", r2)
    for x in (r, r2):
        if not x.ok:
            raise vf.MachineryError("the design model fails: %s" % x.out[-1500:])
    L = chk.n(3, 4)
    vals, g = vf.generate("SessionGen", consts={"MaxLen": L}, spec="GSpec", invariants=["Emit"])
    chk.model("sessions enumerated by SessionGen", g)
    good, bad = files(rng, 24)
    for part, sess in (("all short sessions", [small(rng, h, good, bad) for h in vals]), ("long sessions", [long(rng, good, bad) for _ in range(chk.n(700, 8000))])):
        dead = []
        outs = results.py_sessions(sess, timeout=chk.n(120, 900), shards=vf.NCPU, driver="pysess.py", dead=dead)
        if dead:
            chk.violation(part, "the session ended the process or did not end", {"stimulus": sess[min(dead)]})
            break
        comp.traces(chk, part, "SessionTrace", outs, sess, consts={"Ids": "{0,1}"}, invariants=["TKnown"])
        d = chk.parts[part]
        d["solved"] = sum(e["e"] == "solve" and e["ok"] for o in outs for e in o)
        d["refused"] = sum(not e["ok"] for o in outs for e in o)
    return chk.finish("all sessions of %d calls over a small alphabet (enumerated by TLC, ended by a solve) and random longer ones with two solvers interleaved, files of the four formats and rejected calls; each must be a behaviour of Session.tla" % L,
                      ["solving without any set is only required to leave the solver usable"])
