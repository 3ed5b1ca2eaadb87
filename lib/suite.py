"""The stimuli shared by the checks on results (C01 to C04)."""
import random
import vf, gen, formats, results


def instances_big(rng, n):
    out = [gen.steiner(3), gen.steiner(4)]
    for i in range(n):
        reg = gen.COSTS[i % len(gen.COSTS)]
        nr, nc = rng.choice([(40, 60), (60, 300), (120, 200), (210, 320), (420, 500), (30, 900), (15, 200), (220, 1500)])
        out.append(gen.big_inst(rng, nr, nc, reg, per=rng.choice([2, 5, max(2, nr // 10)])))
    return out


def lab_cases(chk, ws=0.3, expire=0.25, n=None, nbig=None, exhaustive=True):
    rng = chk.rng
    cs = []
    if exhaustive:
        xs, r = gen.tlc_instances(3, 4, [1, 3])
        chk.model("TLC-enumerated instances", r)
        if chk.thorough:
            ys, r = gen.tlc_instances(4, 4, [1, 2])
            chk.model("TLC-enumerated instances", r)
            xs = xs + ys
        for i, x in enumerate(xs):
            mode = ("run", "3p")[i % 2]
            c = gen.Case(x, mode, rng.choice(gen.ENVS) if i % 3 else {"alpha": 1.5}, tag="enumerated")
            if i % 5 == 0:
                c.expire = rng.choice([0, 1, 2, 4, 6, 9])
            if mode == "run" and rng.random() < ws:
                c.ws = gen.greedy_ws(rng, x)
            cs.append(c)
    cs += gen.mixed_cases(rng, n or chk.n(4000, 40000), expire=expire, ws=ws)
    for inst in instances_big(rng, nbig or chk.n(16, 120)):
        env = {"heur": rng.choice([3, 20, 250]), "alpha": rng.choice([1.5, 2.0]), "eps": rng.choice([0.999, 1e-3, 0.0])}
        base = gen.Case(inst, rng.choice(["run", "run", "3p"]), env, tag="big")
        cs.append(base)
        cs.append(gen.Case(inst, "run", dict(env, seed=rng.randrange(1000)), rng.choice([5, 50, 200, 1000, 3000, 8000]), tag="big"))
        cs.append(gen.Case(inst, "run", env, -1 if rng.random() < 0.5 else rng.choice([3, 100]), gen.greedy_ws(rng, inst), tag="big"))
    return cs


def warm_cases(rng, n):
    """warm starts of every quality: optimal, near optimal, redundant, with the time already over"""
    cs = []
    for i in range(n):
        reg = gen.COSTS[i % len(gen.COSTS)]
        inst = gen.rnd_inst(rng, rng.randint(1, 8), rng.randint(1, 12), reg, dup=rng.choice([0, 0.3]))
        best = None
        for _ in range(rng.choice([1, 30])):
            w = gen.greedy_ws(rng, inst)
            if best is None or gen.f32sum(inst.costs[j] for j in w) < gen.f32sum(inst.costs[j] for j in best):
                best = w
        if rng.random() < 0.3:   # redundant columns are allowed in a feasible solution
            rest = [j for j in range(inst.nc) if j not in best]
            rng.shuffle(rest)
            best = best + rest[:rng.randint(0, 2)]
        rng.shuffle(best)
        env = dict(rng.choice(gen.ENVS))
        env["alpha"] = rng.choice([1.3, 2.0])
        cs.append(gen.Case(inst, "run", env, rng.choice([-1, -1, 0, 1, 5, 20, 100]), best, reg))
    return cs


def cli_jobs(rng, n, ws=0.3):
    jobs = []
    for i in range(n):
        reg = ["int", "unit", "dyadic", "frac", "large", "zero"][i % 6]
        inst = gen.rnd_inst(rng, rng.randint(1, 8), rng.randint(1, 12), reg, empty=0)
        w = gen.greedy_ws(rng, inst) if rng.random() < ws else None
        wt = None if w is None else " ".join([formats.num(gen.f32sum(inst.costs[j] for j in w))] + [str(j) for j in w])
        args = rng.choice([[], ["-e", "0.0001"], ["-g", "3"], ["-t", "0"], ["-s", "5", "-b", "1.1"], ["-e", "0"], ["-a", "0.01", "-r", "0.0001"]])
        p = ["RAIL", "SCP", "CVRP", "MPS"][i % 4]
        if p == "RAIL":
            t = formats.rail(inst)
        elif p == "SCP":
            t = formats.scp(inst, rng)
        elif p == "MPS":
            t = formats.mps(inst, rng=rng)
        else:
            s = w or gen.greedy_ws(rng, inst)
            w, wt = (s, None) if rng.random() < 0.7 else (w, wt)
            if w is None:
                w = s
            t = formats.cvrp(inst, s)
        jobs.append((inst, p, t, args, w, wt))
    return jobs
