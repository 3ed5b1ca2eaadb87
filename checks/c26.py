import vf, gen, comp, agree, results

PARTS = {1: "pricing", 2: "greedy", 3: "column fixing", 4: "subgradient", 5: "3-phase", 6: "run"}


def inst_for(rng, big):
    reg = rng.choice(["int", "unit", "dyadic", "frac", "zero", "wide"])
    if big:
        nr = rng.choice([20, 40, 80, 250])
        return gen.big_inst(rng, nr, rng.choice([nr, 2 * nr, 4 * nr]), reg, per=rng.choice([3, 5, 10]))
    return gen.rnd_inst(rng, rng.randint(1, 12), rng.randint(1, 20), reg, dens=rng.choice([0.15, 0.3, 0.5]), dup=rng.choice([0, 0.3]), nested=rng.choice([0, 0.5]), empty=rng.choice([0, 0.1]))


def one_input(rng, part, inst):
    eps = rng.choice([0.999, 0.01, 0.0])
    heur = rng.choice([0, 1, 3, 8])
    avg = sum(inst.costs) / max(1, len(inst.costs))
    u = [rng.choice([0, rng.uniform(0, 2 * avg), avg / 2]) for _ in range(inst.nr)]
    if rng.random() < 0.15:
        u = [0.0] * inst.nr
    if part == 3 and rng.random() < 0.7:
        u = [x * rng.choice([0.5, 1]) for x in u]
    ini, mx, cut = [], -1, -1.0
    s = gen.greedy_ws(rng, inst)
    if part == 2:
        if rng.random() < 0.4:
            ini = s[:rng.randint(0, len(s))]
        if rng.random() < 0.25:
            mx = rng.randint(len(ini), len(ini) + 3)
    if part in (2, 4) and rng.random() < 0.5:
        cut = sum(inst.costs[j] for j in s) * rng.choice([0.6, 0.9, 1.0, 1.3])
    if part == 6 and rng.random() < 0.3:
        ini = s
    kind = rng.choice([1, 2, 3])
    t = ["%.9g %.9g %d %.9g %.9g %.9g %.9g %d" % (rng.choice([1.0, 1.0, 0.75, 1.25]), eps, heur, rng.choice([1.0, 1e-3]), rng.choice([1e-3, 1e-5]), rng.choice([1.3, 2.0]), rng.choice([0.3, 0.1, 0.6]), rng.randrange(1 << 20)),
         "%d %d" % (inst.nr, inst.nc)]
    t += ["%.9g %d %s" % (c, len(col), " ".join(map(str, col))) for c, col in zip(inst.costs, inst.cols)]
    t.append(" ".join("%.9g" % x for x in u))
    t.append("%d %.9g %d %d %s" % (kind, cut, mx, len(ini), " ".join(map(str, ini))))
    return "\n".join(t)


def inputs(rng, part, big):
    ins = [inst_for(rng, big and rng.random() < 0.6) for _ in range(3)]
    how = rng.random()
    if how < 0.25:                                   # the same sizes, other contents
        a = ins[0]
        for k in (1, 2):
            order = list(range(a.nc))
            rng.shuffle(order)
            ins[k] = gen.Inst(a.nr, [a.cols[j] for j in order], [a.costs[rng.randrange(a.nc)] for _ in order])
    elif how < 0.4:                                  # only the costs differ
        ins[1] = gen.Inst(ins[0].nr, ins[0].cols, [c * 2 for c in ins[0].costs])
    elif how < 0.5:                                  # one instance, other parameters
        ins = [ins[0]] * 3
    if rng.random() < 0.5:
        ins.sort(key=lambda i: i.nr * (-1 if rng.random() < 0.5 else 1))
    return [one_input(rng, part, i) for i in ins]


def text(threads, ins, calls):
    return "%d %d\n%s\n%d %s" % (threads, len(ins), "\n".join(ins), len(calls), " ".join("%d %d" % c for c in calls))


def objects(chk):
    rng = chk.rng
    hist, r = vf.generate("ReuseGen", consts={"MaxLen": chk.n(4, 5)}, spec="GSpec", invariants=["Emit"])
    chk.model("call sequences enumerated by ReuseGen", r)
    bins = dict(zip(PARTS, vf.pmap(lambda p: comp.build(chk, "comp/reuse.cpp", name="reuse%d" % p, flags=["-DPART=%d" % p]), PARTS)))
    todo = []
    for part, b in bins.items():
        if b is None:
            continue
        cs = []
        for h in hist:                                # inputs differ from sequence to sequence
            cs.append(text(0, inputs(rng, part, rng.random() < (0.02 if part >= 5 else 0.08)), [(c["o"], c["x"]) for c in h]))
        for _ in range(chk.n(40, 600)):               # long ones on larger instances
            cs.append(text(0, inputs(rng, part, True), [(rng.choice([0, 1, 1, 2]), rng.randint(1, 3)) for _ in range(10)]))
        todo.append((PARTS[part], b, cs))
        cs = []
        for _ in range(chk.n(150, 1500)):
            ins = inputs(rng, part, rng.random() < 0.2)
            cs.append(text(1, ins, [(o, rng.randint(1, 3)) for o in (0, 1, 2, 3) for _ in range(rng.randint(2, 6))]))
        todo.append((PARTS[part] + ", threads", b, cs))
    for name, b, cs in todo:
        out, why = comp.run(b, cs, timeout=chk.n(120, 800))
        if not comp.failed(chk, name, why, cs):
            ok = [i for i in range(len(cs)) if out[i]]
            comp.traces(chk, name, "ReuseTrace", [out[i] for i in ok], [cs[i] if len(cs[i]) < 20000 else "long" for i in ok])


def solvers(chk):
    """two Python solvers used in turn against each of them alone; the sets given are left alone"""
    rng = chk.rng
    jobs = []
    for k in range(chk.n(70, 1500)):
        two = []
        for _ in range(2):
            ops = []
            for _ in range(rng.randint(1, 2)):
                inst = gen.rnd_inst(rng, rng.randint(2, 9), rng.randint(2, 14), rng.choice(["int", "unit", "dyadic"]), empty=0)
                ops += [["add", c, x] for c, x in zip(inst.cols, inst.costs)]
                ops.append(["solve", {"seed": rng.randrange(99), "heur_iters": 3, "epsilon": 0.01, "alpha": 1.5}])
            two.append(ops)
        jobs.append(two)
    def turn(a, b, rng):
        o, i, j = [], 0, 0
        while i < len(a) or j < len(b):
            if j == len(b) or (i < len(a) and rng.random() < 0.5):
                o.append([0] + a[i]); i += 1
            else:
                o.append([1] + b[j]); j += 1
        return o
    sess = []
    for a, b in jobs:
        sess += [[[0] + x for x in a], [[1] + x for x in b], turn(a, b, rng)]
    dead = []
    out = results.py_sessions(sess, shards=vf.NCPU, driver="pytwo.py", dead=dead)
    groups, own = [], []
    for k, (a, b) in enumerate(jobs):
        x, y, z = out[3 * k:3 * k + 3]
        if x is None or y is None or z is None:
            if any(q in dead for q in (3 * k, 3 * k + 1, 3 * k + 2)):
                groups.append([{"r": "ended"}, {"r": "died"}])
                own.append(sess[3 * k + 2])
            continue
        groups.append([x[0], z[0]])
        groups.append([y[1], z[1]])
        own += [sess[3 * k + 2]] * 2
    agree.decide(chk, "Python solvers in turn", groups, own)


def main():
    chk = vf.Check("C26")
    consts = {"Objs": "{1,2}", "Inputs": "{1,2,3}", "MaxCalls": chk.n(4, 5), "Shared": "FALSE", "Lazy": "FALSE"}
    chk.model("design", vf.tlc("ReuseMC", consts=consts, spec="MCSpec", properties=["Refines"], deadlock=False))
    for wrong in ("Shared", "Lazy"):                  # the relation is not vacuous
        r = vf.tlc("ReuseMC", consts=dict(consts, **{wrong: "TRUE"}), spec="MCSpec", properties=["Refines"], deadlock=False)
        if r.ok:
            raise vf.MachineryError("the broken design %s is accepted" % wrong)
    objects(chk)
    solvers(chk)
    return chk.finish("all short sequences of calls of kept and fresh objects (enumerated by TLC) with varying inputs, longer ones and concurrent ones, decided by Reuse.tla; Python solvers used in turn",
                      ["an Environment carries its random generator and timer: both start afresh with every call"])
