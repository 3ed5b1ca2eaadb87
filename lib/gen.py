"""Stimuli: instances and parameter settings, and the lab harness that runs them."""
import os, random
import vf


class Inst:
    __slots__ = ("nr", "cols", "costs")

    def __init__(self, nr, cols, costs):
        self.nr, self.cols, self.costs = nr, cols, costs

    @property
    def nc(self):
        return len(self.cols)

    def rec(self, scale=1):
        return {"nr": self.nr, "cols": self.cols, "costs": [vf.enc(c, scale) for c in self.costs]}


def f32(x):
    import struct
    return struct.unpack("f", struct.pack("f", x))[0]


COSTS = ["unit", "int", "dyadic", "frac", "zero", "large", "wide", "tiny"]


def cost_of(rng, regime):
    if regime == "unit":
        return 1.0
    if regime == "int":
        return float(rng.randint(1, 9))
    if regime == "dyadic":
        return rng.randint(1, 64) / 8.0
    if regime == "frac":
        return f32(rng.uniform(0.01, 3.0))
    if regime == "zero":
        return float(rng.choice([0, 0, 1, 2, 5]))
    if regime == "large":
        return float(rng.randint(100000, 900000))
    if regime == "wide":
        return f32(10 ** rng.uniform(-2, 4))
    if regime == "tiny":
        return f32(rng.uniform(0.0005, 0.01))
    raise ValueError(regime)


def rnd_inst(rng, nr, nc, regime="int", dens=None, dup=0.1, empty=0.03, nested=0.0, singles=0.0):
    """feasible random instance; duplicates of columns (same or other cost), empty columns, nested columns"""
    cols, costs = [], []
    dens = dens or rng.choice([0.15, 0.3, 0.5])
    for j in range(nc):
        u = rng.random()
        if cols and u < dup:
            cols.append(list(rng.choice(cols)))
        elif u < dup + empty:
            cols.append([])
        elif cols and u < dup + empty + nested:
            b = rng.choice(cols)
            cols.append(sorted(rng.sample(b, rng.randint(0, len(b)))) if b else [])
        elif u < dup + empty + nested + singles:
            cols.append([rng.randrange(nr)])
        else:
            c = [i for i in range(nr) if rng.random() < dens]
            if not c:
                c = [rng.randrange(nr)]
            if rng.random() < 0.3:
                rng.shuffle(c)
            cols.append(c)
        costs.append(cost_of(rng, regime))
    cov = set()
    for c in cols:
        cov.update(c)
    miss = [i for i in range(nr) if i not in cov]
    for i in miss:
        j = rng.randrange(nc)
        if i not in cols[j]:
            cols[j] = cols[j] + [i]
    return Inst(nr, cols, costs)


def big_inst(rng, nr, nc, regime="int", per=None):
    """sparse larger instance"""
    per = per or max(2, nr // 12)
    cols, costs = [], []
    for j in range(nc):
        k = rng.randint(1, max(1, min(nr, 2 * per)))
        cols.append(rng.sample(range(nr), k))
        costs.append(cost_of(rng, regime))
    cov = set()
    for c in cols:
        cov.update(c)
    for i in range(nr):
        if i not in cov:
            cols[rng.randrange(nc)].append(i)
    return Inst(nr, [list(dict.fromkeys(c)) for c in cols], costs)


def steiner(k):
    """incidence of a Steiner-triple-like system: highly symmetric with a large integrality gap"""
    n = 2 ** k - 1
    tr = set()
    for a in range(1, n + 1):
        for b in range(a + 1, n + 1):
            c = a ^ b
            if c > b:
                tr.add((a - 1, b - 1, c - 1))
    rows = sorted(tr)
    cols = [[i for i, t in enumerate(rows) if j in t] for j in range(n)]
    return Inst(len(rows), cols, [1.0] * n)


def exact_scale(inst):
    """(scale, exact): scale of the integer encoding, exact when all costs are multiples of 1/scale and small"""
    for s in (1, 8, 64):
        if all(abs(c * s - round(c * s)) < 1e-12 for c in inst.costs) and sum(abs(c) for c in inst.costs) * s < 2 ** 22:
            while s < 4096 and sum(abs(c) for c in inst.costs) * s < 1e8:
                s *= 2
            return s, True
    tot = sum(abs(c) for c in inst.costs) + 1e-9
    s = 1.0
    while tot * s * 10 < 4e8 and s < 1e6:
        s *= 10
    while tot * s > 4e8:
        s /= 10
    return s, False


def greedy_ws(rng, inst):
    """a feasible, not too good cover, in random order"""
    left = set(range(inst.nr))
    sol = []
    order = list(range(inst.nc))
    rng.shuffle(order)
    for j in order:
        if left & set(inst.cols[j]):
            sol.append(j)
            left -= set(inst.cols[j])
    return sol


def f32sum(xs):
    s = 0.0
    for x in xs:
        s = f32(s + f32(x))
    return s


class Case:
    def __init__(self, inst, mode="run", env=None, expire=-1, ws=None, tag=""):
        self.inst, self.mode, self.env, self.expire, self.ws, self.tag = inst, mode, dict(env or {}), expire, ws, tag
        self.scale, self.exact = exact_scale(inst)
        self.id = 0

    def wcost(self):
        return f32sum(self.inst.costs[j] for j in self.ws)

    def text(self):
        t = ["case %d %s %.17g %d %d" % (self.id, self.mode, self.scale, self.expire, len(self.env))]
        for k, v in self.env.items():
            t.append("%s %.17g" % (k, v))
        t.append("%d %d" % (self.inst.nr, self.inst.nc))
        for c, col in zip(self.inst.costs, self.inst.cols):
            t.append("%.17g %d %s" % (c, len(col), " ".join(map(str, col))))
        if self.ws is None:
            t.append("-1")
        else:
            t.append("%d %.17g %s" % (len(self.ws), self.wcost(), " ".join(map(str, self.ws))))
        return "\n".join(t) + "\n"

    def stim(self):
        return {"mode": self.mode, "env": self.env, "expire": self.expire, "ws": self.ws, "scale": self.scale,
                "inst": {"nr": self.inst.nr, "cols": self.inst.cols, "costs": self.inst.costs}, "tag": self.tag}


KEEP = 20000  # events of one case


def run_cases(binary, cases, rec=False, timeout=240, shards=vf.NCPU, env=None, cut=None):
    """Runs the cases in the lab; returns per case the list of events (last one 'res'), or None when the
    process died or did not finish (then `why` of the case tells, and `cut` gets the events before that)."""
    cut = {} if cut is None else cut
    for i, c in enumerate(cases):
        c.id = i + 1
    out = [None] * len(cases)
    why = {}

    def shard(s):
        todo = cases[s::shards]
        n = fails = 0
        while todo:
            n += 1
            fin = vf.path("lab_%d_%d_%d.txt" % (id(cases), s, n))
            fout = fin + ".out"
            with open(fin, "w") as f:
                for c in todo:
                    f.write(c.text())
            rc, _, err = vf.run_harness([binary, fin, fout] + (["rec"] if rec else []), timeout=timeout, env=env)
            cur, evs, done = None, [], set()
            if os.path.exists(fout):
                for line in open(fout, errors="replace"):
                    try:
                        import json
                        e = json.loads(line)
                    except ValueError:
                        break
                    if e["e"] == "done":
                        break
                    if len(evs) < KEEP or e["e"] == "res":
                        evs.append(e)
                    if e["e"] == "res":
                        out[e["id"] - 1] = evs
                        done.add(e["id"])
                        evs = []
                os.unlink(fout)
            os.unlink(fin)
            rest = [c for c in todo if c.id not in done]
            if rest:
                cut[rest[0].id - 1] = evs
                why[rest[0].id - 1] = "did not terminate within %ds" % timeout if rc is None else "process ended with status %s: %s" % (rc, (err or "")[-300:])
                rest = rest[1:]
                fails += 1
                if rc is None or fails == 3:  # enough to decide; the next ones might take as long
                    for c in rest:
                        why[c.id - 1] = "not run"
                    rest = []
            todo = rest

    vf.pmap(shard, range(shards))
    return out, why


def tlc_instances(nr, maxcols, costs):
    vals, r = vf.generate("GenInst", consts={"NR": nr, "MaxCols": maxcols, "CostSet": "{%s}" % ",".join(map(str, costs))})
    return [Inst(v["nr"], v["cols"], [float(c) for c in v["costs"]]) for v in vals], r


ENVS = [{}, {"eps": 1e-6, "heur": 20}, {"eps": 0.0, "heur": 10}, {"heur": 1, "eps": 0.01}, {"beta": 1.2, "heur": 30},
        {"alpha": 1.5, "minfix": 0.1, "heur": 15}, {"alpha": 4.0, "heur": 5}, {"minfix": 0.9, "heur": 5, "eps": 1e-3},
        {"beta": 0.5, "alpha": 2.0, "heur": 5}, {"absx": 1e-4, "relx": 1e-5, "heur": 5}, {"heur": 0, "alpha": 2.0}]


def some_limit(rng, env, ex):
    """the limit the virtual clock is set for, from a fraction of a second to years; a limit of zero has expired"""
    if rng.random() < 0.5:
        env["vlim"] = rng.choice([0.0, 0.25, 0.5, 0.75, 1.0, 3.0, 59.5, 1e4, 1e6, 1e8]) if ex >= 0 else rng.choice([59.5, 1e4, 1e7])


def mixed_cases(rng, n, modes=("run", "run", "3p"), maxnr=9, maxnc=14, expire=0.25, ws=0.3, seeds=True):
    cs = []
    for i in range(n):
        reg = COSTS[i % len(COSTS)]
        nr = rng.randint(1, maxnr)
        nc = rng.randint(1, maxnc)
        inst = rnd_inst(rng, nr, nc, reg, dup=rng.choice([0, 0.1, 0.4]), nested=rng.choice([0, 0, 0.5]), singles=rng.choice([0, 0.3]))
        env = dict(rng.choice(ENVS))
        env.setdefault("alpha", rng.choice([1.1, 1.3, 2.0]))
        if seeds and rng.random() < 0.5:
            env["seed"] = rng.randrange(1 << 20)
        mode = rng.choice(modes)
        ex = -1
        if rng.random() < expire:
            ex = rng.choice([0, 1, 2, 3, 5, 8, 13, 21, 34, 60, 120, 300, 800])
            some_limit(rng, env, ex)
        w = None
        if mode == "run" and rng.random() < ws:
            w = greedy_ws(rng, inst)
        cs.append(Case(inst, mode, env, ex, w, reg))
    return cs
