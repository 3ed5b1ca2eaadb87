import os
import vf, gen, formats, results, agree, suite, comp, greedyc

MAX = {"int8_t": 127, "uint8_t": 255, "int16_t": 32767, "uint16_t": 65535}
#        rows        columns
TYPES = [("int8_t", "int8_t"), ("uint8_t", "uint8_t"), ("int8_t", "int32_t"), ("int32_t", "int8_t"), ("uint16_t", "uint8_t"), ("uint8_t", "int16_t"), ("uint16_t", "uint16_t"),
         ("int64_t", "int64_t"), ("uint64_t", "uint64_t"), ("uint32_t", "uint32_t"), ("int64_t", "uint16_t"), ("uint8_t", "uint64_t")]
# shapes at the limits of the narrow types, and where products with row counts would leave them
SHAPES = [(20, 60), (25, 100), (26, 120), (51, 127), (127, 127), (126, 126), (128, 127), (127, 50), (60, 127), (200, 127), (250, 100), (256, 120), (400, 127), (1000, 120), (255, 255), (254, 255), (51, 255),
          (256, 255), (600, 250), (1300, 255), (127, 800), (255, 1500), (2, 127), (1, 127), (5, 255), (30, 3000)]


def flags(r, c, x="float"):
    return ["-DCFT_RIDX_TYPE=" + r, "-DCFT_CIDX_TYPE=" + c, "-DCFT_REAL_TYPE=" + x]


def fits(inst, r, c):
    return inst.nr <= MAX.get(r, 1 << 30) and inst.nc <= MAX.get(c, 1 << 30)


def cases(chk):
    rng = chk.rng
    cs = gen.mixed_cases(rng, chk.n(500, 6000), expire=0, ws=0.2)
    for nr, nc in SHAPES * chk.n(1, 8):
        inst = gen.big_inst(rng, nr, nc, rng.choice(["unit", "frac", "int", "large"]), per=min(nr, rng.choice([1, 4, 8, 12, 30])))
        if rng.random() < 0.3:                       # long columns and rows
            full = list(range(nr))
            for j in rng.sample(range(nc), min(nc, 3)):
                inst.cols[j] = full[:]
                inst.costs[j] = max(inst.costs) * nr / 6
        w = None
        if rng.random() < 0.3:
            w = gen.greedy_ws(rng, inst)
        cs.append(gen.Case(inst, "3p" if rng.random() < 0.2 and w is None else "run", {"heur": 3, "alpha": 1.5, "eps": rng.choice([1e-6, 0.999]), "seed": rng.randrange(999)}, -1, w, "limits"))
    return cs


def build(chk, src, name, fl, **kw):
    try:
        return vf.build(src, name=name, flags=fl, **kw)
    except vf.NotBuildable as e:
        chk.degraded.append("%s not buildable: %s" % (name, str(e)[:300]))
        return None


def indexes(chk, cs):
    base = build(chk, "lab.cpp", "lab", [])
    bins = vf.pmap(lambda t: build(chk, "lab.cpp", "lab_%s_%s" % t, flags(*t)), TYPES)
    if base is None:
        return
    out0, why0 = gen.run_cases(base, cs)
    groups = [[agree.lab_result(o)] for o in out0]
    used = {}
    for t, b in zip(TYPES, bins):
        if b is None:
            continue
        idx = [i for i, c in enumerate(cs) if fits(c.inst, *t) and why0.get(i) is None]
        outs, why = gen.run_cases(b, [cs[i] for i in idx])
        used["%s/%s" % t] = len(idx)
        for k, i in enumerate(idx):
            if why.get(k) != "not run":
                r = agree.lab_result(outs[k])
                if outs[k] is None:
                    r["why"] = why.get(k)
                groups[i].append(r)
    agree.decide(chk, "index types", groups, [dict(c.stim(), types=["default"] + ["/".join(t) for t in TYPES if fits(c.inst, *t)]) if c.inst.nr * c.inst.nc < 4000 else {"nr": c.inst.nr, "nc": c.inst.nc, "env": c.env} for c in cs])
    chk.parts["index types"]["instances per type"] = used


def program(chk):
    """the program itself, files read and written with other types"""
    rng = chk.rng
    exe0 = vf.build_cli()
    ts = [t for k, t in enumerate(TYPES) if k in (0, 1, 3, 6, 8)]
    exes = vf.pmap(lambda t: build(chk, os.path.join(vf.REPO, "src/main.cpp"), "accft_%s_%s" % t, flags(*t), std="c++11"), ts)
    jobs = []
    for k in range(chk.n(60, 600)):
        fmt = ("RAIL", "SCP", "CVRP", "MPS")[k % 4]
        nr, nc = rng.choice([(5, 9), (8, 14), (127, 127), (100, 120), (200, 127), (255, 255), (40, 250), (20, 60)]) if k % 3 == 0 else (rng.randint(1, 9), rng.randint(1, 14))
        inst = gen.big_inst(rng, nr, nc, "int", per=min(nr, 5)) if nr > 12 else gen.rnd_inst(rng, nr, nc, rng.choice(["int", "frac", "dyadic"]), empty=0)
        s = gen.greedy_ws(rng, inst)
        txt = {"RAIL": formats.rail, "SCP": formats.scp, "MPS": formats.mps, "CVRP": lambda i: formats.cvrp(i, s)}[fmt](inst)
        p = vf.path("types/%d/i.txt" % k)
        open(p, "w").write(txt)
        w = None
        if rng.random() < 0.4:
            w = p + ".w"
            open(w, "w").write(" ".join([formats.num(gen.f32sum(inst.costs[j] for j in s))] + [str(j) for j in s]))
        jobs.append((inst, fmt, p, w))

    def one(kj):
        inst, fmt, p, w = kj[1]
        g = []
        for q, (t, e) in enumerate(zip([("int", "int")] + ts, [exe0] + exes)):
            if e is None or not fits(inst, *t):
                continue
            o = "%s.%d.sol" % (p, q)
            rc, so, se = vf.run_harness([e, "-i", p, "-o", o, "-p", fmt, "-v", "0", "-g", "5", "-e", "0.01"] + (["-w", w] if w else []), timeout=100, cwd=os.path.dirname(p))
            g.append({"rc": rc, "file": open(o).read() if os.path.exists(o) else "none"})
        return g
    groups = vf.pmap(one, list(enumerate(jobs)))
    agree.decide(chk, "accft with other index types", groups, [{"nr": i.nr, "nc": i.nc, "parser": f, "file": open(p).read()[:2000]} for i, f, p, w in jobs])


def reals(chk, cs):
    """double precision: what is returned must still be right"""
    for x in ("double", "long double"):
        b = build(chk, "lab.cpp", "lab_" + x.replace(" ", ""), ["-DCFT_REAL_TYPE=" + x])
        if b:
            recs, own = results.lab_records(chk, cs, binary=b, part=x)
            results.decide(chk, recs, own, ["C01_Cover", "C02_Cost", "C03_Bound", "C03_Mults", "C04_Warm"])


def many_rows(chk):
    """more rows than the default type holds: greedy calls on blocks of identical rows against Greedy.tla"""
    for t, total in (("uint16_t", 65535), ("int32_t", 200000), ("uint64_t", 140000)):
        b = comp.build(chk, "comp/greedy.cpp", name="greedy_" + t, flags=flags(t, "int32_t"))
        if b is None:
            continue
        cs = greedyc.block_calls(chk.rng, chk.n(60, 900), total)
        out, why = comp.run(b, cs)
        part = "many rows, " + t
        if not comp.failed(chk, part, why, cs):
            ok = [i for i in range(len(cs)) if out[i]]
            comp.traces(chk, part, "GreedyTrace", [out[i] for i in ok], [cs[i] for i in ok])
            chk.parts[part]["rows"] = max(sum(e["w"]) for o in out if o for e in o)


def main():
    chk = vf.Check("C22")
    cs = cases(chk)
    indexes(chk, cs)
    many_rows(chk)
    program(chk)
    reals(chk, [c for c in cs if c.inst.nr * c.inst.nc < 60000])
    return chk.finish("the same cases with the default types and twelve other pairs of index types, sizes at the limits of the narrow ones included (Agree.tla); results with double and long double against Results.tla",
                      ["an index type is wide enough when it holds the number of rows (columns)"])
