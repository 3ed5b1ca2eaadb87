import vf, comp


def rnd(rng, n):
    cs = []
    for _ in range(n):
        m = rng.choice([1, 2, 5, 9, 40])
        n0 = m
        cnt = [0] * m
        ops = []
        for _ in range(rng.randint(3, 40)):
            op = rng.choice([0, 0, 0, 1, 1, 2, 3, 3] + ([4] if rng.random() < 0.1 else []))
            if op == 4:
                m = rng.choice([m, max(1, m - 3), m + 4, 1])
                cnt = [0] * m
                ops.append("4 %d" % m)
                continue
            k = rng.randint(0, min(m, rng.choice([1, 3, m])))
            dom = [i for i in range(m) if cnt[i] > 0] if op == 1 or (op == 3 and rng.random() < 0.6) else list(range(m))
            if op in (2, 3) and rng.random() < 0.5:
                dom = [i for i in range(m) if cnt[i] > (1 if op == 3 else 0)] or dom
            s = rng.sample(dom, min(k, len(dom)))
            for i in s:
                cnt[i] += {0: 1, 1: -1}.get(op, 0)
            ops.append("%d %d %d %s" % (op, rng.randrange(4), len(s), " ".join(map(str, s))))
        cs.append("%d %d %s" % (n0, len(ops), " ".join(ops)))
    return cs


def many(rng, n):
    """counts beyond what narrow counters hold"""
    cs = []
    for _ in range(n):
        m = rng.choice([1, 3, 6])
        cnt = [0] * m
        ops = []
        for _ in range(rng.randint(2, 8)):
            op = rng.choice([5, 5, 6, 0, 1, 2, 3])
            k = rng.choice([2, 127, 128, 254, 255, 256, 257, 32767, 32768, 65535, 65536, 70000])
            dom = [i for i in range(m) if cnt[i] > 0] if op in (1, 6) else list(range(m))
            s = rng.sample(dom, rng.randint(min(1, len(dom)), len(dom)))
            if op == 6:
                if not s:
                    continue
                k = min(cnt[i] for i in s) - rng.choice([0, 0, 1, 2, 255, 256])
                if k < 1:
                    continue
            for i in s:
                cnt[i] += {0: 1, 1: -1, 5: k, 6: -k}.get(op, 0)
            ops.append("%d %d %s%d %s" % (op, rng.choice([0, 1, 3]), "%d " % k if op >= 5 else "", len(s), " ".join(map(str, s))))
        cs.append("%d %d %s" % (m, len(ops), " ".join(ops)))
    return cs


def main():
    chk = vf.Check("C13")
    L, N = chk.n(4, 5), 2
    vals, r = vf.generate("CoverGen", consts={"N": N, "MaxLen": L}, spec="GSpec", invariants=["Counts", "Emit"], timeout=600)
    chk.model("histories enumerated by CoverGen", r)
    gen = []
    for q, h in enumerate(vals):
        gen.append("%d %d %s" % (N, len(h), " ".join("4 %d" % N if o["op"] == 4 else "%d %d %d %s" % (o["op"], q % 4, len(o["s"]), " ".join(map(str, o["s"]))) for o in h)))
    b = comp.build(chk, "comp/cover.cpp")
    if b:
        for part, cs in (("all short histories", gen), ("long histories", rnd(chk.rng, chk.n(3000, 30000))),
                         ("large counts", many(chk.rng, chk.n(400, 4000)))):
            out, why = comp.run(b, cs)
            if not comp.failed(chk, part, why, cs):
                ok = [i for i in range(len(cs)) if out[i]]
                comp.traces(chk, part, "CoverTrace", [out[i] for i in ok], [cs[i] for i in ok])
    return chk.finish("all histories of up to %d operations on %d elements (enumerated by TLC) and random longer ones, and counts up to several hundred thousand, replayed against CoverCounters.tla" % (L, N))
