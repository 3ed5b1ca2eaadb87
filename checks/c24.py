import vf, comp, subg


def steps(rng, n):
    cs = []
    for _ in range(n):
        p = rng.choice([1, 2, 3, 5, 20, 20])
        m = rng.randint(1, 60) if p < 20 else rng.randint(20, 130)
        base = rng.choice([100, 1000, 5000, 100000]) * rng.choice([1, 1, 1, -1])
        lbs, spread = [], 0
        for i in range(m):
            if i % p == 1 or i == 0 or p == 1:
                spread = rng.choice([0, 1, abs(base) // 1000, abs(base) // 1000 + 1, abs(base) // 500, abs(base) // 100, abs(base) // 100 + 1, abs(base) // 20, abs(base)])
            v = base + rng.choice([0, -spread, spread, rng.randint(-spread, spread)])
            lbs.append(v or 1)
        cs.append("0 %d %.9g %d %s" % (p, rng.choice([0.1, 1.0, 10.0, 1e-6, 2e-6, 7.5, 0.3]), m, " ".join(map(str, lbs))))
    # long steady runs reach both limits
    for s in (0, 1):
        lbs = [100000 + (0 if s else (i % 2) * 30000) for i in range(700)]
        cs.append("0 20 0.1 700 " + " ".join(map(str, lbs)))
    return cs


def exits(rng, n):
    cs = []
    for _ in range(n):
        p = rng.choice([1, 2, 4, 7, 300])
        m = rng.randint(2 * p, 5 * p + 3) if p > 10 else rng.randint(1, 30)
        a = rng.choice([1, 1, 2, 5, 50])
        r = rng.choice([1, 1 << 8, 1 << 10, 1 << 15, 1 << 19, 1 << 17])
        lb, lbs = rng.randint(1, 400), []
        for i in range(m):
            lb = max(1, lb + rng.choice([0, 0, 0, 1, a, a - 1, -1, rng.randint(0, 20), -rng.randint(0, 50)]) if p < 10 or rng.random() < 0.02 else lb)
            lbs.append(min(lb, 1500))
        cs.append("1 %d %d %d %d %s" % (p, a, r, m, " ".join(map(str, lbs))))
    return cs


def prices(rng, n):
    cs = []
    for _ in range(n):
        p, mx = rng.choice([10, 10, 10, 1, 3]), rng.choice([1000, 333, 100, 50, 12, 10, 7, 3, 1])
        m = rng.randint(1, 9)
        xs = []
        for _ in range(m):
            u = rng.choice([100, 500, 1000, 10000])
            d = rng.choice([0, -1, -u, 1, u // 50, u // 50 - 1, u // 50 + 1, u // 5, u // 5 + 1, u // 5 - 1, u // 2, u])
            r = rng.randint(-u, u)
            xs.append("%d %d %d" % (r + d, r, u))
        cs.append("2 %d %d %d %s" % (p, mx, m, " ".join(xs)))
    return cs


def main():
    chk = vf.Check("C24")
    b = comp.build(chk, "comp/stepctl.cpp")
    if b:
        for part, cs in (("step sizes", steps(chk.rng, chk.n(1200, 15000))), ("exit conditions", exits(chk.rng, chk.n(1200, 12000))), ("pricing times", prices(chk.rng, chk.n(2500, 30000)))):
            out, why = comp.run(b, cs)
            if not comp.failed(chk, part, why, cs):
                ok = [i for i in range(len(cs)) if out[i]]
                last = [max([e["it"] + 1 for e in out[i] if e["e"] == "price"] or [0]) for i in ok]
                comp.traces(chk, part, "StepCtlTrace", [out[i] for i in ok], [cs[i] for i in ok], invariants=["InRange"], meta=[{"last": x} for x in last])
    subg.check(chk, ["C24"], chk.n(250, 3000), chk.n(40, 400))
    return chk.finish("sequences of bounds fed to the managers, at and around every threshold, against StepCtl.tla; the managers inside recorded bounding phases",
                      ["bounds of zero are left out: the relative spread and improvement are then undefined"])
