import itertools
import vf, comp


def short(rng):
    """every history of up to five offers of three keys, with and without a clear in between"""
    cs = []
    for N in (1, 2, 3):
        for n in range(1, 7):
            for ks in itertools.product(range(3), repeat=n):
                ops = ["0 %d %d" % (k, i) for i, k in enumerate(ks)]
                cs.append("0 %d %d %d %s" % (N, rng.randrange(4), len(ops), " ".join(ops)))
    return cs


def longer(rng, n):
    cs = []
    for _ in range(n):
        N, kind = rng.choice([1, 2, 3, 5, 8]), rng.randrange(4)
        ops, idn = [], 0
        hi = rng.choice([2, 6, 31])
        for _ in range(rng.randint(1, 40)):
            u = rng.random()
            idn += 1
            ops.append("1" if u < 0.06 else "%d %d %d" % (2 if u < 0.2 else 0, rng.randint(-hi, hi), idn))
        cs.append("0 %d %d %d %s" % (N, kind, len(ops), " ".join(ops)))
    return cs


def algos(rng, n):
    cs = []
    for _ in range(n):
        w = rng.choice([1, 2, 3, 4, 5])
        if w == 5:
            k = rng.randint(4, 8)
            cs.append("5 %d %s" % (k, " ".join(str(rng.randint(-9, 9) * rng.choice([1, 1, 1000])) for _ in range(k))))
            continue
        m = rng.randint(0 if w in (1, 4) else 1, rng.choice([3, 8, 30, 60]))
        hi = rng.choice([1, 4, 31])
        els = " ".join("%d %d" % (rng.randint(-hi, hi), i) for i in range(m))
        x = ""
        if w == 2:
            x = str(rng.choice([0, m - 1, rng.randrange(m)]))
        if w == 4:
            a = rng.choice([1, 2, 3, 7])
            x = "%d %d" % (a, rng.randrange(a + 1))
        cs.append("%d %d %d %s %s" % (w, rng.randrange(4), m, els, x))
    return cs


def main():
    chk = vf.Check("C14")
    r = vf.tlc("SelectMC", consts={"Keys": "{0,1,2}", "Caps": "{1,2,3}", "MaxOps": chk.n(5, 7)}, spec="MCSpec", invariants=["Smallest"], deadlock=False)
    if not r.ok:
        raise vf.MachineryError("SelectMC: %s %s" % (r.kind, r.out[-1500:]))
    chk.model("design model SelectMC", r)
    b = comp.build(chk, "comp/select.cpp")
    if b:
        for part, cs in (("all short histories", short(chk.rng)), ("long histories", longer(chk.rng, chk.n(2500, 30000))), ("helpers", algos(chk.rng, chk.n(3000, 30000)))):
            out, why = comp.run(b, cs)
            if not comp.failed(chk, part, why, cs):
                ok = [i for i in range(len(cs)) if out[i]]
                comp.traces(chk, part, "SelectTrace", [out[i] for i in ok], [cs[i] for i in ok])
    return chk.finish("histories of offers to the bounded array (all short ones over three keys, random long ones) and calls of the helpers against Select.tla")
