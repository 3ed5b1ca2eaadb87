import vf, comp

U64 = 2 ** 64


def word(rng, kind):
    w = 2 ** (64 if kind < 2 else 32)
    return rng.choice([0, 1, w - 1, rng.randrange(w), rng.randrange(w), 1 << rng.randrange(64 if kind < 2 else 32)])


def state_for(rng, kind, high):
    """a state whose next word has its highest bits all zero (high=0) or all one"""
    w = 64 if kind < 2 else 32
    m = 2 ** w
    if kind in (0, 2):
        out = rng.randrange(2 ** (w - 54)) if (high == 0 and w > 54) else (0 if high == 0 else m - 1 - (rng.randrange(2 ** (w - 54)) if w > 54 else 0))
        s0 = rng.randrange(m)
        return [s0, rng.randrange(1, m), rng.randrange(m), (out - s0) % m]
    # rotl(s0 + s3) + s0 : with s0 = 0 the sum is the rotation of the wanted word
    out = 0 if high == 0 else m - 1
    return [0, rng.randrange(1, m), rng.randrange(m), out]     # all zeros and all ones are their own rotations


RANGES = [(0, -2 ** 31, 2 ** 31 - 1), (0, -2 * 10 ** 9, 2 * 10 ** 9), (1, 0, 2 ** 32 - 1), (2, -2 ** 63, 2 ** 63 - 1), (3, 0, 2 ** 64 - 1), (4, -2 ** 15, 2 ** 15 - 1), (5, 0, 2 ** 16 - 1),
          (6, -128, 127), (7, 0, 255), (2, 0, 2 ** 32 - 1), (2, 0, 2 ** 32), (2, -2 ** 40, 2 ** 40)]
LIM = {0: (-2 ** 31, 2 ** 31 - 1), 1: (0, 2 ** 32 - 1), 2: (-2 ** 63, 2 ** 63 - 1), 3: (0, 2 ** 64 - 1), 4: (-2 ** 15, 2 ** 15 - 1), 5: (0, 2 ** 16 - 1), 6: (-128, 127), 7: (0, 255)}


def history(rng, n):
    ops, have = [], []
    for _ in range(n):
        u = rng.random()
        if not have or u < 0.06:
            s = rng.randrange(3)
            k = rng.randrange(4)
            ops.append("s %d %d %d" % (s, k, rng.choice([0, 1, 2, U64 - 1, 2 ** 32, rng.randrange(U64), rng.randrange(1000)])))
            have = sorted(set(have) | {s})
            continue
        s = rng.choice(have)
        if u < 0.12:
            k = rng.randrange(4)
            ops.append("f %d %d %s" % (s, k, " ".join(str(word(rng, k)) for _ in range(4))))
        elif u < 0.2:
            d = rng.randrange(3)
            ops.append("c %d %d" % (s, d))
            have = sorted(set(have) | {d})
        elif u < 0.5:
            ops.append("n %d" % s)
        elif u < 0.68:
            ops.append("k %d %d" % (s, rng.randrange(3)))
        elif u < 0.78:
            lo, hi = rng.choice([(0.0, 1.0), (0.9, 1.1), (-10.0, 20.0), (-3.0, -2.0), (0.0, 1e6), (-1e-3, 1e-3), (5.0, 9.0), (-0.5, 0.0)])
            ops.append("r %d %d %s %s" % (s, rng.randrange(3), lo, hi))
        elif u < 0.9:
            t = rng.randrange(8)
            lo, hi = LIM[t]
            a, b = rng.choice([(lo, lo), (hi, hi), (hi - 1, hi), (lo, lo + 5), (max(lo, -3), 3), (0, 0), tuple(sorted((rng.randint(lo, hi), rng.randint(lo, hi))))])
            if rng.random() < 0.15:
                t, a, b = rng.choice(RANGES)
            ops.append("d %d %d %d %d" % (s, t, a, b))
        elif u < 0.95:
            ops.append("b %d %d" % (s, rng.choice([0, 1000, 500, 3, rng.randrange(1001)])))
        else:
            k = rng.randrange(4)
            ops.append("f %d %d %s" % (s, k, " ".join(map(str, state_for(rng, k, rng.randrange(2))))))
            ops.append(rng.choice(["b %d %d" % (s, rng.choice([0, 1000])), "k %d %d" % (s, rng.randrange(3)), "r %d 1 -2 6" % s, "d %d 0 -5 5" % s]))
    return "%d %s" % (len(ops), " ".join(ops))


def main():
    chk = vf.Check("C23")
    rng = chk.rng
    b = comp.build(chk, "comp/prng.cpp")
    if b:
        cs = [history(rng, rng.randint(3, 40)) for _ in range(chk.n(700, 9000))]
        for k in range(4):      # longer runs of each generator
            for _ in range(chk.n(3, 30)):
                m = rng.randint(60, 150)
                cs.append("%d s 0 %d %d %s" % (m + 1, k, rng.randrange(U64), " ".join(["n 0"] * m)))
            # support of the dice and frequency of the coins
            for lo, hi in ((0, 1), (-2, 3), (5, 5), (0, 9)):
                cs.append("2 s 0 %d %d D 0 %d %d 120" % (k, rng.randrange(U64), lo, hi))
            for p in (0, 1, 10, 100, 250, 500, 700, 990, 1000):
                for _ in range(chk.n(2, 20)):
                    cs.append("2 s 0 %d %d B 0 %d 4000" % (k, rng.randrange(U64), p))
        out, why = comp.run(b, cs)
        part = "histories of draws"
        if not comp.failed(chk, part, why, cs):
            ok = [i for i in range(len(cs)) if out[i]]
            comp.traces(chk, part, "PrngTrace", [out[i] for i in ok], [cs[i] for i in ok])
    return chk.finish("histories of seedings, copies, forced states and draws of the four generators, each output computed by Prng.tla; extreme states for the draws",
                      ["the frequency of coin flips is judged within six standard deviations over 4000 flips of fixed seeds"])
