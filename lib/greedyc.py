"""Stimuli for the greedy procedure and its redundancy removal (C11, C12)."""
import vf, gen


def call(rng, inst, u, inp, cut, mx, reset, w=None):
    t = ["%d %d %d" % (reset + (2 if w else 0), inst.nr, inst.nc)]
    if w:
        t.append(" ".join(map(str, w)))
    t += ["%.17g %d %s" % (c, len(col), " ".join(map(str, col))) for c, col in zip(inst.costs, inst.cols)]
    t += [" ".join("%.17g" % x for x in u), "%d %s" % (len(inp), " ".join(map(str, inp))), "%.17g %d" % (cut, mx)]
    return " ".join(t)


def mult(rng, inst, unit):
    hi = rng.choice([0, 1, 2, 4, 9])
    z = rng.choice([0, 0, 0.5])
    return [0 if rng.random() < z else round(rng.uniform(0, hi) * unit) / unit for _ in range(inst.nr)]


def sub_sol(rng, inst):
    k = rng.choice([0, 0, 1, 1, 2, 3])
    return rng.sample(range(inst.nc), min(k, inst.nc))


def cutoff(rng, inst):
    tot = sum(inst.costs)
    u = rng.random()
    if u < 0.45:
        return -1
    if u < 0.5:
        return 0.0
    return round(rng.uniform(0, tot * rng.choice([0.3, 0.7, 1.0])) * 8) / 8


def small_calls(rng, n):
    """one case of a few calls, exact numbers; ties wanted"""
    cs = []
    for _ in range(n):
        calls = []
        for q in range(rng.randint(1, 3)):
            reg = rng.choice(["unit", "int", "dyadic", "zero", "zero", "int"])
            if rng.random() < 0.6:
                inst = gen.rnd_inst(rng, rng.randint(1, 6), rng.randint(1, 9), reg, dup=rng.choice([0, 0.3]), nested=rng.choice([0, 0.4]), empty=rng.choice([0, 0.1]), singles=rng.choice([0, 0.4]))
            else:
                inst = gen.rnd_inst(rng, rng.randint(6, 14), rng.randint(6, 22), "dyadic", dens=rng.choice([0.12, 0.2, 0.35]), nested=rng.choice([0, 0.3]), singles=rng.choice([0, 0.3]))
            inp = sub_sol(rng, inst)
            mx = -1 if rng.random() < 0.7 else len(inp) + rng.choice([0, 1, 1, 2, 3])
            calls.append(call(rng, inst, mult(rng, inst, 8), inp, cutoff(rng, inst), mx, rng.random() < 0.1))
        cs.append("64 %d %s" % (len(calls), " ".join(calls)))
    return cs


def forced_calls(rng, n, many):
    """the selection is forced to be all columns: every column but the last is given, and the last one is
    the only one covering the last row.  many: more than ten redundant columns"""
    cs = []
    for _ in range(n):
        calls = []
        for q in range(rng.randint(1, 2)):
            nr = rng.randint(2, 8)
            nc = rng.randint(12, 17) if many else rng.randint(2, 11)
            reg = rng.choice(["int", "dyadic", "zero", "unit", "dyadic"])
            if many and nc > 12:      # few ties: every order of dropping tied columns is explored
                reg = "dyadic"
            inst = gen.rnd_inst(rng, nr, nc, reg, dens=rng.choice([0.2, 0.35, 0.5]), dup=rng.choice([0, 0.3]), nested=rng.choice([0, 0.4]), empty=rng.choice([0, 0.05]))
            cols = [list(c) for c in inst.cols] + [[nr] + ([rng.randrange(nr)] if rng.random() < 0.4 else [])]
            if rng.random() < 0.3:   # rows covered exactly once or twice
                cols.append([])
                cols[-1], cols[-2] = cols[-2], rng.sample(range(nr), min(nr, 2))
                costs = inst.costs + [gen.cost_of(rng, reg), gen.cost_of(rng, reg)]
            else:
                costs = inst.costs + [gen.cost_of(rng, reg)]
            big = gen.Inst(nr + 1, cols, costs)
            inp = list(range(len(cols) - 1))
            rng.shuffle(inp)
            calls.append(call(rng, big, mult(rng, big, 8), inp, cutoff(rng, big), -1, rng.random() < 0.1))
        cs.append("64 %d %s" % (len(calls), " ".join(calls)))
    return cs


def float_calls(rng, n):
    cs = []
    for _ in range(n):
        reg = rng.choice(["frac", "wide", "large", "tiny", "int"])
        inst = gen.rnd_inst(rng, rng.randint(5, 40), rng.randint(5, 80), reg, dens=rng.choice([0.08, 0.15, 0.3]), empty=0.02)
        sc = gen.exact_scale(inst)[0]
        u = [rng.uniform(0, max(inst.costs)) * rng.choice([0, 0.3, 1]) for _ in range(inst.nr)]
        tot = sum(inst.costs)
        inp = sub_sol(rng, inst)
        calls = [call(rng, inst, u, inp, rng.choice([-1, -1, tot * 0.2, tot * 0.5]), -1 if rng.random() < 0.8 else len(inp) + rng.randint(1, 4), False)]
        cs.append("%.17g 1 %s" % (sc, calls[0]))
    return cs


def block_calls(rng, n, total):
    """columns of very many rows, made of blocks of identical rows; at most `total` rows. Multipliers are zero
    on blocks of more than four rows, so that every score is exact"""
    cs = []
    for _ in range(n):
        inst = gen.rnd_inst(rng, rng.randint(3, 9), rng.randint(4, 12), "int", dens=rng.choice([0.2, 0.35, 0.5]), dup=rng.choice([0, 0.3]), nested=rng.choice([0, 0.5]))
        inst.costs = [float(rng.choice([0, 1, 1, 2, 3, 5, 8])) for _ in inst.costs]
        top = rng.choice([300, 5000, total])
        left = min(total, top)
        w = []
        for i in range(inst.nr):
            x = rng.choice([rng.randint(1, 4), rng.randint(1, 4), 127, 255, 257, rng.randint(5, top), rng.randint(top // 4, top // 2)])
            x = max(1, min(x, left - (inst.nr - i)))
            w.append(x)
            left -= x
        if rng.random() < 0.6:          # all the rows that are left in one block
            w[rng.randrange(inst.nr)] += left
        rng.shuffle(w)
        u = [rng.choice([0, 0, 1, 2]) if x <= 4 else 0 for x in w]
        inp = sub_sol(rng, inst)
        cs.append("1 1 " + call(rng, inst, u, inp, rng.choice([-1, -1, float(rng.randint(1, 20))]), -1 if rng.random() < 0.7 else len(inp) + rng.randint(1, 3), True, w))
    return cs
