import os, struct
import vf, comp, filesc, gen


def bits_f(rng, dbl):
    w = 64 if dbl else 32
    m = 52 if dbl else 23
    emax = (1 << (w - 1 - m)) - 1
    u = rng.random()
    if u < 0.3:
        v = rng.choice([0.0, 1.0, rng.randint(0, 10 ** 6), rng.randint(0, 2 ** 24), rng.randint(0, 10 ** 9), rng.randint(1, 10 ** 5) / 8, rng.uniform(0, 1000), 0.1, 1 / 3, 1e10, 123456789.0, 1e-5, 16777216.0, 9999999.0, 1e16, 1e15 + 0.3])
        return (struct.pack(">d", v) if dbl else struct.pack(">f", v)).hex()
    while True:
        e = rng.choice([0, 1, emax - 1, emax // 2, rng.randint(0, emax - 1), rng.randint(emax // 2 - 30, emax // 2 + 40), rng.randint(emax // 2, emax // 2 + 30)])
        f = rng.choice([0, 1, (1 << m) - 1, (1 << m) - 2, rng.randrange(1 << m), rng.randrange(1 << m), rng.randrange(1 << m)])
        s = 1 if rng.random() < 0.1 else 0
        if dbl and not (emax // 2 - 120 < e < emax // 2 + 120):
            continue
        return "%0*x" % (w // 4, (s << (w - 1)) | (e << m) | f)


def idxs(rng, lo, hi, n):
    out = []
    for _ in range(n):
        out.append(rng.choice([lo if rng.random() < 0.1 else 0, hi, hi - 1, 1, 9, 10, rng.randint(0, min(hi, 99)), rng.randint(0, hi), rng.randint(0, min(hi, 10 ** 6))]))
    return out


def fval(h):
    return struct.unpack(">d" if len(h) == 16 else ">f", bytes.fromhex(h))[0]


def run(chk, part, src_flags, dbl, lo, hi, n, nbig):
    rng = chk.rng
    b = comp.build(chk, "comp/solfile.cpp", name="solfile", flags=src_flags)
    if not b:
        return
    d = vf.path("sol_%s/x" % part.replace(" ", "_"))[:-2]
    os.makedirs(d + "/dir", exist_ok=True)
    cs, fits, bits = [], [], []
    for k in range(n):
        h = bits_f(rng, dbl)
        xs = idxs(rng, lo, hi, rng.choice([0, 1, 2, 3, 5, 8, 30]))
        u = rng.random()
        text_len = sum(len(str(x)) + 1 for x in xs)
        if u < 0.75:
            p, lim, ok = "%s/f%d" % (d, k), -1, True
            if rng.random() < 0.2:              # an older, longer file is replaced
                open(p, "w").write("9 " * 400)
        elif u < 0.85:
            p, lim, ok = rng.choice([d + "/nodir/f", d + "/dir", "/dev/full", "/proc/nothing/f"]), -1, False
        elif xs:
            p, ok = "%s/f%d" % (d, k), False
            lim = rng.randint(0, text_len)      # the cost takes at least one byte more
        else:
            p, lim, ok = "%s/f%d" % (d, k), 400, True
        cs.append("%s %d %s %d %s" % (p, lim, h, len(xs), " ".join(map(str, xs))))
        fits.append(ok)
        bits.append(h)
    for k in range(nbig):                       # longer than any buffer
        h = bits_f(rng, dbl)
        xs = idxs(rng, 0, hi, rng.choice([700, 1000, 2500]))
        size = sum(len(str(x)) + 1 for x in xs)
        ok = k % 3 > 0
        lim = -1 if k % 3 == 1 else size + 100 if ok else rng.choice([0, 1, 511, size // 2, size - 1, size])
        p = "%s/g%d" % (d, k) if ok or k % 2 else "/dev/full"
        cs.append("%s %d %s %d %s" % (p, lim, h, len(xs), " ".join(map(str, xs))))
        fits.append(ok)
        bits.append(h)
    out, why = comp.run(b, cs)
    if comp.failed(chk, part, why, cs):
        return
    recs, own = [], []
    for i, o in enumerate(out):
        if not o:
            continue
        e = o[0]
        lo_, hi_, f = filesc.neighbours(fval(bits[i]), e["mant"])
        I = lambda s: [{"neg": w[0] == "-", "d": filesc.digits(w)} for w in s.split()]
        recs.append({"wrote": e["wrote"], "read": e["read"], "fits": fits[i], "idxs": I(e["idxs"]), "idxs2": I(e["idxs2"]) if e["wrote"] and e["read"] else [],
                     "bits": e["bits"], "bits2": e["bits2"], "txt": e["txt"], "cost": {"lo": lo_, "hi": hi_, "f": f, "neg": fval(bits[i]) < 0},
                     "rlo": [0], "rhi": [0], "clo": filesc.digits(e["clo"]), "chi": filesc.digits(e["chi"]),
                     "rmax": [int(c) for c in str(int(float.fromhex(e["rmax"])) + 2 ** ((127 if e["mant"] == 24 else 1023) - e["mant"]))]})
        own.append({"case": cs[i][:300], "event": {k: e[k] for k in ("wrote", "read", "bits", "bits2")}})
    comp.records(chk, part, "SolFileRes", recs, own, ["RoundTrip", "Meaning", "Reported"],
                 consts={"RLo": "<- cRLo", "RHi": "<- cRHi", "CLo": "<- cCLo", "CHi": "<- cCHi", "RealMax": "<- cRealMax"})


def main():
    chk = vf.Check("C17")
    run(chk, "default types", [], False, 0, 2 ** 31 - 1, chk.n(1500, 20000), chk.n(24, 200))
    run(chk, "double, 64 bit", ["-DCFT_REAL_TYPE=double", "-DCFT_CIDX_TYPE=int64_t"], True, 0, 2 ** 63 - 1, chk.n(500, 6000), chk.n(8, 60))
    run(chk, "unsigned 8 bit", ["-DCFT_CIDX_TYPE=uint8_t"], False, 0, 255, chk.n(400, 4000), chk.n(6, 60))
    run(chk, "signed 8 bit", ["-DCFT_CIDX_TYPE=int8_t"], False, 0, 127, chk.n(400, 4000), chk.n(6, 60))
    return chk.finish("costs of every class of bit patterns, indexes over the whole range, files of limited size, unwritable paths; the text is also given its meaning by FileFormats.tla",
                      ["infinite and undefined costs are no solutions"])
