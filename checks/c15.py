import vf, filesc, gen


def main():
    chk = vf.Check("C15")
    rng = chk.rng
    fs = []
    for i in range(chk.n(1600, 16000)):
        fs.append(filesc.good(rng, ["RAIL", "SCP", "CVRP", "MPS"][i % 4])[0])
    filesc.run(chk, "well formed", fs, ["WellFormedRead", "NeverMisread"])
    fs = []
    for i in range(chk.n(24, 200)):
        fmt = ["RAIL", "SCP", "CVRP", "MPS"][i % 4]
        fs.append(filesc.good(rng, fmt, gen.big_inst(rng, rng.randint(20, 60), rng.randint(40, 120), rng.choice(["int", "frac", "unit"])))[0])
    filesc.run(chk, "larger", fs, ["WellFormedRead", "NeverMisread"])
    xs, r = gen.tlc_instances(2, 3, [1, 2])
    chk.model("TLC-enumerated instances", r)
    fs = [filesc.good(rng, fmt, x)[0] for x in xs for fmt in ("RAIL", "SCP", "CVRP", "MPS")]
    filesc.run(chk, "enumerated", fs, ["WellFormedRead", "NeverMisread"])
    return chk.finish("random and enumerated instances written in all four formats, in every layout these leave free; meaning of the text computed by FileFormats.tla")
