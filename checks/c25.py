import vf, pipeline, subg


def main():
    chk = vf.Check("C25")
    subg.check(chk, ["C25"], chk.n(300, 3000), chk.n(24, 250))
    pipeline.check(chk, ["C25"], pipeline.cases(chk.rng, chk.n(150, 1500)), "recorded runs")
    return chk.finish("the bounding and heuristic phases called directly on small and middle instances, bounding interrupted at chosen moments included; the same phases inside recorded complete runs",
                      ["integer costs make the Lagrangian bound of each pricing exactly comparable where the numbers are small enough"])
