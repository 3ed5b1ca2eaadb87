import vf, gen, suite, results


def main(pid, invs, rule, ws=0.3, expire=0.25, warm=0):
    chk = vf.Check(pid)
    rng = chk.rng
    cases = suite.lab_cases(chk, ws=ws, expire=expire)
    if warm:
        cases += suite.warm_cases(rng, warm * chk.n(1, 8))
    recs, own = [], []
    try:
        r, o = results.lab_records(chk, cases)
        recs += r
        own += o
    except vf.NotBuildable as e:
        chk.degraded.append("lab harness not buildable: " + str(e)[:300])
    r, o = results.cli_records(chk, suite.cli_jobs(rng, chk.n(60, 400), ws))
    recs += r
    own += o
    pc = [c for c in gen.mixed_cases(rng, chk.n(150, 1500), modes=("run",), expire=0, ws=0)
          if all(c.inst.cols) and max(max(x) for x in c.inst.cols) == c.inst.nr - 1]
    r, o = results.py_records(chk, pc)
    recs += r
    own += o
    if warm:
        r, o = results.py_growing(rng, chk.n(500, 5000))
        recs += r
        own += o
    for q in (0, len(recs) // 2, len(recs) - 1):
        chk.sample({"stimulus": own[q][1], "observed": own[q][2]})
    results.decide(chk, recs, own, invs)
    return chk.finish(rule)
