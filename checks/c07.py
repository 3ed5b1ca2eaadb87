import pipeline
def main():
    chk, rule = pipeline.main("C07", "refinement steps of recorded executions (real phases, and arbitrary lawful stand-ins of the 3-phase that make the incumbent "
                              "improve, stagnate and tie in every round) must be steps of Cft; the design is model checked", kinds=("real", "3p"), n=(300, 4000))
    return chk.finish(rule)
