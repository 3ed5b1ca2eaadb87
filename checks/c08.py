import pipeline
def main():
    chk, rule = pipeline.main("C08", "3-phase steps of recorded executions (real phases, and arbitrary lawful stand-ins of bounding, heuristic and column fixing) "
                              "must be steps of Cft; the design is model checked", kinds=("real", "parts"), n=(300, 4000))
    return chk.finish(rule)
