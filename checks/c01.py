import core4
def main():
    return core4.main("C01", ["C01_Cover"], "TLC-enumerated and seeded random instances (8 cost regimes, warm starts, expiry at each kind of clock reading) "
                      "through run, ThreePhase, accft and Python; every result must satisfy Results!C01_Cover")
