import core4
def main():
    return core4.main("C04", ["C04_Warm"], "as C01 with warm starts of every quality, also redundant, optimal, permuted and with expired timers", ws=0.8, warm=2000)
