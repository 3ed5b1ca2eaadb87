import core4
def main():
    return core4.main("C02", ["C02_Cost"], "as C01; reported cost against the sum of the selected columns, exactly for dyadic costs, else within float rounding")
