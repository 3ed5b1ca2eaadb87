import core4
def main():
    return core4.main("C03", ["C03_Bound", "C03_Mults"], "as C01; bound against the optimum computed by the specification on small instances and against the best known cover on large ones")
