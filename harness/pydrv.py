# Runs sessions of the Python solver: argv[1] JSON list of sessions (lists of operations), argv[2] output.
import json, os, sys
from pycft import SetCoverSolver

def state(s):
    m = s.get_dual_multipliers()
    sol = s.get_solution()
    return {"sol": sol, "cost": s.get_cost(), "lb": s.get_lower_bound(), "nm": -1 if m is None else len(m),
            "mbad": False if m is None else any(not (0 <= x <= 1e6) for x in m)}

def run(ops):
    out = []
    s = SetCoverSolver()
    for op in ops:
        r = {"op": op[0]}
        try:
            if op[0] == "add":
                r["ret"] = s.add_set(op[1], cost=op[2])
            elif op[0] == "solve":
                s.solve(**dict({"verbose": 0}, **op[1]))
            elif op[0] == "file":
                s.from_file(op[1], op[2])
            elif op[0] == "query":
                pass
            r["ok"] = True
        except Exception as e:
            r["ok"] = False
            r["exc"] = type(e).__name__ + ": " + str(e)[:200]
        try:
            r["st"] = state(s)
        except Exception as e:
            r["st"] = {"bad": type(e).__name__ + ": " + str(e)[:200]}
        out.append(r)
    return out

devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)
with open(sys.argv[2], "w") as f:
    for ops in json.load(open(sys.argv[1])):
        f.write(json.dumps(run(ops)) + "\n")
        f.flush()
