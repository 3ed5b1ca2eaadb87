# Two solvers in turn: argv[1] JSON list of sessions (calls [solver, op, args...]), argv[2] output: per
# session what each of the two solvers answered.
import json, os, sys
from pycft import SetCoverSolver

def look(s):
    m = s.get_dual_multipliers()
    return [s.get_solution(), repr(s.get_cost()), repr(s.get_lower_bound()), None if m is None else [repr(x) for x in m]]

devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)
with open(sys.argv[2], "w") as f:
    for sess in json.load(open(sys.argv[1])):
        ss, out = [SetCoverSolver(), SetCoverSolver()], [[], []]
        for w, op, *a in sess:
            r = {}
            try:
                if op == "add":
                    els = list(a[0])
                    r["ret"] = ss[w].add_set(els, cost=a[1])
                    r["ret"] = r["ret"] if els == a[0] else "input changed"
                else:
                    par = dict(a[0], verbose=0)
                    ss[w].solve(**par)
                    r["st"] = look(ss[w])
            except Exception as e:
                r["exc"] = type(e).__name__
            out[w].append(json.dumps(r))
        f.write(json.dumps(out) + "\n")
        f.flush()
