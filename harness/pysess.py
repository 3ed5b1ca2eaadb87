# Sessions of Python solvers: argv[1] JSON list of sessions (lists of calls), argv[2] output (one line per session).
import json, os, sys
from pathlib import Path
from pycft import SetCoverSolver

SC, BIG = 4, 1000000000

def enc(x):
    if x != x:
        return 2 * BIG
    return int(max(-BIG, min(BIG, round(x * SC) if abs(x) < BIG else (BIG if x > 0 else -BIG))))

def show(s):
    r = {"has": False, "sol": [], "cost": 0, "lb": enc(s.get_lower_bound()), "nm": -1, "mbad": False, "same": True}
    sol, c, m = s.get_solution(), s.get_cost(), s.get_dual_multipliers()
    raw = (None if sol is None else list(sol), c, s.get_lower_bound(), None if m is None else list(m))
    if sol is not None or c is not None or m is not None:
        r["has"] = sol is not None
        r["sol"] = [int(j) if abs(j) < BIG else BIG for j in sol or []]
        r["cost"] = enc(c) if c is not None else -7
        r["nm"] = len(m) if m is not None else -7
        r["mbad"] = any(not (0 <= x <= 1e9) for x in m or [])
    # what was handed out belongs to the caller
    if sol is not None:
        sol += [10 ** 6]
    if m is not None:
        m.clear()
    m2, s2 = s.get_dual_multipliers(), s.get_solution()
    again = (None if s2 is None else list(s2), s.get_cost(), s.get_lower_bound(), None if m2 is None else list(m2))
    r["same"] = repr(again) == repr(raw)
    return r

BADADD = [lambda s: s.add_set(["a"], cost=1), lambda s: s.add_set([0, 2 ** 40], cost=1), lambda s: s.add_set(None, cost=1), lambda s: s.add_set([0], cost="x"),
          lambda s: s.add_set([0], cost=None), lambda s: s.add_set([0]), lambda s: s.add_set(cost=1), lambda s: s.add_set([0, 1.5], cost=1), lambda s: s.add_set(0, cost=1),
          lambda s: s.add_set([[0]], cost=1), lambda s: s.add_set([1, None], cost=2), lambda s: s.add_set([0, 40000], cost=1)]
BADSOLVE = [lambda s: s.solve(seed=-1, verbose=0), lambda s: s.solve(seed="x", verbose=0), lambda s: s.solve(epsilon="x", verbose=0), lambda s: s.solve(heur_iters=1.5, verbose=0),
            lambda s: s.solve(no_such_parameter=1), lambda s: s.solve(verbose=None), lambda s: s.solve(time_limit="soon", verbose=0), lambda s: s.solve(min_fixing=[], verbose=0),
            lambda s: s.solve(alpha=None, verbose=0), lambda s: s.solve(beta={}, verbose=0)]
FORMS = [list, tuple, set, lambda e: list(e) + list(e), lambda e: list(reversed(e)), lambda e: {x: 1 for x in e}, frozenset]

def run(sess, nids):
    ss = [SetCoverSolver() for _ in range(nids)]
    out = []
    for op in sess:
        s = ss[op["w"]]
        r = {"e": op["e"], "w": op["w"], "kind": op["kind"], "ret": -1}
        for k in ("els", "cost", "cols", "costs", "sol"):
            if k in op:
                r[k] = op[k]
        try:
            if op["e"] == "add":
                if op["kind"] == "plain":
                    els = FORMS[op.get("form", 0) % len(FORMS)](op["els"])
                    c = op["cost"] / SC
                    c = int(c) if c == int(c) and op.get("form", 0) % 2 == 0 else c
                    ret = s.add_set(els, cost=c) if op.get("form", 0) % 3 else s.add_set(els, c)
                    if isinstance(els, list):
                        els[:] = [77]
                else:
                    ret = BADADD[op["which"] % len(BADADD)](s)
                r["ret"] = ret if isinstance(ret, int) else -2
            elif op["e"] == "solve":
                if op["kind"] == "plain":
                    s.solve(**dict({"verbose": 0}, **op["par"]))
                else:
                    BADSOLVE[op["which"] % len(BADSOLVE)](s)
            elif op["e"] == "file":
                p = op["path"] if op["form"] % 2 else Path(op["path"])
                if op["parser"] == "RAIL" and op["form"] % 3 == 0:
                    s.from_file(p)
                else:
                    s.from_file(p, op["parser"])
            r["ok"] = True
        except Exception as e:
            r["ok"] = False
            r["exc"] = (type(e).__name__ + ": " + str(e))[:160]
        r["st"] = []
        for x in ss:
            try:
                r["st"].append(show(x))
            except Exception as e:
                r["st"].append({"has": True, "sol": [], "cost": -9, "lb": 0, "nm": -9, "mbad": True, "same": False})
                r["exc"] = (type(e).__name__ + ": " + str(e))[:160]
        out.append(r)
    return out

devnull = os.open(os.devnull, os.O_WRONLY)
os.dup2(devnull, 1)
with open(sys.argv[2], "w") as f:
    for sess in json.load(open(sys.argv[1])):
        f.write(json.dumps(run(sess, 2)) + "\n")
        f.flush()
