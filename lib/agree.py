"""Groups of executions that must agree, decided by spec/Agree.tla."""
import vf


def decide(chk, part, groups, own, inv="SameAll"):
    """groups: list of lists of results (JSON values); own: what to report for each"""
    recs = [{"rs": g} for g in groups]
    v = vf.validate_records("Agree", recs, [inv])
    chk.add(part, v)
    if groups:
        chk.sample({"stimulus": own[0], "results": groups[0]})
    if not v.ok:
        i = v.fail[0]
        chk.violation(part, "results differ", {"stimulus": own[i], "results": groups[i]})
    return v


def lab_result(evs):
    """what must be reproducible of a lab result"""
    if evs is None:
        return {"ok": False}
    e = evs[-1]
    return {"ok": e["ok"], "exc": e["exc"], "sol": e.get("sol", []), "cost": e.get("costs", ""), "lb": e.get("lbs", "")}
