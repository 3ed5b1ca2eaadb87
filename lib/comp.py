"""Component harnesses: text cases in, JSON events out; one ndjson line per event, a case ends with
{"e":"end"}.  Usage of a harness: prog cases.txt out.ndjson [more]"""
import json, os
import vf


def run(binary, cases, shards=vf.NCPU, timeout=120, args=(), env=None):
    """cases: list of texts (each one case).  Returns (events per case or None, reason per failed case)."""
    out = [None] * len(cases)
    why = {}

    def shard(s):
        todo = list(range(s, len(cases), shards))
        n = 0
        while todo:
            n += 1
            fi = vf.path("comp_%d_%d_%d.txt" % (id(cases), s, n))
            with open(fi, "w") as f:
                f.write("".join(cases[i] + "\n" for i in todo))
            rc, _, err = vf.run_harness([binary, fi, fi + ".out"] + list(args), timeout=timeout, env=env)
            done, evs = 0, []
            if os.path.exists(fi + ".out"):
                for line in open(fi + ".out", errors="replace"):
                    try:
                        e = json.loads(line)
                    except ValueError:
                        break
                    if e["e"] == "end":
                        out[todo[done]] = evs
                        done += 1
                        evs = []
                        if done == len(todo):
                            break
                    elif len(evs) < 100000:
                        evs.append(e)
                os.unlink(fi + ".out")
            os.unlink(fi)
            if done < len(todo):
                why[todo[done]] = "does not terminate" if rc is None else "process ended with status %s: %s" % (rc, (err or "")[-300:])
                done += 1
                for i in todo[done:]:  # one failure is enough, the next ones might take as long
                    why[i] = "not run"
                done = len(todo)
            todo = todo[done:]
    vf.pmap(shard, range(shards))
    return out, why


def build(chk, src, **kw):
    """binary, or None (noted as degraded) when the harness does not fit the current sources"""
    try:
        return vf.build(src, **kw)
    except vf.NotBuildable as e:
        chk.degraded.append("%s not buildable against this tree: %s" % (src, str(e)[:400]))
        return None


def failed(chk, part, why, cases):
    """a crash or hang of the component within its contract is a violation"""
    for i in sorted(why):
        if why[i] != "not run":
            chk.violation(part, why[i], {"stimulus": cases[i]})
            return True
    return False


def records(chk, part, module, recs, own, invs, consts=None, chunk=None):
    """one-step traces"""
    v = vf.validate_records(module, recs, invs, consts=consts)
    chk.add(part, v)
    if recs:
        chk.sample({"part": part, "stimulus": own[0], "record": recs[0]})
    if not v.ok:
        i = v.fail[0]
        if not (0 <= i < len(recs)):
            raise vf.MachineryError("%s: %s" % (module, v.fail[2][-1500:]))
        chk.violation(part, "%s rejected" % v.fail[1], {"stimulus": own[i], "record": recs[i]})
    return v


def traces(chk, part, module, trs, own, consts=None, invariants=(), meta=None):
    """multi-step traces"""
    v = vf.validate_traces(module, trs, invariants=invariants, consts=consts, meta=meta)
    chk.add(part, v)
    chk.parts[part]["events"] = chk.parts[part].get("events", 0) + sum(map(len, trs))
    if trs:
        chk.sample({"part": part, "stimulus": own[0], "events": trs[0][:6]})
    if not v.ok:
        k, m = v.rejected[0]
        chk.violation(part, "%s; %d of %d traces rejected" % (v.fail[1], getattr(v, "nrejected", 1), len(trs)),
                      {"stimulus": own[k], "explained": m, "events": trs[k][max(0, m - 4):m + 1]})
    return v
