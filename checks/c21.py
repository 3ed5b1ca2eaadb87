import os
import vf, comp, gen, formats, filesc, c18

LIM = {"rlo": [3, 2, 7, 6, 8], "rhi": [3, 2, 7, 6, 7], "clo": filesc.digits(str(2 ** 31)), "chi": filesc.digits(str(2 ** 31 - 1)), "rmax": [int(c) for c in str(2 ** 128 - 2 ** 103)]}


def small(rng, fmt):
    inst = gen.rnd_inst(rng, rng.randint(1, 6), rng.randint(1, 8), rng.choice(["int", "unit", "dyadic", "zero"]), empty=0)
    if rng.random() < 0.2:
        inst.costs = [round(rng.uniform(0, 50), 2) for _ in inst.costs]
    return inst


def job(rng, k):
    fmt = ("RAIL", "SCP", "CVRP", "MPS")[k % 4]
    inst = small(rng, fmt)
    s = gen.greedy_ws(rng, inst)
    L = filesc.lay(rng, fmt, inst, s)
    txt = L.text(rng)
    u = rng.random()
    files, args, dirs = {}, [], ["", "d", "d/e"]
    if u < 0.2:
        for _ in range(rng.choice([1, 1, 2])):
            L = filesc.breakit(rng, L)
        txt = L.text(rng)
    elif u < 0.25:
        txt = filesc.breakchars(rng, txt)
    name = rng.choice(["i.txt", "inst", "d/i.scp", "a.b.c", "d/e/x.y", "noext"])
    files[name] = txt
    args += [rng.choice(["-i", "--inst"]), name if rng.random() < 0.95 else rng.choice(["missing", "d", "d/none", ""])]
    if fmt != "RAIL" or rng.random() < 0.5:
        args += [rng.choice(["-p", "--parser"]), fmt if rng.random() < 0.93 else rng.choice(["RAIL", "SCP", "MPS", "CVRP", "rail", "XYZ", ""])]
    if rng.random() < 0.6:
        args += [rng.choice(["-o", "--out-sol"]), rng.choice(["o.sol", "d/out", "d/e/q.sol", "out put"]) if rng.random() < 0.8 else rng.choice(["nodir/o.sol", "d", "d/none/x", "/dev/full", "", "d/e"])]
    if rng.random() < 0.3:
        ws = filesc.init_text(rng, inst, gen.greedy_ws(rng, inst), broken=rng.random() < 0.4)
        files["w.sol"] = ws
        args += [rng.choice(["-w", "--init-sol"]), "w.sol" if rng.random() < 0.93 else "missing.sol"]
    if rng.random() < 0.3:
        n = rng.choice(["seed", "verbose", "eps", "giters", "beta", "abs", "rel"])
        v = c18.good(rng, n) if n not in ("beta", "eps", "giters", "verbose") else rng.choice(["0.5", "1", "2", "0"]) if n != "giters" else rng.choice(["1", "20", "250"])
        if n in ("seed", "verbose", "giters"):
            v = str(int(float(v))) if "." in v else v
        if n in ("abs", "rel"):
            v = rng.choice(["1", "0.5", "0.001", "5"])
        if rng.random() < 0.15:
            v = rng.choice(["x", "", "1.5.5", "-", "--", "1e999", "5a"])
        args += [rng.choice(c18.FLAGS[n]), v]
    if rng.random() < 0.15:
        args += ["-t", rng.choice(["0", "10", "-1", "1e9"])]
    if rng.random() < 0.15:
        args.append(rng.choice(["-u", "--unit-costs"]))
    if rng.random() < 0.1:
        args.insert(0, rng.choice(["-h", "foo", "--unknown", "-u"]))
    if rng.random() < 0.05:
        args.append(rng.choice(["-s", "-i", "-o", "extra"]))
    if rng.random() < 0.04:
        args = args[2:]
    if not any(a in ("-v", "--verbose") for a in args) and rng.random() < 0.5:
        args += ["-v", rng.choice(["0", "1", "2", "3", "5"])]
    other = {"notes.txt": "keep me\n", "o.sol.bak": "", "d/other.sol": "1 2 3\n"}
    files.update(other)
    if rng.random() < 0.2:                       # an earlier solution is there
        files_old = "0.5 " + "1 " * 300
    else:
        files_old = None
    return fmt, files, dirs, args, files_old


def usable(j):
    fmt, files, dirs, args, old = j
    return not any(filesc.special(t.replace("'MARKER'", "").replace("comment", "").replace("x", "q")) if f.startswith(("w",)) else any(w in t.lower() for w in ("0x", "inf", "nan")) for f, t in files.items()) and not any("x" in a and a[:1].isdigit() for a in args)


def main():
    chk = vf.Check("C21")
    rng = chk.rng
    exe = vf.build_cli()
    jobs = [j for j in (job(rng, k) for k in range(chk.n(1600, 20000))) if usable(j)]

    def one(kj):
        k, (fmt, files, dirs, args, old) = kj
        d = vf.path("accft/%d/x" % k)[:-2]
        for q in dirs:
            os.makedirs(os.path.join(d, q), exist_ok=True)
        for f, t in files.items():
            open(os.path.join(d, f), "w", newline="").write(t) if all(ord(c) < 128 for c in t) else open(os.path.join(d, f), "wb").write(t.encode("latin-1"))
        outp = None
        for i in range(len(args) - 1):
            if args[i] in ("-o", "--out-sol"):
                outp = args[i + 1]
        if old and outp and not outp.startswith("/") and os.path.isdir(os.path.dirname(os.path.join(d, outp))) and not os.path.isdir(os.path.join(d, outp)):
            open(os.path.join(d, outp), "w").write(old)
        before = {}
        for r, ds, fs in os.walk(d):
            for f in fs:
                p = os.path.join(r, f)
                before[os.path.relpath(p, d)] = open(p, "rb").read()
        rc, so, se = vf.run_harness([exe] + args, timeout=60, cwd=d)
        after = {}
        for r, ds, fs in os.walk(d):
            for f in fs:
                p = os.path.join(r, f)
                after[os.path.relpath(p, d)] = open(p, "rb").read()
        newdirs = sorted(os.path.relpath(os.path.join(r, q), d) for r, ds, fs in os.walk(d) for q in ds)
        rec = {"args": [[ord(c) for c in a] for a in args], "files": [{"name": [ord(c) for c in f], "txt": list(t.encode("latin-1")), "same": after.get(f) == before.get(f)} for f, t in files.items()],
               "dirs": [[ord(c) for c in q] for q in dirs], "status": -1 if rc is None else rc, "told": bool(se and se.strip()),
               "new": [[ord(c) for c in f] for f in after if f not in files and after[f] != before.get(f)] + [[ord(c) for c in q] for q in newdirs if q not in dirs]}
        # the file at the output path, whichever that is
        name = outp
        if not name:
            ip = ""
            for i in range(len(args) - 1):
                if args[i] in ("-i", "--inst"):
                    ip = args[i + 1]
            b = ip[max(ip.rfind("/"), ip.rfind("\\")) + 1:]
            name = (b[:b.rfind(".")] if "." in b else b) + ".sol"
        rec["hasout"] = name in after and (name not in files)
        rec["out"] = list(after[name]) if rec["hasout"] else []
        rec.update(LIM)
        return rec, {"args": args, "files": {f: t for f, t in files.items()}, "status": rc, "stderr": (se or "")[-200:], "output": bytes(rec["out"]).decode(errors="replace")[:200]}
    res = vf.pmap(one, list(enumerate(jobs)))
    comp.records(chk, "accft runs", "Accft", [r for r, _ in res], [o for _, o in res], ["ExitStatus", "OnlyTheOutput"],
                 consts={"RLo": "<- cRLo", "RHi": "<- cRHi", "CLo": "<- cCLo", "CHi": "<- cCHi", "RealMax": "<- cRealMax"})
    d = chk.parts["accft runs"]
    d["succeeded"] = sum(r["status"] == 0 for r, _ in res)
    d["failed"] = sum(r["status"] != 0 for r, _ in res)
    return chk.finish("runs of the program in scratch folders with well-formed and broken instances, initial solutions, command lines and output paths; what must happen is computed by Accft.tla from the characters of the command line and the files",
                      ["an output path that is also an input is not judged", "hexadecimal, inf and nan literals are not judged", "instances without rows may be accepted or refused"])
