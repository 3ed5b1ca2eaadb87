"""Common machinery of the checks: building harnesses from /repo, running TLC, reporting.

Every check is  stimuli -> real code (harness built from /repo's working tree) -> trace (ndjson)
-> TLC, which decides whether the trace is a behaviour of the TLA+ specification.
"""
import atexit, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
EVID = os.path.join(VERIF, "evidence")
NCPU = max(1, min(8, os.cpu_count() or 1))
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
VENV_PY = "/opt/vp/venv/bin/python"

BIG = 10 ** 9          # encoding of +infinity-like values in traces (TLC integers are 32 bit)


class MachineryError(Exception):
    """Something in the checking machinery (not in the code under test) went wrong."""


class Stop(Exception):
    """A violation has been found; args[0] is the check."""


class NotBuildable(Exception):
    """The harness does not compile against the current tree."""


_work = None


def workdir():
    global _work
    if _work is None:
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        _work = tempfile.mkdtemp(prefix="work_", dir=base)
        if not os.environ.get("VERIF_KEEP"):
            atexit.register(shutil.rmtree, _work, True)
    return _work


def path(name):
    p = os.path.join(workdir(), name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    return p


# ------------------------------------------------------------------ building
def _tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, dn, fn in os.walk(root):
                dn.sort()
                dn[:] = [x for x in dn if x not in ("__pycache__",)]
                files += [os.path.join(d, f) for f in sorted(fn)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]


def build(src, name=None, flags=(), std="c++14", incs=(), opt="-O1", need=True):
    """Compiles harness `src` (relative to /verif/harness, or absolute) against REPO/src.
    Raises NotBuildable when the compiler rejects it."""
    srcp = src if os.path.isabs(src) else os.path.join(HARN, src)
    name = name or os.path.basename(src).replace(".cpp", "")
    cmd = ["g++", "-std=" + std, opt, "-DNDEBUG", "-w"] + list(flags)
    for i in incs:
        cmd += ["-I", i if os.path.isabs(i) else os.path.join(HARN, i)]
    cmd += ["-I", HARN, "-I", os.path.join(REPO, "src"), srcp, "-lfmt", "-pthread"]
    key = hashlib.sha256((" ".join(cmd) + _tree_hash([os.path.join(REPO, "src"), HARN])).encode()).hexdigest()[:20]
    bdir = os.path.join(VERIF, "build", "bin")
    os.makedirs(bdir, exist_ok=True)
    out = os.path.join(bdir, name + "_" + key)
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d_%d" % (os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + ["-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise NotBuildable("%s: %s" % (name, (r.stderr or r.stdout)[:3000]))
    os.replace(tmp, out)
    return out


def build_cli():
    """accft itself, from the unmodified sources."""
    return build(os.path.join(REPO, "src/main.cpp"), name="accft", std="c++11", opt="-O2")


def build_py():
    """The pycft package as an importable directory. Returns the directory to put on PYTHONPATH."""
    inc = subprocess.run([VENV_PY, "-c", "import sysconfig,pybind11;print(pybind11.get_include());"
                          "print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                         capture_output=True, text=True)
    if inc.returncode != 0:
        raise MachineryError("pybind11 not available: " + inc.stderr[:500])
    pbinc, pyinc, suf = inc.stdout.split()
    so = build(os.path.join(REPO, "src/pycft/_bindings.cpp"), name="bindings", std="c++14",
               flags=["-shared", "-fPIC", "-fvisibility=hidden", "-I", pbinc, "-I", pyinc], opt="-O1")
    d = path("py")
    pk = os.path.join(d, "pycft")
    if not os.path.isdir(pk):
        os.makedirs(pk)
        for f in os.listdir(os.path.join(REPO, "src/pycft")):
            if f.endswith(".py") or f.endswith(".pyi"):
                shutil.copy(os.path.join(REPO, "src/pycft", f), pk)
        shutil.copy(so, os.path.join(pk, "_bindings" + suf))
    return d


_hangs = [0]


MAXOUT = 400 << 20  # no run of the code under test has this much to say: it does not terminate


def _limits():
    resource.setrlimit(resource.RLIMIT_DATA, (2 << 30, 2 << 30))
    _no_core()


def _no_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (MAXOUT, MAXOUT))


_san = {}


def _sanitized(exe):
    """address sanitizer reserves terabytes of shadow memory, so a limit would stop it at once"""
    if exe not in _san:
        try:
            with open(exe, "rb") as f:
                _san[exe] = b"__asan_init" in f.read()
        except OSError:
            _san[exe] = False
    return _san[exe]


def run_harness(cmd, timeout=300, env=None, cwd=None, check=True, stdin=None):
    """runs code under test; once something did not terminate the others get less time"""
    e = dict(os.environ)
    e.update(env or {})
    if TIER != "thorough":
        timeout = min(timeout, 150)
    if _hangs[0]:
        timeout = min(timeout, 20 if TIER != "thorough" else 200)
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        rc = None
        try:
            rc = subprocess.run(cmd, stdout=fo, stderr=fe, timeout=timeout, env=e, cwd=cwd or workdir(),
                                input=stdin.encode() if stdin is not None else None,
                                preexec_fn=_no_core if _sanitized(cmd[0]) else _limits).returncode
        except subprocess.TimeoutExpired:
            _hangs[0] += 1
        if rc == -signal.SIGXFSZ:
            rc = None
        fo.seek(0)
        fe.seek(0)
        so, se = (f.read(64 << 20).decode(errors="replace") for f in (fo, fe))
    return rc, so, se if rc is not None else "TIMEOUT"


def pmap(f, xs, n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


# ------------------------------------------------------------------ traces
def write_ndjson(fn, recs):
    p = path(fn)
    with open(p, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
    return p


def read_ndjson(p):
    out = []
    with open(p, errors="replace") as f:
        for line in f:
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def enc(x, scale):
    """float -> 32 bit integer at the given scale, saturating"""
    if x != x:
        return 2 * BIG
    v = x * scale
    if v >= BIG:
        return BIG
    if v <= -BIG:
        return -BIG
    return int(round(v))


# ------------------------------------------------------------------ TLC
class TLCResult:
    def __init__(self):
        self.ok = False
        self.kind = None          # None | invariant | deadlock | assert | property | error
        self.name = None
        self.state = {}
        self.states = 0
        self.distinct = 0
        self.out = ""
        self.printed = []


def _parse_state(text):
    st = {}
    for m in re.finditer(r"^/?\\?/?\\? ?(\w+) = (.*?)(?=^/\\ \w+ = |\Z)", text, re.M | re.S):
        st[m.group(1)] = m.group(2).strip()
    return st


_tlc_n = [0]
_tlc_lock = threading.Lock()


def tlc(module, cfg=None, consts=None, env=None, workers=NCPU, timeout=600, deadlock=True, simulate=None,
        spec="Spec", invariants=(), properties=(), postcondition=None, constraint=None, view=None,
        mem="3g", extra=(), init=None, next=None, allow_timeout=False, alias=None):
    """Runs TLC on /verif/spec/<module>.tla with a cfg given as a file or generated from arguments."""
    with _tlc_lock:
        _tlc_n[0] += 1
        n = _tlc_n[0]
    d = path("tlc%d/x" % n)
    d = os.path.dirname(d)
    if cfg is None:
        c = []
        if init:
            c += ["INIT " + init, "NEXT " + next]
        else:
            c += ["SPECIFICATION " + spec]
        for k, v in (consts or {}).items():
            c.append("CONSTANT %s %s" % (k, v if str(v).startswith("<-") else "= %s" % v))
        for i in invariants:
            c.append("INVARIANT " + i)
        for i in properties:
            c.append("PROPERTY " + i)
        if postcondition:
            c.append("POSTCONDITION " + postcondition)
        if constraint:
            c.append("CONSTRAINT " + constraint)
        if view:
            c.append("VIEW " + view)
        if alias:
            c.append("ALIAS " + alias)
        c.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        cfgp = os.path.join(d, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write("\n".join(c) + "\n")
    else:
        cfgp = os.path.join(SPEC, cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xmx" + mem, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", JAVA_CP, "-DTLA-Library=" + SPEC,
           "tlc2.TLC", "-noGenerateSpecTE", "-nowarning", "-metadir", os.path.join(d, "st"), "-workers", str(workers), "-config", cfgp]
    if simulate:
        cmd += ["-simulate", simulate[0], "-depth", str(simulate[1]), "-seed", str(SEED)]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e.pop("JAVA_TOOL_OPTIONS", None)
    r = TLCResult()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=d, errors="replace")
    except subprocess.TimeoutExpired as ex:
        if allow_timeout:
            o = ex.stdout or b""
            r.out = o.decode(errors="replace") if isinstance(o, bytes) else o
            r.kind = "timeout"
            m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct", r.out)
            if m:
                r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
            return r
        raise MachineryError("TLC timeout on %s" % module)
    finally:
        shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
    out = p.stdout
    r.out = out
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        r.states, r.distinct = (int(x.replace(",", "")) for x in m[-1])
    elif simulate:
        m = re.findall(r"([\d,]+) states generated", out) or re.findall(r"([\d,]+) states checked", out)
        if m:
            r.states = r.distinct = int(m[-1].replace(",", ""))
    if re.search(r"Model checking completed. No error has been found", out) or \
            (simulate and p.returncode == 0 and "Error:" not in out):
        r.ok = True
        return r
    states = re.split(r"^State \d+:.*$|^\d+: <.*>$", out, flags=re.M)
    if len(states) > 1:
        r.state = _parse_state(states[-1].split("\n\n")[0])
    m = re.search(r"Invariant (\S+) is violated", out)
    if m:
        r.kind, r.name = "invariant", m.group(1).rstrip(".")
        if not r.state:  # violated by an initial state
            m2 = re.search(r"violated by the initial state:\n(.*?)\n\n", out + "\n\n", re.S)
            if m2:
                r.state = _parse_state(m2.group(1))
        return r
    if "Deadlock reached" in out:
        r.kind = "deadlock"
        return r
    m = re.search(r"(?:Action|Temporal) propert(?:y|ies)(.*)violated", out)
    if m:
        r.kind, r.name = "property", m.group(1)
        return r
    if re.search(r"POSTCONDITION|[Pp]ostcondition", out) and "violated" in out:
        r.kind = "postcondition"
        return r
    raise MachineryError("TLC failed on %s:\n%s\n%s" % (module, out[-12000:], p.stderr[-1500:]))


def generate(module, consts=None, env=None, timeout=300, simulate=None, **kw):
    """Lets TLC enumerate (or sample) behaviours/stimuli: the module writes them with PrintT as
    lines  @@ <json>  ; returns the decoded values and the TLC result."""
    r = tlc(module, consts=consts, env=env, timeout=timeout, simulate=simulate, deadlock=False,
            workers=1 if simulate else NCPU, **kw)
    if not r.ok:
        raise MachineryError("generator %s failed: %s" % (module, r.out[-2000:]))
    vals = []
    for line in r.out.splitlines():
        if line.startswith('"@@') or line.startswith("@@"):
            s = line.strip()
            if s.startswith('"'):
                s = s[1:-1].replace('\\"', '"').replace("\\\\", "\\")
            vals.append(json.loads(s[2:]))
    return vals, r


# ------------------------------------------------------------------ trace validation
class Validation:
    def __init__(self):
        self.ok = True
        self.records = 0
        self.states = 0
        self.transitions = 0
        self.fail = None          # (record/trace index (0-based), name, detail)


def validate_records(module, recs, invariants, consts=None, env=None, timeout=800, mem="4g", tag="rec"):
    """One-step traces: every record must satisfy the named relations of the spec.
    The module declares VARIABLE k, Init/Next over chains of records of IOEnv.TRACE."""
    v = Validation()
    v.records = len(recs)
    if not recs:
        return v
    f = write_ndjson("%s_%s_%d.ndjson" % (tag, module, random.randrange(1 << 30)), recs)
    e = dict(env or {})
    e["TRACE"] = f
    r = tlc(module, consts=consts, env=e, invariants=invariants, deadlock=False, timeout=timeout, mem=mem)
    v.states, v.transitions = r.distinct, r.states
    if not r.ok:
        v.ok = False
        k = int(re.sub(r"\D", "", r.state.get("k", "0")) or 0)
        v.fail = (k - 1, r.name or r.kind, r.out[-3000:])
    os.unlink(f)
    return v


def validate_traces(module, traces, invariants=(), consts=None, env=None, timeout=800, mem="6g", tag="tr", spec="TraceSpec", meta=None):
    """Multi-step traces: list of lists of events. The module has variables t (trace) and l (next
    event) and operators Accepted (prints @@t once trace t is consumed) and Progress (prints @@l).
    A trace is rejected when no behaviour of the specification consumes all its events.
    Returns a Validation; .rejected lists (trace index, number of events explained)."""
    v = Validation()
    v.records = len(traces)
    v.rejected = []
    if not traces:
        return v

    def go(ts, ms, inv):
        f = write_ndjson("%s_%s_%d.ndjson" % (tag, module, random.randrange(1 << 30)), [dict(m or {}, ev=x) for x, m in zip(ts, ms)])
        e = dict(env or {})
        e["TRACE"] = f
        r = tlc(module, consts=consts, env=e, invariants=list(invariants) + [inv], deadlock=False, timeout=timeout, mem=mem, spec=spec)
        os.unlink(f)
        got = [int(x) for x in re.findall(r'^"?@@(\d+)"?$', r.out, re.M)]
        return r, got
    metas = meta or [None] * len(traces)
    r, acc = go(traces, metas, "Accepted")
    v.states, v.transitions = r.distinct, r.states
    if not r.ok:   # an invariant of the specification
        v.ok = False
        t = int(re.sub(r"\D", "", r.state.get("t", "0")) or 0)
        l = int(re.sub(r"\D", "", r.state.get("l", "0")) or 0)
        v.rejected.append((t - 1, l - 1))
        v.fail = (t - 1, "%s at event %d" % (r.name or r.kind, l), r.out[-3000:])
        return v
    bad = sorted(set(range(1, len(traces) + 1)) - set(acc))
    for t in bad[:1]:
        r, prog = go([traces[t - 1]], [metas[t - 1]], "Progress")
        m = max(prog) if prog else 1
        if m > len(traces[t - 1]):
            raise MachineryError("rejection of a trace by %s is not reproducible" % module)
        v.ok = False
        v.rejected.append((t - 1, m - 1))
        v.fail = (t - 1, "event %d (%s) has no explanation" % (m, traces[t - 1][m - 1].get("e")), "")
    v.nrejected = len(bad)
    return v


# ------------------------------------------------------------------ the check object
class Check:
    """Collects what a check explored, writes the evidence, prints the verdict and exits."""

    def __init__(self, pid, level="model_checking", technique=""):
        self.pid, self.level = pid, level
        self.t0 = self.tlap = time.time()
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.notes, self.parts = [], [], {}
        self.degraded = []
        self.viol = []
        self.exhaustive = None
        self.rng = random.Random(SEED * 1000003 + int(pid[1:]) * 7919)
        os.makedirs(EVID, exist_ok=True)
        Check.current = self

    @property
    def thorough(self):
        return TIER == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def add(self, part, v, nontrivial=None):
        """accounts a Validation"""
        self.states += v.states
        self.transitions += v.transitions
        self.traces += v.records
        d = self.parts.setdefault(part, {"traces": 0, "states": 0})
        d["traces"] += v.records
        d["states"] += v.states
        self.lap(d)
        if nontrivial is not None:
            d["nontrivial"] = d.get("nontrivial", 0) + nontrivial

    def lap(self, d):
        t = time.time()
        d["wall_s"] = round(d.get("wall_s", 0) + t - self.tlap, 1)
        self.tlap = t

    def model(self, part, r):
        """accounts a model checking run of the design"""
        self.states += r.distinct
        self.transitions += r.states
        d = self.parts.setdefault(part, {})
        d["model_states"] = d.get("model_states", 0) + r.distinct
        d["model_transitions"] = d.get("model_transitions", 0) + r.states
        self.lap(d)

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            s = json.dumps(x)
            self.samples.append(x if len(s) < 3000 else s[:3000])

    def violation(self, part, what, replay):
        fn = os.path.join(EVID, "replay_%s_%d.json" % (self.pid, len(self.viol)))
        with open(fn, "w") as f:
            json.dump({"property": self.pid, "part": part, "what": what, "replay": replay, "seed": SEED,
                       "tier": TIER, "how": "python3 bin/check.py %s re-runs the check; `replay` holds the stimulus and the "
                       "observed events that the specification rejects" % self.pid}, f, indent=1, default=str)
        self.viol.append((part, what, fn))
        print("rejected [%s] %s" % (part, str(what)[:600]))
        raise Stop(self)       # one is enough: what comes later may take very long on broken code

    def finish(self, rule="", assumptions=()):
        ev = {"property": self.pid, "tier": "thorough" if self.thorough else "quick", "seed": SEED, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
                           "rule": rule, "parts": self.parts},
              "assumptions": list(assumptions) + self.notes,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        if self.exhaustive is not None:
            ev["coverage"]["exhaustive"] = self.exhaustive
        if self.degraded:
            ev["coverage"]["degraded"] = self.degraded
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for part, d in self.parts.items():
            print("  %-28s %s" % (part, d))
        for d in self.degraded:
            print("  DEGRADED: " + d[:400])
        if self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.viol[0][2]))
            sys.stdout.flush()
            return 1
        print("OK %s: %d traces, %d states, %.1fs" % (self.pid, self.traces, self.states, time.time() - self.t0))
        return 0
