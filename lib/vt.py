"""Common machinery: build of /repo, TLC driver, workers, trace validation, evidence."""
import fcntl, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
SPEC = os.path.join(VERIF, "spec")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class Broken(Exception):
    """The check itself failed (never reported as a violation)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build

def tree_digest():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "test", "doc", "examples", "package"))
        for f in sorted(files):
            p = os.path.join(base, f)
            try:
                with open(p, "rb") as fh:
                    h.update(p.encode() + b"\0" + hashlib.sha256(fh.read()).digest())
            except OSError:
                pass
    return h.hexdigest()


def _run(cmd, logname, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        sys.stderr.write(p.stdout.decode(errors="replace")[-6000:])
        raise Broken("command failed: " + " ".join(cmd))
    return p.stdout


def build_lib(variant="lib", flags="", targets=("libsrcml_shared", "libsrcml_static")):
    """Build libsrcml from /repo's working tree, outside /repo."""
    B = os.path.join(BUILD, variant)
    os.makedirs(os.path.join(B, "external"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dig = tree_digest()
        stamp = os.path.join(B, "tree.sha256")
        if os.path.exists(stamp) and open(stamp).read() == dig and os.path.exists(os.path.join(B, "bin/libsrcml.so")):
            return B
        if os.path.exists(stamp):
            # never trust timestamps of a build made from another tree
            if os.environ.get("VERIF_DEV") != "1":
                shutil.rmtree(B)
                os.makedirs(os.path.join(B, "external"))
            else:
                os.unlink(stamp)
        for h in ("CLI11.hpp", "ctpl_stl.h"):   # keep src/client/CMakeLists.txt from downloading
            with open(os.path.join(B, "external", h), "w") as f:
                f.write("#error not available\n")
        env = dict(os.environ, CC="gcc", CXX="g++", LANG="C.UTF-8", LC_ALL="C.UTF-8")
        _run(["cmake", "-S", REPO, "-B", B, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
              "-DCMAKE_CXX_FLAGS=-include algorithm -Wno-error -w" + flags, "-DCMAKE_C_FLAGS=-Wno-error",
              "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g1", "-DCMAKE_C_FLAGS_RELWITHDEBINFO=-O1 -g1",
              "-DBUILD_TESTING=OFF", "-DBUILD_CLIENT_DOC=OFF"], "cmake", env=env)
        _run(["ninja", "-C", B] + list(targets), "ninja", env=env)
        with open(stamp, "w") as f:
            f.write(dig)
    return B


# ---------------------------------------------------------------- scratch

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        import atexit
        _scratch = tempfile.mkdtemp(prefix="vt-")
        atexit.register(shutil.rmtree, _scratch, ignore_errors=True)
    return _scratch


# ---------------------------------------------------------------- TLC

class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"The number of states generated: (\d+)", out)   # simulation
        if m:
            self.generated = int(m[-1])
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.complete = "Model checking completed. No error has been found." in out
        # a violated property of the *specification*
        self.violation = None
        m = re.search(r"Error: (Invariant \S+ is violated.*|Deadlock reached.*|Temporal propert.* violated.*|"
                      r"Action property \S+ is violated.*|Property \S+ is violated.*|Assumption .* is false.*)", out)
        if m:
            self.violation = m.group(1)
        self.prints = []
        for line in out.split("\n"):
            if line.startswith('"') and line.endswith('"'):
                self.prints.append(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
        self.coverage = re.findall(r"^<(\w+) line .*?>: (\d+):(\d+)", out, re.M)


def tlc(module, cfg=None, env=None, workers=None, timeout=600, extra=(), deadlock=False, heap="3g"):
    """Run TLC on spec/<module>.tla with spec/<cfg>.cfg."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss32m", "-cp", TLA_CP, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers or 4)]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + ["-config", os.path.join(SPEC, (cfg or module) + ".cfg"), os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise Broken("TLC timeout on %s/%s\n%s" % (module, cfg, (x.stdout or b"")[-1500:].decode(errors="replace")))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TLCResult(p.stdout.decode(errors="replace"), p.returncode)


def model_check(module, cfg=None, **kw):
    """Exhaustive model checking of the specification itself; a failure is a broken check."""
    kw.setdefault("workers", 1)     # a bound on the depth gives the same states on every run only with one worker
    r = tlc(module, cfg, **kw)
    if r.violation or not r.complete:
        raise Broken("specification %s/%s does not check:\n%s" % (module, cfg or module, r.out[-4000:]))
    return r


class Mismatch:
    def __init__(self, trace, line, expected):
        self.trace, self.line, self.expected = trace, line, expected

    def __str__(self):
        ev = self.trace["ev"][self.line - 1]
        return "trace %s, event %d: observed %s; specification expects %s" % (
            self.trace["id"], self.line, json.dumps(ev)[:1500], self.expected[:1500])


def validate(module, traces, cfg=None, timeout=600, chunks=None, env=None, heap="3g"):
    """Validate traces with a TraceCheck based module; returns (mismatches, states)."""
    if not traces:
        return [], 0
    cfg = cfg or "TraceCheck"
    total = sum(len(t["ev"]) for t in traces)
    n = chunks or max(1, min(4, total // 4000))
    parts = [[] for _ in range(n)]
    size = [0] * n
    for t in sorted(traces, key=lambda t: -len(t["ev"])):
        i = size.index(min(size))
        parts[i].append(t)
        size[i] += len(t["ev"]) + 1
    parts = [p for p in parts if p]

    def one(part):
        fd, path = tempfile.mkstemp(suffix=".ndjson", dir=scratch())
        with os.fdopen(fd, "w") as f:
            for t in part:
                f.write(json.dumps({"id": t["id"], "cfg": t.get("cfg", {"none": 0}), "ev": t["ev"]}) + "\n")
        e = dict(env or {})
        e["TRACE"] = path
        r = tlc(module, cfg, env=e, workers=2, timeout=timeout, heap=heap)
        os.unlink(path)
        if not r.complete and re.search(r"Attempted to|evaluating the expression|was not in the domain|The argument of|The first argument of|The second argument of", r.out):
            # what was observed is not even of the kind the specification has: find a trace that does this
            if len(part) == 1:
                return [Mismatch(part[0], len(part[0]["ev"]) or 1, "a value of another kind: " + r.out[r.out.find("Error:"):][:600])], 0
            for half in (part[:len(part) // 2], part[len(part) // 2:]):
                mm, n = one(half)
                if mm:
                    return mm, n
            raise Broken("trace validation with %s fails only as a whole:\n%s" % (module, r.out[-3000:]))
        if not r.complete:
            raise Broken("trace validation with %s failed:\n%s" % (module, r.out[-5000:]))
        byid = {t["id"]: t for t in part}
        mm = []
        missed = 0
        for p in r.prints:
            if p.startswith("MISMATCH "):
                d = json.loads(p[9:])
                t = byid[d["id"]]
                mm.append(Mismatch(t, d["l"], d["expected"]))
                missed += len(t["ev"]) - d["l"]
        want = sum(len(t["ev"]) + 1 for t in part) - missed
        if r.distinct != want and not mm:
            raise Broken("trace validation with %s: %d states, expected %d\n%s" % (module, r.distinct, want, r.out[-3000:]))
        return mm, r.distinct

    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(one, parts))
    return [m for r in res for m in r[0]], sum(r[1] for r in res)


# ---------------------------------------------------------------- workers

class Pool:
    """Runs scenarios in worker processes (crash and hang isolation).

    A worker is `python3 lib/worker.py <module>`; it reads one JSON scenario per line and answers
    with one JSON line {"ev": [...]}.  A crash or a hang is recorded as a final event
    {"op": "CRASH"} / {"op": "HANG"}, which no specification allows."""

    def __init__(self, module, n=None, timeout=20, env=None, lib=None):
        self.module, self.n, self.timeout = module, n or NCPU, timeout
        self.env = dict(os.environ, SRCML_LIB=lib or os.path.join(BUILD, "lib/bin/libsrcml.so"), PYTHONHASHSEED="0")
        self.env.update(env or {})
        self.max_abnormal = 24

    def _spawn(self):
        return subprocess.Popen([sys.executable, "-u", os.path.join(VERIF, "lib/worker.py"), self.module],
                                stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                env=self.env, cwd=scratch(), start_new_session=True)

    def run(self, scenarios, fresh=False):
        import queue, select, threading
        q = queue.Queue()
        for i, s in enumerate(scenarios):
            q.put((i, s))
        out = [None] * len(scenarios)
        errs = []
        abnormal = []       # a change that breaks everything must not use up the time

        def loop():
            w = None
            buf = b""
            try:
                while not errs and len(abnormal) < self.max_abnormal:
                    try:
                        i, s = q.get_nowait()
                    except queue.Empty:
                        break
                    one = fresh or s.get("fresh")
                    if one and w is not None:
                        w.stdin.close()
                        w.wait()
                        w = None
                    if w is None:
                        w, buf = self._spawn(), b""
                    end = None
                    try:
                        w.stdin.write(json.dumps(s).encode() + b"\n")
                        w.stdin.flush()
                    except BrokenPipeError:
                        end = "CRASH"
                    deadline = time.time() + s.get("timeout", self.timeout)
                    partial = []
                    while end is None:
                        nl = buf.find(b"\n")
                        if nl >= 0:
                            line, buf = buf[:nl], buf[nl + 1:]
                            if line.startswith(b"~"):        # progress: an event about to start / done
                                partial.append(json.loads(line[1:]))
                                continue
                            r = json.loads(line)
                            if "broken" in r:
                                errs.append(r["broken"])
                            out[i] = r
                            break
                        left = deadline - time.time()
                        rd = select.select([w.stdout], [], [], max(0, left))[0]
                        if not rd:
                            end = "HANG"
                            break
                        d = os.read(w.stdout.fileno(), 1 << 20)
                        if not d:
                            end = "CRASH"
                            break
                        buf += d
                    if end:
                        w.kill()
                        rc = w.wait()
                        out[i] = {"ev": partial + [{"op": end, "rc": rc if end == "CRASH" else 0}], "abnormal": end}
                        abnormal.append(i)
                        w = None
                    elif one:
                        w.stdin.close()
                        w.wait()
                        w = None
            except Exception as x:      # noqa
                errs.append(repr(x))
            finally:
                if w is not None:
                    try:
                        w.stdin.close()
                        w.wait(5)
                    except Exception:
                        w.kill()

        ts = [threading.Thread(target=loop) for _ in range(min(self.n, max(1, len(scenarios))))]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise Broken("worker error: " + errs[0])
        return out


# ---------------------------------------------------------------- check context

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(seed * 1000003 + int(prop[1:]))
        self.t0 = time.time()
        self.level = "model_checking"
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "evaluations": 0,
                    "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.assumptions = []
        self.violations = []
        self.scen = None
        self.known_hit = {}
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop] if os.path.exists(kf) else []
        self.replays = os.path.join(VERIF, ".replay", prop)
        shutil.rmtree(self.replays, ignore_errors=True)

    @property
    def quick(self):
        return self.tier != "thorough"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def mc(self, module, cfg=None, **kw):
        t = time.time()
        r = model_check(module, cfg, **kw)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        log("[%s] TLC %s/%s: %d distinct states, %d transitions, depth %d (%.1fs)" % (
            self.prop, module, cfg or module, r.distinct, r.generated, r.depth, time.time() - t))
        return r

    def sample(self, x, n=6):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x if len(json.dumps(x)) < 3000 else json.dumps(x)[:3000])

    def check_traces(self, module, traces, rerun=None, signature=None, **kw):
        """Validate; every rejected trace is re-recorded (rerun(trace) -> trace or None) and
        reported only if it is rejected again."""
        t = time.time()
        mm, states = validate(module, traces, **kw)
        self.cov["traces_validated_against_impl"] += len(traces)
        self.cov["evaluations"] += sum(len(x["ev"]) for x in traces)
        self.cov["distinct_nontrivial"] += len({json.dumps(x["ev"], sort_keys=True) for x in traces if x["ev"]})
        log("[%s] validated %d traces, %d events against %s: %d rejected (%.1fs)" % (
            self.prop, len(traces), sum(len(x["ev"]) for x in traces), module, len(mm), time.time() - t))
        for tr in traces[:1] + traces[-1:]:
            self.sample({"trace": tr["id"], "ev": tr["ev"][:12]})
        sigf = signature or (lambda m: str(m.trace["id"]))
        todo = [m for m in mm if self.match_known(sigf(m)) is None][:12]
        if todo and rerun is not None:
            again = rerun([m.trace for m in todo])
            m2, _ = validate(module, again, **kw)
            for m in todo:
                if not any(x.trace["id"] == m.trace["id"] for x in m2):
                    log("not repeated: " + str(m))
            todo = m2
        for m in todo[:5]:
            sig = sigf(m)
            if self.match_known(sig) is not None:
                continue
            self.violation({"module": module, "trace": m.trace, "line": m.line, "expected": m.expected, "signature": sig,
                            "scenario": (self.scen or {}).get(m.trace["id"])}, str(m))
        return mm

    def match_known(self, sig):
        for k in self.known:
            if re.fullmatch(k["signature"], sig):
                self.known_hit[k["signature"]] = k
                return k
        return None

    def violation(self, data, text):
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, "%d.json" % (len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append((path, text))
        log("[%s] %s" % (self.prop, text))

    def finish(self):
        for k in self.known:
            # listed findings are announced on every run in which the listed input was explored
            if k["signature"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]), flush=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for p, t in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        return 1 if self.violations else 0


# ---------------------------------------------------------------- tests from a transition graph

def edges(result):
    es = []
    for p in result.prints:
        if p.startswith("EDGE "):
            es.append(json.loads(p[5:]))
    return es


def cover(es, maxlen=40, rng=None):
    """Operation sequences from an initial state that together take every (state, op) edge."""
    from collections import defaultdict, deque
    key = lambda s: json.dumps(s, sort_keys=True)
    g = defaultdict(list)
    seen, pairs = set(), set()
    nxt = defaultdict(dict)
    for a, op, b in es:
        ka, kb, ko = key(a), key(b), key(op)
        if (ka, ko, kb) in pairs:
            continue
        pairs.add((ka, ko, kb))
        g[ka].append((ko, kb))      # where the specification leaves the outcome open, each is followed in hope
        if (ka, ko) in seen:
            continue
        seen.add((ka, ko))
        nxt[ka][ko] = kb
    init = key(es[0][0])
    todo = {k: list(v) for k, v in nxt.items()}
    left = sum(len(v) for v in todo.values())
    # shortest paths from init
    paths = []

    def nearest(src):
        q, par = deque([src]), {src: None}
        while q:
            u = q.popleft()
            if todo.get(u):
                seq = []
                while par[u] is not None:
                    v = u
                    u, o = par[u]
                    seq.append((o, v))
                return seq[::-1]
            for o, v in g[u]:
                if v not in par:
                    par[v] = (u, o)
                    q.append(v)
        return None

    while left:
        cur, seq = init, []
        while True:
            if todo.get(cur):
                o = todo[cur].pop()
                left -= 1
                seq.append(o)
                cur = nxt[cur][o]
            else:
                if len(seq) >= maxlen:
                    break
                way = nearest(cur)
                if way is None or (len(seq) + len(way) > maxlen and seq):
                    break
                for o, cur in way:
                    seq.append(o)
            if len(seq) >= maxlen:
                break
        if not seq:
            break
        paths.append([json.loads(o) for o in seq])
    if left:
        raise Broken("cover: %d edges unreachable" % left)
    return paths, len(seen)


def execute(ctx, mod, tmod, scen, pool=None, **kw):
    """Run scenarios on the implementation and validate the recorded traces."""
    pool = pool or Pool(mod)
    t = time.time()
    res = pool.run(scen)
    log("[%s] ran %d scenarios (%.1fs)" % (ctx.prop, len(scen), time.time() - t))
    byid = {s["id"]: s for s in scen}
    ctx.scen = dict(ctx.scen or {}, **byid)
    traces = [{"id": s["id"], "cfg": s.get("cfg", {"none": 0}), "ev": o["ev"]} for s, o in zip(scen, res) if o]

    def rerun(trs):
        out = pool.run([byid[tr["id"]] for tr in trs])
        return [{"id": tr["id"], "cfg": tr["cfg"], "ev": o["ev"]} for tr, o in zip(trs, out)]
    mm = ctx.check_traces(tmod, traces, rerun=rerun, **kw)
    return traces, mm
