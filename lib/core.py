"""Shared machinery: build harnesses from /repo's working tree, run TLC, replay, report, evidence."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")   # override only for mutation experiments on scratch copies
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
CXX = "g++-14"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """The machinery itself failed (not a verdict about the code)."""


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what = what
        self.replay = replay or {}


# ---------------------------------------------------------------- building
def _tree_hash():
    h = hashlib.sha256()
    for top in ("include", "src", "python/cpp"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, REPO).encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


_TREE = None


def tree_hash():
    global _TREE
    if _TREE is None:
        _TREE = _tree_hash()
    return _TREE


def _filehash(*paths):
    h = hashlib.sha256()
    for p in paths:
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:12]


def eigen_dir():
    d = os.path.join(BUILD, "eigen-" + _filehash(os.path.join(VERIF, "tools", "mk_eigen.py")))
    if not os.path.isdir(os.path.join(d, "Eigen")):
        os.makedirs(BUILD, exist_ok=True)
        r = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "mk_eigen.py"), d],
                           capture_output=True, text=True)   # builds aside and renames into place
        if r.returncode or not os.path.isdir(os.path.join(d, "Eigen")):
            raise ToolError("mk_eigen failed: " + r.stderr[-2000:])
    return d


ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]
# Eigen itself and value-preserving float casts trip a few UBSan checks; keep the ones that matter for us.
ASAN = ["-fsanitize=address", "-fsanitize=signed-integer-overflow,bounds,null,return,bool,enum,shift,integer-divide-by-zero",
        "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]
TSAN = ["-fsanitize=thread", "-g1"]
LIB_SRC = ["src/autodiff/gradient.cpp", "src/autodiff/hessian.cpp", "src/autodiff/jacobian.cpp",
           "src/autodiff/variable_matrix.cpp", "src/optimization/ocp.cpp", "src/optimization/problem.cpp",
           "src/optimization/solver/interior_point.cpp", "src/optimization/solver/newton.cpp",
           "src/optimization/solver/sqp.cpp", "src/util/pool.cpp"]
AD_SRC = ["src/autodiff/gradient.cpp", "src/autodiff/hessian.cpp", "src/autodiff/jacobian.cpp",
          "src/autodiff/variable_matrix.cpp", "src/util/pool.cpp"]


def _aside(path):
    """A name of its own next to path: two builds may want the same object at once."""
    return f"{path}.{os.getpid()}.{threading.get_ident()}.tmp"


_LOCKS, _LOCK = {}, threading.Lock()


def _compile(src, obj, flags):
    with _LOCK:
        lock = _LOCKS.setdefault(obj, threading.Lock())
    with lock:   # the other build may have made it meanwhile
        if os.path.exists(obj):
            return [], subprocess.CompletedProcess([], 0, "", "")
        return _compile1(src, obj, flags)


def _compile1(src, obj, flags):
    tmp = _aside(obj)
    cmd = [CXX, "-std=c++23", "-w", "-c", src, "-o", tmp, "-I" + os.path.join(REPO, "include"),
           "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "shim")] + flags
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    if r.returncode == 0:
        os.rename(tmp, obj)
    return cmd, r


def build(name, srcs=None, lib=(), flags=(), eigen=False, opt="-O1"):
    """Builds harness/<name>.cpp (+ library sources from /repo) and returns the binary's path.

    A compile error is a verdict: a public interface the property talks about no longer works."""
    hsrcs = [os.path.join(VERIF, "harness", s) for s in (srcs or [name + ".cpp"])]
    hdrs = [os.path.join(VERIF, "harness", f) for f in sorted(os.listdir(os.path.join(VERIF, "harness")))
            if f.endswith(".hpp")]
    fl = [opt] + list(flags)
    # headers that need neither the patched Eigen nor the shim use the system Eigen
    fl += ["-isystem", eigen_dir()] if (eigen or lib) else ["-isystem", "/usr/include/eigen3"]
    fl.append("-DSLEIPNIR_VERIF")
    srcs_all = hsrcs + [os.path.join(REPO, s) for s in lib]
    key = hashlib.sha256(("|".join(fl) + tree_hash() + _filehash(*hsrcs, *hdrs) + "|".join(srcs_all)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, f"{name}-{key}")
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    libkey = hashlib.sha256(("|".join(fl) + tree_hash()).encode()).hexdigest()[:16]
    libd = os.path.join(BUILD, "obj-" + libkey)
    os.makedirs(libd, exist_ok=True)
    jobs = []
    for s in srcs_all:
        base = libd if s.startswith(REPO + "/") else d
        o = os.path.join(base, hashlib.sha256(s.encode()).hexdigest()[:8] + "-" + os.path.basename(s) + ".o")
        jobs.append((s, o))
    todo = [(s, o) for s, o in jobs if not os.path.exists(o)]
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda so: _compile(so[0], so[1], fl), todo))
    for cmd, r in res:
        if r.returncode:
            if "error:" in r.stderr and "Killed" not in r.stderr:
                raise Violation(f"harness {name} no longer compiles against the library's interface",
                                {"kind": "compile", "cmd": cmd, "stderr": r.stderr[-6000:]})
            raise ToolError("compiler failed: " + r.stderr[-3000:])
    sanf = [f for f in fl if f.startswith("-fsanitize")]
    tmp = _aside(exe)
    r = subprocess.run([CXX, "-o", tmp] + [o for _, o in jobs] + sanf + ["-lpthread"],
                       capture_output=True, text=True, errors="replace")
    if r.returncode:
        if "undefined reference" in r.stderr or "multiple definition" in r.stderr:
            raise Violation(f"harness {name} no longer links against the library",
                            {"kind": "link", "stderr": r.stderr[-6000:]})
        raise ToolError("link failed: " + r.stderr[-3000:])
    os.rename(tmp, exe)
    return exe


NANOBIND = "/opt/vp/venv/lib/python3.12/site-packages/nanobind"


def build_pymodule(name, srcs, eigen=False, opt="-O0", flags=()):
    """Builds a Python extension module from the given sources with nanobind; returns the .so's path."""
    fl = [opt, "-fPIC", "-DSLEIPNIR_PYTHON=1", "-I" + NANOBIND + "/include", "-I" + NANOBIND + "/ext/robin_map/include",
          "-I/usr/include/python3.12", "-I" + os.path.join(REPO, "python/cpp"), "-isystem",
          eigen_dir() if eigen else "/usr/include/eigen3"] + list(flags)
    key = hashlib.sha256(("|".join(fl) + tree_hash() + "|".join(srcs) + _filehash(*srcs)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, f"{name}-{key}")
    so = os.path.join(d, name + ".so")
    if os.path.exists(so):
        return so
    os.makedirs(d, exist_ok=True)
    jobs = [(s, os.path.join(d, hashlib.sha256(s.encode()).hexdigest()[:8] + ".o")) for s in srcs + [NANOBIND + "/src/nb_combined.cpp"]]
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda so_: _compile(so_[0], so_[1], fl), jobs))
    for cmd, r in res:
        if r.returncode:
            if "error:" in r.stderr and "Killed" not in r.stderr:
                raise Violation(f"python module {name} no longer compiles", {"kind": "compile", "cmd": cmd, "stderr": r.stderr[-6000:]})
            raise ToolError("compiler failed: " + r.stderr[-3000:])
    tmp = _aside(so)
    r = subprocess.run([CXX, "-shared", "-o", tmp] + [o for _, o in jobs], capture_output=True, text=True, errors="replace")
    if r.returncode:
        raise ToolError("link failed: " + r.stderr[-3000:])
    os.rename(tmp, so)
    return so


def build_many(specs):
    """specs: list of kwargs for build(); built concurrently."""
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(lambda kw: build(**kw), specs))


# ---------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self):
        self.emitted = {}
        self.generated = 0
        self.distinct = 0
        self.output = ""
        self.ok = False

    def rows(self, tag):
        return self.emitted.get(tag, [])


def _short(out):
    ls = [l for l in out.splitlines() if not l.startswith(("Parsing file", "Semantic processing", "Linting of"))]
    for i, l in enumerate(ls):
        if l.startswith(("Error:", "***", "Semantic errors")):
            return "\n".join(ls[i:i + 40])[:3000]
    return "\n".join(ls[-20:])


def tlc(module, cfg=None, consts=None, workers=None, simulate=None, depth=None, seed=None, timeout=800,
        heap="6g", env=None, expect_ok=True, extra_files=None, java=()):
    """Runs TLC on spec/<module>.tla with spec/<cfg or module>.cfg. `consts` appends CONSTANT lines to the cfg.

    Lines printed as  @X<json>  (PrintT of a string) are collected under tag X."""
    spec = os.path.join(VERIF, "spec")
    work = tempfile.mkdtemp(prefix="tlc-")
    try:
        for f in os.listdir(spec):
            if f.endswith(".tla") or f.endswith(".cfg"):
                shutil.copy(os.path.join(spec, f), work)
        for k, v in (extra_files or {}).items():
            with open(os.path.join(work, k), "w") as fh:
                fh.write(v)
        cfgname = (cfg or module) + ".cfg"
        with open(os.path.join(work, cfgname)) as fh:
            text = fh.read()
        if consts:
            for k, v in consts.items():
                pat = re.compile(r"^(\s*(?:CONSTANTS?\s+)?)" + re.escape(k) + r"\s*(=|<-).*$", re.M)
                if pat.search(text):
                    text = pat.sub(lambda m: f"{m.group(1)}{k} {m.group(2)} {v}", text)
                else:
                    text += f"\nCONSTANT {k} = {v}\n"
        with open(os.path.join(work, cfgname), "w") as fh:
            fh.write(text)
        light = bool(workers and workers <= 2)   # many small runs side by side: cheap start-up matters
        cmd = ["java"] + (["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if light else ["-XX:+UseParallelGC"]) + ["-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + work] + list(java) + ["-cp", JARS, "tlc2.TLC",
               "-workers", str(workers or NCPU), "-metadir", os.path.join(work, "states"), "-noGenerateSpecTE",
               "-config", cfgname]
        if simulate:
            cmd += ["-simulate", f"num={simulate}"]
            if depth:
                cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd.append(module + ".tla")
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=work, capture_output=True, text=True, errors="replace", timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        res = TLCResult()
        keep = []
        for line in r.stdout.splitlines():
            if line.startswith('"@'):
                s = json.loads(line)
                res.emitted.setdefault(s[1], []).append(json.loads(s[2:]))
            else:
                keep.append(line)
        res.output = "\n".join(keep)
        m = re.findall(r"^([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", res.output, re.M)
        if m:
            res.generated = int(m[-1][0].replace(",", ""))
            res.distinct = int(m[-1][1].replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", res.output)
        if m:
            res.generated = int(m[-1].replace(",", ""))
        res.ok = r.returncode == 0
        if expect_ok and not res.ok:
            raise ToolError(f"TLC rejected the specification {module} (exit {r.returncode}):\n" + _short(res.output))
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


# ---------------------------------------------------------------- running harnesses
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=127",
           "UBSAN_OPTIONS": "print_stacktrace=0:exitcode=99", "TSAN_OPTIONS": "exitcode=66:halt_on_error=1"}


def run_harness(exe, lines, timeout=120, args=(), env=None, cwd=None):
    """Feeds lines on stdin; returns (list of output lines, returncode or 'timeout', stderr tail)."""
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(env or {})
    data = "\n".join(lines) + "\n"
    with tempfile.TemporaryFile("w+") as fo, tempfile.TemporaryFile("w+") as fe:
        p = subprocess.Popen([exe, *args], stdin=subprocess.PIPE, stdout=fo, stderr=fe, text=True, env=e, cwd=cwd)
        try:
            p.communicate(data, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        fo.seek(0)
        out = fo.read().splitlines()
        fe.seek(0)
        err = fe.read()
    if rc in (-9,) :
        raise ToolError("harness was killed (out of memory?)")
    return out, rc, err[-3000:]


def chunks(seq, n):
    k = max(1, (len(seq) + n - 1) // n)
    return [seq[i:i + k] for i in range(0, len(seq), k)]


class Case:
    """A self-contained script: commands and the expected output line for each (None = not compared)."""
    __slots__ = ("cmds", "exps", "label")

    def __init__(self, cmds, exps, label=None):
        self.cmds, self.exps, self.label = cmds, exps, label


def check_cases(exe, cases, compare=None, timeout=120, args=(), procs=NCPU, env=None, what="", on_mismatch=None):
    """Runs every case (each starts with a command that resets the harness), compares line by line.

    Returns number of commands compared. Raises Violation on a mismatch that a fresh run repeats.
    on_mismatch(case, index, expected, got) -> True if this is a listed known finding (case is then skipped)."""
    compare = compare or (lambda e, g, c: e == g)

    def run(cs):
        lines = [c for k in cs for c in k.cmds]
        out, rc, err = run_harness(exe, lines, timeout=timeout, args=args, env=env)
        i = 0
        bad = []
        for k in cs:
            for j, (c, e) in enumerate(zip(k.cmds, k.exps)):
                if i >= len(out):
                    bad.append((k, j, e, f"<no output: exit {rc}> " + err[-1500:], True))
                    return bad
                g = out[i]
                i += 1
                if e is not None and not compare(e, g, c):
                    bad.append((k, j, e, g, False))
                    break_at = j
                    i += len(k.cmds) - break_at - 1
                    break
        if rc != 0:
            bad.append((cs[-1], len(cs[-1].cmds) - 1, "<clean exit>", f"<exit {rc}> " + err[-1500:], True))
        return bad

    total = sum(len(k.cmds) for k in cases)
    groups = chunks(cases, procs) if procs > 1 else [cases]
    with ThreadPoolExecutor(procs) as ex:
        results = list(ex.map(run, groups))
    for gi, bad in enumerate(results):
        for (k, j, e, g, crashed) in bad:
            if on_mismatch and on_mismatch(k, j, e, g):
                continue
            # confirm alone, in a fresh process
            again = run([k])
            if not again and crashed:
                again = run(groups[gi])
            if not again:
                # history across resets matters: repeat the whole group
                again = run(groups[gi])
            if not again:
                raise ToolError(f"mismatch did not repeat ({what}): {k.cmds[:j+1][-5:]} expected {e} got {g}")
            k2, j2, e2, g2, _ = again[0]
            raise Violation(f"{what}: after {len(k2.cmds[:j2+1])} steps, command `{k2.cmds[j2]}`: expected `{str(e2)[:300]}` got `{str(g2)[:600]}`",
                            {"kind": "replay", "harness": os.path.basename(exe), "label": k2.label,
                             "commands": k2.cmds[:j2 + 1], "expected": [x for x in k2.exps[:j2 + 1]], "got": g2})
    return total


# ---------------------------------------------------------------- state-graph walks
class Graph:
    """Edges emitted by TLC: {f: state, a: action record, t: state}."""

    def __init__(self, rows, init=None):
        self.ids = {}
        self.states = []
        self.out = []
        seen = set()
        self.nedges = 0
        for r in rows:
            f, t = self._id(r["f"]), self._id(r["t"])
            k = (f, json.dumps(r["a"], sort_keys=True), t)
            if k in seen:
                continue
            seen.add(k)
            self.out[f].append((r["a"], t))
            self.nedges += 1
        for o in self.out:   # TLC's output order depends on worker scheduling
            o.sort(key=lambda e: (json.dumps(e[0], sort_keys=True), json.dumps(self.states[e[1]], sort_keys=True)))

    def _id(self, s):
        k = json.dumps(s, sort_keys=True)
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.states)
            self.states.append(s)
            self.out.append([])
        return i

    def id_of(self, s):
        return self.ids[json.dumps(s, sort_keys=True)]

    def cover(self, init, maxlen=400):
        """Walks from init covering every reachable edge."""
        from collections import deque
        start = self.id_of(init)
        ptr = [0] * len(self.states)
        walks = []
        # distance-to-init paths by BFS
        par = {start: None}
        dq = deque([start])
        order = []
        while dq:
            u = dq.popleft()
            order.append(u)
            for a, v in self.out[u]:
                if v not in par:
                    par[v] = (u, a)
                    dq.append(v)
        self.reachable = len(order)

        def path(u):
            p = []
            while par[u] is not None:
                q, a = par[u]
                p.append((a, u))
                u = q
            return p[::-1]
        for u in order[::-1] if False else order:
            while ptr[u] < len(self.out[u]):
                w = path(u)
                cur = u
                while len(w) < maxlen:
                    if ptr[cur] < len(self.out[cur]):
                        a, v = self.out[cur][ptr[cur]]
                        ptr[cur] += 1
                        w.append((a, v))
                        cur = v
                        continue
                    # short BFS to a state with uncovered edges
                    hop = self._hop(cur, ptr, 3)
                    if hop is None:
                        break
                    for (a, v) in hop:
                        w.append((a, v))
                        cur = v
                walks.append(w)
        return walks

    def _hop(self, u, ptr, depth):
        seen = {u}
        layer = [(u, ())]
        for _ in range(depth):
            nxt = []
            for x, p in layer:
                for a, v in self.out[x]:
                    if v in seen:
                        continue
                    seen.add(v)
                    q = p + ((a, v),)
                    if ptr[v] < len(self.out[v]):
                        return list(q)
                    nxt.append((v, q))
                    if len(seen) > 400:
                        return None
            layer = nxt
        return None

    def random_walks(self, init, n, length, rng):
        start = self.id_of(init)
        ws = []
        for _ in range(n):
            cur, w = start, []
            while len(w) < length and self.out[cur]:
                a, v = rng.choice(self.out[cur])
                w.append((a, v))
                cur = v
            ws.append(w)
        return ws


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as fh:
            for line in fh:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out


# ---------------------------------------------------------------- check driver
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.rng = random.Random(seed * 1000003 + int(hashlib.sha256(pid.encode()).hexdigest()[:6], 16))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.steps = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.hit = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def tlc(self, *a, **k):
        return self.count(tlc(*a, **k))

    def count(self, r):
        self.states += r.distinct or r.generated
        self.transitions += r.generated
        return r

    def tlc_many(self, jobs, par=4, workers=2, heap="2g", **kw):
        """jobs: list of (module, consts) or (module, consts, cfg); run concurrently, results in order."""
        with ThreadPoolExecutor(par) as ex:
            rs = list(ex.map(lambda j: tlc(j[0], consts=j[1], workers=workers,
                                           heap=heap, **kw), jobs))
        for r in rs:
            self.count(r)
        return rs

    def known(self, key):
        """True if `key` is a listed known finding of this property (remembered so that it is printed)."""
        for k, t in known_findings(self.pid):
            if k == key:
                self.hit.add(k)
                return True
        return False

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s if isinstance(s, (dict, list)) else str(s)[:1500])

    def cases(self, exe, cases, **k):
        n = check_cases(exe, cases, **k)
        self.traces += len(cases)
        self.steps += n
        for c in cases[:1]:
            self.sample({"commands": c.cmds[:12], "expected": c.exps[:12]})
        return n

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "implementation_steps_compared": self.steps,
               "samples": self.samples or ["none"]}
        cov.update(self.extra)
        d = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(d, fh, indent=1)


def main(pid, fn, tier, seed):
    ck = Check(pid, tier, seed)
    try:
        fn(ck)
    except Violation as v:
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, f"{pid}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "what": v.what, **v.replay}, fh, indent=1)
        ck.evidence(1)
        print(v.what[:3000])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    except ToolError as e:
        print("ERROR (machinery): " + str(e), file=sys.stderr)
        return 2
    for k, t in known_findings(pid):
        if k in ck.hit:
            print(f"KNOWN-FINDING: property={pid} {t}")
    ck.evidence(0)
    print(f"{pid} held: states={ck.states} transitions={ck.transitions} traces={ck.traces} "
          f"steps={ck.steps} wall={time.time()-ck.t0:.1f}s")
    return 0
