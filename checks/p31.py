"""P31: the Python package against the same specifications as the C++ library (Mats, Problem, Multistart, PyCall, PyLife)."""
import glob, json, math, os, shutil
from fractions import Fraction
import core, mats, p12, p23, p24

VENV_PY = "/opt/veriftools/pyvenv/bin/python"


def package():
    """the extension module and the Python sources, laid out as the installed package"""
    srcs = sorted(glob.glob(core.REPO + "/python/cpp/**/*.cpp", recursive=True)) + sorted(glob.glob(core.REPO + "/src/**/*.cpp", recursive=True))
    so = core.build_pymodule("_sleipnir", srcs + [os.path.join(core.VERIF, "harness", "p31_clock.cpp")], eigen=True, opt="-O0")
    pkg = os.path.join(os.path.dirname(so), "pkg")
    shutil.rmtree(pkg, ignore_errors=True)
    shutil.copytree(os.path.join(core.REPO, "python", "src"), pkg, ignore=shutil.ignore_patterns("__pycache__"))
    os.link(so, os.path.join(pkg, "sleipnir", "_sleipnir.so"))
    return pkg


def no_null(x):
    return [no_null(y) for y in x] if isinstance(x, list) else None if x == 99999 else x


def mats_cases(rows, nm=4, nv=4, nc=4):
    out = []
    for r in rows:
        cmds = [f"N {nm} {nv} {nc} {r['m'] % 97} " + " ".join(map(str, r["v"]))]
        exps = ["ok"]
        for a, e in r["log"]:
            cmds.append("M " + json.dumps(no_null(a), separators=(",", ":")))
            exps.append((("ask" if a[0] == "ask" else "dump"), e) if a[0] in ("ask", "dump", "peek") else "ok")
        cmds.append("end")
        exps.append("0")
        out.append(core.Case(cmds, exps, {"program": r["m"]}))
    return out


def problem_cases(ck, count, length):
    """histories without the calls that Python does not have (persistent callbacks); a move or a copy is nothing Python can see"""
    out = []
    for k, c in enumerate(p12.cases(ck, count, length)):
        if any(x.startswith("pcb ") for x in c.cmds):
            continue
        cmds, exps = [f"seed {ck.seed * 100003 + k}"], ["ok"]
        for x, e in zip(c.cmds, c.exps):
            cmds.append("new" if x == "new" else "P " + x)
            exps.append(e)
        out.append(core.Case(cmds, exps, c.label))
    return out


def life_cases(rows):
    out = []
    for r in rows:
        cmds, exps = ["life"], ["ok"]
        for a in r["log"]:
            cmds.append("L " + json.dumps(a, separators=(",", ":")))
            exps.append(a[2] if a[0] == "read" else "ok")
        out.append(core.Case(cmds, exps, {"program": r["m"]}))
    return out


def life_cmp(e, g, c):
    return g == e if e == "ok" else g.startswith("[") and json.loads(g) == e


def formulas(row):
    """the row's formulas at its arguments"""
    ns = {n: getattr(math, n) for n in ("acos", "asin", "atan", "atan2", "cbrt", "cos", "cosh", "erf", "exp", "hypot", "log", "sin", "sinh", "sqrt", "tan", "tanh", "pi")}
    ns.update(abs=abs, max=max, min=min, sign=lambda t: (t > 0) - (t < 0))
    for n, o in zip("xyz", row["args"]):
        ns[n] = float(Fraction(o["v"]))
    ev = lambda t: float(eval(t, {"__builtins__": {}}, ns))
    if row["out"] in ("eq", "ge"):
        return bool(eval(row["val"], {"__builtins__": {}}, ns)), []
    return ev(row["val"]), [ev(t) if o["k"] not in ("int", "float", "np") else None for t, o in zip(row["d"], row["args"])]


def near(a, b):
    return isinstance(a, (int, float)) and abs(a - b) <= 2e-14 * max(1e-3, abs(b))


def call_cmp(e, g, c):
    row, (val, ds) = e
    if not g.startswith("{"):
        return False
    g = json.loads(g)
    if g["kind"] != row["out"]:
        return False
    if row["out"] in ("eq", "ge"):
        return g["v"] == val
    n = 1 if row["out"] == "var" else 4
    if g["shape"] != ([1, 1] if n == 1 else [2, 2]) or not all(near(v, val) for v in g["v"]):
        return False
    for o, d, got in zip(row["args"], ds, g["d"]):
        want = [[] for _ in range(n)] if d is None else [[d if i == j else 0.0 for j in range(n)] for i in range(n)]
        if len(got) != n or any(len(a) != len(b) or not all(near(p, q) for p, q in zip(a, b)) for a, b in zip(got, want)):
            return False
    return True


def call_cases(rows):
    return [core.Case(["call " + json.dumps({"fn": r["fn"], "args": r["args"]}, separators=(",", ":"))], [(r, formulas(r))], r) for r in rows]


def ocp_cases(cs):
    """dynamics that take the time and the time step are not offered in Python"""
    out = []
    for c in cs:
        if c.cmds[0].startswith("new") and c.cmds[0].split()[7] == "1":
            continue
        keep = [(x, e) for x, e in zip(c.cmds, c.exps) if x != "each 1"]
        out.append(core.Case(["O " + x for x, _ in keep], [e for _, e in keep], c.label))
    return out


def names_cmp(e, g, c):
    """only the exit statuses have published numbers; the others' names stand for different things"""
    if not g.startswith("{"):
        return False
    g = json.loads(g)
    return sorted(g) == sorted(e["n"]) and (g == dict(zip(e["n"], e["v"])) if e["e"] == "ExitStatus" else len(set(g.values())) == len(g))


def option_cmp(e, g, c):
    if not g.startswith("{"):
        return False
    g = json.loads(g)
    if "r" in e:
        d = math.hypot(*e["t"])
        w = e["r"] / d if d > e["r"] else 1.0
        return g["st"] == 0 and g["low"] >= 0 and all(abs(x - t * w) < 1e-3 for x, t in zip(g["x"], e["t"]))
    last = e["it"] + (1 if e["st"] == 1 else 0)
    return g["st"] == e["st"] and abs(g["x"] - (2 / 3) ** e["it"]) < 1e-9 and g["seen"] == list(range(last)) and g["refused"]


def run(ck):
    args = [os.path.join(core.VERIF, "harness", "p31_py.py"), package()]
    env = {"PYTHONDONTWRITEBYTECODE": "1", "OPENBLAS_NUM_THREADS": "1"}
    rs = []
    for mode, n in (("view", 1200 if ck.thorough else 250), ("alg", 1200 if ck.thorough else 250), ("rel", 1200 if ck.thorough else 250)):
        rs += mats.rows(ck, n, 40 if ck.thorough else 30, mode, shards=2)
    ck.cases(VENV_PY, mats_cases(rs), compare=mats.compare, args=args, env=env, what="matrix program in Python", timeout=600)
    n = 12000 if ck.thorough else 900
    rows = []
    for r in ck.tlc_many([("PyLife", dict(LO=a, HI=a + n // 3 - 1, SEED=ck.seed % 400)) for a in range(1, n + 1, n // 3)]):
        rows += r.rows("L")
    rows.sort(key=lambda r: r["m"])
    ck.cases(VENV_PY, life_cases(rows), compare=life_cmp, args=args, env=env, what="lifetimes of Python objects", timeout=600)
    rows = sorted(ck.tlc("PyCall").rows("C"), key=str)
    ck.cases(VENV_PY, call_cases(rows), compare=call_cmp, args=args, env=env, what="function of Python values", timeout=600)
    ck.cases(VENV_PY, ocp_cases(p23.cases(ck, 8000 if ck.thorough else 1000)), compare=p23.compare, args=args, env=env, what="optimal control in Python", timeout=600)
    n = 6000 if ck.thorough else 900
    cs = [core.Case(["diff " + json.dumps(v["c"], separators=(",", ":"))], [v["ans"]], v["c"])
          for r in ck.tlc_many([("PyDiff", dict(LO=a, HI=a + n // 3 - 1, SEED=ck.seed % 400)) for a in range(1, n + 1, n // 3)]) for v in sorted(r.rows("D"), key=lambda v: v["c"]["i"])]
    ck.cases(VENV_PY, cs, compare=lambda e, g, c: g.startswith("[") and json.loads(g) == e, args=args, env=env, what="derivatives in Python", timeout=600)
    res = ck.tlc("PyOptions")
    ck.cases(VENV_PY, [core.Case(["names " + r["e"]], [r], r) for r in res.rows("N")],
             compare=names_cmp, args=args, env=env, what="enumerators in Python", timeout=60)
    rows = sorted(res.rows("O"), key=str)
    cs = [core.Case(["options " + json.dumps(r)], [r], r) for r in rows]
    cs += [core.Case(["feasible " + json.dumps(r)], [r], r) for r in ({"r": r, "t": [a, b, c]} for r in (1, 3) for a in (-7, 0, 2, 9) for b in (-1, 5) for c in (0, 8))]
    ck.cases(VENV_PY, cs, compare=option_cmp, args=args, env=env, what="keyword arguments of solve()", timeout=600)
    cs = []
    for r in ck.tlc_many([("PyLin", dict(LO=1, HI=5000 if ck.thorough else 600, SEED=ck.seed % 400))]):
        for v in sorted(r.rows("A"), key=lambda v: v["i"]):
            want = v["X"] if v["k"] == "solve" else [[x / 2 for x in w] for w in v["X2"]] if v["k"] == "exp" else [[v["ty"]]]
            cs.append(core.Case(["lin " + json.dumps(v, separators=(",", ":"))], [want], v))
    close = lambda e, g: len(e) == len(g) and all(len(a) == len(b) and all(abs(p - q) < 1e-9 for p, q in zip(a, b)) for a, b in zip(e, g))
    ck.cases(VENV_PY, cs, compare=lambda e, g, c: g.startswith("[") and close(e, json.loads(g)), args=args, env=env, what="linear algebra in Python", timeout=600)
    jobs = [("Multistart", dict(N=2, Failures=p24.ALL, Costs="{0, 1, 3, 5}")), ("Multistart", dict(N=3, Failures="{1, 11}", Costs="{1, 4}"))]
    n = 600 if ck.thorough else 120
    jobs.append(("MultistartBig", dict(LO=1, HI=n, SEED=ck.seed % 400)))
    ck.cases(VENV_PY, p24.make(ck, jobs, 3000 if ck.thorough else 300, ["multi"]), compare=p24.cmp, args=args, env=env, what="multistart in Python", timeout=600)
    why = []
    cs = problem_cases(ck, 6000 if ck.thorough else 1200, 12)
    try:
        ck.cases(VENV_PY, cs, compare=lambda e, g, c: p12.compare(e, g, c, why, None), args=args, env=env, what="problem history in Python", timeout=600)
    except core.Violation as e:
        raise core.Violation(e.what + (" -- " + why[-1][1] if why else ""), e.replay)
