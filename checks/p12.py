"""P12: the problem's structure decides classification and solver; what each call of the interface does (spec/Problem.tla)."""
import json, re
import core


def cases(ck, count, length, per=500):
    rs = ck.tlc_many([("Problem", dict(SEED=ck.seed % 400, LO=a, HI=min(count, a + per - 1), LEN=length)) for a in range(1, count + 1, per)])
    out = []
    for v in sorted((v for r in rs for v in r.rows("V")), key=lambda v: v["i"]):
        cmds, exps = ["new"], ["ok"]
        for h in v["hist"]:
            op = h["op"]
            e = "ok"
            if op in ("dv", "dm", "ds"):
                cmd = " ".join([op] + [str(h[k]) for k in ("r", "c") if k in h])
                e = "zero 1"
            elif op in ("set", "odd"):
                cmd = f"set {h['k']} {h['x']}"
            elif op == "par":
                cmd = f"par {h['x']}"
            elif op == "cost":
                c = h["c"]
                cmd = " ".join(map(str, ["cost", c["form"], c["sense"], int(c["par"]), h["style"], len(c["w"])] + c["w"] + c["a"]))
            elif op in ("eq", "in"):
                cmd = " ".join(map(str, [op, len(h["cs"]), h["style"]] + [x for c in h["cs"] for x in (c["form"], c["k"], c.get("e", c.get("b")), int(c.get("ge", 0)))]))
            elif op in ("cb", "pcb"):
                cmd = f"{op} {h['c']['id']} {h['c']['kind']} {h['c']['at']}"
            elif op == "solve":
                e = dict(h["e"], lim=h["lim"], spy=h["spy"])
                cmd = f"solve {h['style']} {e['ne']} {e['ni']} {e['lim']['kind']} {e['lim']['at']} {len(e['spy'])} {len(h['reset'])} {' '.join(map(str, h['reset']))}"
            elif op == "sym":
                cmd, e = f"sym {h['r']}", h
            elif op == "types":
                cmd, e = "types", h["e"]
            else:
                cmd = op
            cmds.append(cmd)
            exps.append(e)
        out.append(core.Case(cmds, exps, {"case": v["i"]}))
    return out


def log_problem(e, o):
    """callbacks: in order, every iteration, consecutive from zero, none after a stop"""
    it = -1
    pos = 0
    cbs = e["cbs"]
    L = [(o["log"][k], o["log"][k + 1]) for k in range(0, len(o["log"]), 2)]
    for k, (i, c) in enumerate(L):
        if pos == 0:
            it += 1
        if i != it:
            return f"iteration number {i} where {it} was due"
        if c != cbs[pos]["id"]:
            return f"callback {c} ran where {cbs[pos]['id']} was due"
        ends = cbs[pos]["kind"] in "sx" and cbs[pos]["at"] == it
        if ends:
            if k != len(L) - 1:
                return "callbacks ran after the solve was stopped"
            return None if o["st"] == (1 if cbs[pos]["kind"] == "s" else 99) else f"status {o['st']} after callback {c} stopped the solve"
        pos = (pos + 1) % len(cbs)
    if pos:
        return "not every callback ran"
    if o["st"] in (1, 99):
        return f"status {o['st']} although nothing asked to stop"


def recording(data):
    """decodes a sparsity recording: header and frames (None if it does not follow the layout)"""
    pos = 0

    def u():
        nonlocal pos
        pos += 4
        if pos > len(data):
            raise ValueError
        return int.from_bytes(data[pos - 4:pos], "little", signed=True)

    def s():
        nonlocal pos
        n = u()
        pos += n
        return data[pos - n:pos].decode()
    try:
        head, frames = [s(), s(), s(), u(), u()], []
        while pos < len(data):
            f = []
            for _ in range(u()):
                r, c = u(), u()
                f.append([r, c, {43: 1, 45: -1, 48: 0}[data[pos]]])
                pos += 1
            frames.append(f)
        return head, frames
    except (ValueError, KeyError, IndexError):
        return None


def cut_short(e, o):
    """a limited or recorded solve against the same solve run freely; returns a breach, the rule and the solve's own status"""
    rule = e["lim"]["free"][str(min(o["free"], 7))]      # the free solve began o["free"] iterations
    ends, rounds = (rule["ends"], rule["rounds"]) if o["free"] <= 7 or rule["st"] == "limit" else ([o["free"]], o["free"])
    lim = {"it": -9, "time": -10, "none": o["fst"]}[e["lim"]["kind"]]
    st = {"limit": [lim], "own": [o["fst"]], "either": [o["fst"], lim] if o["fst"] < 0 or e["lim"]["kind"] == "time" else [o["fst"]]}[rule["st"]]
    if o["st"] not in st:
        return "P14" if e["lim"]["kind"] != "none" else "P25", f"status {o['st']}, expected {st}: the free solve began {o['free']} iterations"
    if not set(ends) & set(o["at"]):
        return "P12" if not e["spy"] or e["lim"]["kind"] != "none" else "P25", f"the values left are those of iterates {o['at']}, not {ends}"
    if e["spy"]:
        files = e["spy"][0]
        if o["free"] == 0 and o["fst"] in (0, -1, -3, -7):
            if not files and o["spy"]:
                return "P25", "recordings of a solve that did not run"
            if not o["spy"]:
                return None
        if set(o["spy"]) != {f["file"] for f in files}:
            return "P25", f"files {sorted(o['spy'])}"
        for f, pats in zip(files, o["pat"]):
            r = recording(bytes.fromhex(o["spy"][f["file"]]))
            if r is None or r[0] != [f["title"], f["rl"], "Decision variables", f["rows"], e["n"]]:
                return "P25", f"{f['file']} is malformed: {r and r[0]}"
            if [sorted(x) for x in r[1]] != [sorted(x) for x in pats[:rounds]]:
                return "P25", f"{f['file']} has {len(r[1])} entries for {rounds} iterations, or other entries than the iterations' matrices"


INF = 1000000      # of the specification
NAMES = ["no", "constant", "linear", "quadratic", "nonlinear"]
STATUS = {0: "success", 1: "callback requested stop", -1: "too few degrees of freedom", -2: "locally infeasible", -4: "factorization failed",
          -5: "line search failed", -6: "feasibility restoration failed", -7: "nonfinite initial guess", -8: "diverging iterates",
          -9: "max iterations exceeded", -10: "timeout"}


def report_problem(e, o):
    """the printed problem structure, the rows of the iteration table and the final status"""
    t = o["text"]
    plural = lambda n, s: f"1 {s}" if n == 1 else f"{n} {s}s"
    for k, w in (("ft", "cost function"), ("et", "equality constraints"), ("it", "inequality constraints")):
        if f" {NAMES[e[k]]} {w}\n" not in t:
            return f"report does not say: {NAMES[e[k]]} {w}"
    lists = {"e": [], "i": []}
    at = None
    for l in t.split("\n"):
        if re.fullmatch(r"\d+ equality constraints?", l):
            at = "e"
        elif re.fullmatch(r"\d+ inequality constraints?", l):
            at = "i"
        elif at and (m := re.fullmatch(r"  ↳ (\d+) (\w+)", l)):
            lists[at].append([int(m[1]), m[2]])
        elif at:
            at = None
    for k, c in (("e", e["ec"]), ("i", e["ic"])):
        if lists[k] != [[n, w] for n, w in zip(c, NAMES[1:]) if n]:
            return f"constraint counts {lists[k]}, expected {c}"
    for n, w in ((e["n"], "decision variable"), (e["ne"], "equality constraint"), (e["ni"], "inequality constraint")):
        if f"\n{plural(n, w)}\n" not in t:
            return "report does not say: " + plural(n, w)
    if ("requested stop" in t) != bool(e["cbs"] or e["lim"]["kind"] == "time"):     # a slow callback stands for the passing of time
        return "exit conditions and callbacks disagree"
    if o["exit"] and o["exit"].strip() != STATUS.get(o["st"]):
        return f"printed exit `{o['exit']}` for status {o['st']}"
    if not o["exit"] and e["out"] in ("good", "few", "delicate", "bad") and o["st"] != 99:
        return "no exit status printed"
    rows = [r for r in o["rows"]]
    its = sorted(set(rows))
    if rows != sorted(rows) or its != list(range(len(its))):
        return f"iteration rows {rows[:40]}"
    if o["log"]:
        last = o["log"][-2]
        if len(its) not in (last, last + 1):
            return f"{len(its)} iterations shown, {last + 1} began"


def judge(e, o, want=None, tol=2e-3):
    if "sol" in e and "r" in e:
        ok = o["st"] == 0 and o["n"] == e["n"] and len(o["m"]) == len(e["sol"]) and all(abs(a - b) < 1e-3 for a, b in zip(o["m"], e["sol"]))
        return None if ok or want not in (None, "P12") else ("P12", "the symmetric matrix does not have one variable per unordered index pair")
    if "free" in o and want in (None, "P12", "P14", "P25"):
        r = cut_short(e, o)
        if r and (want is None or r[0] == want):
            return r
    r = report_problem(e, o) if want == "P30" and o.get("text") else None
    if r:
        return "P30", r
    r = judge_(e, o, tol)
    return r if r and (want is None or r[0] == want) else None


def judge_(e, o, tol):
    if o["types"] != [e["ft"], e["et"], e["it"]]:
        return "P12", f"types {o['types']}"
    if "st" not in o:
        return None
    st, out = o["st"], e["out"]
    if e["n"] and o["par"] != e["p"] or o["par"] != e["p"]:
        return "P12", "a variable outside the problem changed"
    if "Invoking" in o["text"]:
        if f"Invoking {e['solver']} solver" not in o["text"]:
            return "P12", "solver other than " + e["solver"]
    if not o["dims"]:
        return "P13", "data of the wrong dimensions"
    if not o["init"]:
        return "P13", "the first iteration does not start at the variables' values"
    bad = log_problem(e, o)
    if bad:
        return "P13", bad
    ran = bool(o["log"])
    if out in ("noop", "few", "clash", "clashfew", "odd"):
        if ran:
            return "P12", "iterations ran although there was nothing to iterate on"
        if not o["same"]:
            return "P12", "values changed although no iteration ran"
        want = {"noop": [0], "few": [-1], "clash": [-3], "clashfew": [-3, -1], "odd": [-7]}[out]
        return None if st in want else ("P12", f"status {st}, expected {want}")
    if e["cbs"] and not ran and (not o["same"] or st in (-9, -10) and [e["lim"]["kind"], e["lim"]["at"]] != ["it", 0]):
        return "P13", "iterations ran without any callback"
    if st in (1, 99):
        return None
    if out == "bad":
        return ("P12", "success on a problem without solution") if st == 0 else None
    if out == "good" and st in (-9, -10) and e["lim"]["kind"] != "none":
        return None     # cut_short() tells
    if out == "good" and st != 0:
        return "P15", f"status {st} on a convex problem with a solution"
    if st != 0 or out == "any":
        return None
    for k, (x, w) in enumerate(zip(o["x"], e["sol"])):
        how, val, lo, hi, fixed = w
        lo, hi = (-float("inf") if lo <= -INF else lo), (float("inf") if hi >= INF else hi)
        if out == "delicate" and not fixed and how != "in":
            continue     # dependent constraints: multipliers, and with them the scaled error, may be arbitrary
        if isinstance(x, str) or (how == "is" and abs(x - val) > tol) or (how == "abs" and abs(abs(x) - val) > tol) or (how == "in" and not lo - tol <= x <= hi + tol):
            return "P12", f"variable {k} is {x}, expected {w}"
    return None


def compare(e, g, c, why, want):
    if isinstance(e, str):
        return e == g
    try:
        o = json.loads(g)
    except ValueError:
        return False
    r = judge(e, o, want)
    if r:
        why.append(r)
    return r is None


def run_histories(ck, count, length, want):
    exe = core.build("p12_problem", lib=core.LIB_SRC, eigen=True)
    why = []
    cs = cases(ck, count, length)
    try:
        ck.cases(exe, cs, compare=lambda e, g, c: compare(e, g, c, why, want), what="problem history")
    except core.Violation as e:
        if why:
            raise core.Violation(e.what + " -- " + why[-1][1], e.replay)
        raise


def run(ck):
    run_histories(ck, *((20000, 16) if ck.thorough else (4000, 12)), want="P12")
