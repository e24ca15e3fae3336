"""Driving the three solvers through their function-object interface (harness/p14_solve.cpp) and judging what they did
with spec/SolverTrace.tla. Used by P13, P14, P16 and P27, each looking at the rejections that name it."""
import json, os, subprocess
import core

LIB = ["src/optimization/solver/newton.cpp", "src/optimization/solver/sqp.cpp", "src/optimization/solver/interior_point.cpp"]


def exe(asan=True):
    return core.build("p14_solve", lib=LIB, flags=core.ASAN if asan else [], eigen=True)


def poly(ts):
    return f"{len(ts)} " + " ".join(f"{t['c'] / 2!r} {len(t['f'])} " + " ".join(f"{w} {k}" for w, k in t["f"]) for t in ts)


def line(v, cap=200000):
    vec = lambda a: f"{len(a)} " + " ".join(map(str, a))
    return " ".join(["solve", v["kind"], str(v["n"]), str(v["me"]), str(v["mi"]), vec([x / 2 for x in v["x"]]), "1e-8", str(v["maxit"]),
                     "inf" if v["tmo"] < 0 else repr(v["tmo"] / 4), str(int(v["feas"])), repr(v["te"] / 4), repr(v["tc"] / 4), vec(v["stops"]),
                     str(int(v["full"])), str(int(v["ident"])), str(int(v["diag"])), repr(v["df"] / 16), vec([d / 4 for d in v["de"]]), vec([d / 4 for d in v["di"]]),
                     poly(v["f"]), *map(poly, v["ce"]), *map(poly, v["ci"]), str(len(v["faults"])),
                     *[f"{q['fn']} {q['nth']} {q['val']} {q['entry']} {q['len']}" for q in v["faults"]], str(cap)])


def scenarios(ck, count, per=2000):
    jobs = [("SolverCases", dict(SEED=ck.seed % 400, LO=a, HI=min(a + per, count + 1) - 1)) for a in range(1, count + 1, per)]
    rows = []
    for r in ck.tlc_many(jobs):
        rows += sorted(r.rows("V"), key=lambda v: v["i"])
    for v in rows:
        if v["kind"] == "ipm" and not v["full"]:
            pass
    return rows


def drive(path, lines, par=8, timeout=600):
    """Runs the lines in chunks; a crash is located by the line whose answer is missing."""
    from concurrent.futures import ThreadPoolExecutor
    chunks = [lines[k::par] for k in range(par)]

    def one(ls):
        if not ls:
            return []
        p = subprocess.run([path], input="\n".join(ls) + "\n", capture_output=True, text=True, errors="replace", timeout=timeout,
                           env=dict(os.environ, **core.SAN_ENV))
        out = p.stdout.splitlines()
        if p.returncode or len(out) != len(ls):
            bad = ls[len(out)] if len(out) < len(ls) else "?"
            raise core.Violation(f"the solver crashed (exit {p.returncode})", {"kind": "crash", "commands": [bad], "stderr": p.stderr[-4000:]})
        return out
    with ThreadPoolExecutor(par) as ex:
        res = list(ex.map(one, chunks))
    out = [None] * len(lines)
    for k in range(par):
        out[k::par] = res[k]
    return [json.loads(o) for o in out]


def trace(v, o):
    return {"c": {"kind": v["kind"], "n": v["n"], "me": v["me"], "mi": v["mi"], "nc": v["nc"], "maxit": v["maxit"], "tmo": v["tmo"], "slack": 12 * v["te"],
                  "feas": int(v["feas"]), "bad": o["bad"], "conv0": o["conv0"], "known": o["have"], "diag": int(v["diag"])},
            "ev": o["ev"], "end": {k: o[k] for k in ("st", "it", "errok", "feasok", "blown", "costok", "t")}}


def judge(ck, pid, rows, outs, lines):
    """Runs the monitor over the recorded solves; raises for rejections naming this property."""
    traces = [trace(v, o) for v, o in zip(rows, outs)]
    n = 8
    import concurrent.futures as cf

    def one(k):
        part = traces[k::n]
        if not part:
            return []
        r = core.tlc("SolverTrace", workers=1, heap="2g", extra_files={"traces.ndjson": "\n".join(map(json.dumps, part)) + "\n"})
        ck.count(r)
        return [((x["i"] - 1) * n + k, x["rej"]) for x in r.rows("R")]
    with cf.ThreadPoolExecutor(n) as ex:
        rej = [y for ys in ex.map(one, range(n)) for y in ys]
    ck.traces += len(traces)
    ck.steps += sum(len(t["ev"]) + 1 for t in traces)
    for k in range(0, len(traces), max(1, len(traces) // 4)):
        ck.sample({"command": lines[k], "events": traces[k]["ev"][:6], "end": traces[k]["end"]})
    ck.extra["statuses"] = {str(s): sum(o["st"] == s for o in outs) for s in sorted({o["st"] for o in outs})}
    ck.extra["solves_with_restoration_rounds"] = sum(any(len(e) > 3 and e[8] for e in o["ev"]) for o in outs)
    ck.extra["printed_rows"] = {n: sum(len(e) == 3 and e[1] == k for o in outs for e in o["ev"]) for k, n in enumerate(("ordinary", "correction", "restoration"))}
    mine = [(k, [x for x in rs if x.startswith(pid)]) for k, rs in rej]
    mine = [(len(traces[k]["ev"]), k, rs) for k, rs in mine if rs]
    if mine:
        _, k, rs = min(mine)
        raise core.Violation(f"{'; '.join(rs)} (and {len(mine) - 1} more solves)", {"kind": "solve", "reasons": rs, "commands": [lines[k]], "scenario": rows[k], "trace": traces[k], "result": outs[k]})
    return rej


def contract(ck, bugs=()):
    """TLC: the abstract solver satisfies the contract and always ends; planted faults are noticed."""
    r = ck.tlc("Solver")
    if ck.thorough:
        ck.tlc("Solver", consts=dict(NCS="{0, 1, 3}", MAXITS="{1, 4}"))
    for b in bugs:
        r = core.tlc("Solver", consts=dict(BUG=f'"{b}"'), expect_ok=False)
        if "Accepted is violated" not in r.output:
            raise core.ToolError(f"the monitor does not notice {b}")


BUGS = ["restart-clock", "nan-success", "late-limit", "inner-data", "stop-swallowed", "leave-feasible", "repeat-iteration", "no-reduction", "diverge-on", "row-missing", "row-number"]


def run(ck, pid, count, asan=False):
    path = exe(asan)
    contract(ck, BUGS if ck.thorough else ())
    rows = scenarios(ck, count)
    for v in rows:
        if v["kind"] == "ipm" and not v["ident"]:
            v["full"] = True     # without multipliers the caller cannot choose the barrier parameter for a scaled cost
        v["diag"] = v["nc"] > 0 and (v["diag"] or pid == "P30")
    lines = [line(v) for v in rows]
    outs = drive(path, lines)
    judge(ck, pid, rows, outs, lines)
    ck.assumptions.append("at most 4 variables and constraints, sums of products of elementary factors; feasible mode and reduction are judged outside the restoration phase")
    return rows, outs, lines
