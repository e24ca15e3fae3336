"""P30: printed reports tell the truth (spec/Diag.tla; spec/Problem.tla for whole solves; spec/SolverTrace.tla for the iteration rows)."""
import math, re
import core, p12, solves

SUP = str.maketrans("⁰¹²³⁴⁵⁶⁷⁸⁹⁻", "0123456789-")


def reports(ck):
    exe = core.build("p30_diag", eigen=True)
    r = ck.tlc("Diag", consts=dict(NS=40000 if ck.thorough else 6000, SEED=ck.seed % 400))
    cases = []
    for v in r.rows("V"):
        k = v["k"]
        if k == "viol":
            cmd = f"viol {v['which']} {len(v['c'])} " + " ".join(repr(math.ldexp(x / 4, e)) for x, e in zip(v["c"], v["pw"]))
        elif k == "conf":
            cmd = f"conf {len(v['p'])} " + " ".join(f"{a} {b}" for a, b in v["p"])
        elif k == "hist":
            cmd = f"hist {v['w']} {v['num'] / 64}"
        elif k == "trace":
            cmd = f"trace {int(v['solve'])} {len(v['t'])} " + " ".join(f"{len(t)} " + " ".join(map(str, t)) for t in v["t"])
        elif k == "pow":
            cmd = f"pow {0 if v['zero'] else '1e%d' % v['e']}"
        else:
            cmd = f"iter {v['it']} {v['type']} {v['us']} {v['back']} {v['dual']} {v['amax'] / 64} " + " ".join(str(x / 4) for x in v["num"])
        cases.append(core.Case([cmd], [v]))
    cases.sort(key=lambda c: c.cmds)

    def cmp(v, g, c):
        k = v["k"]
        lines = [x for x in g.split("\t") if x]
        if k == "viol":
            rows = [re.findall(r"^\s*(\d+)/(\d+): (\S+) (=|≥) 0$", x) for x in lines]
            rows = [[int(x[0][0]), int(x[0][1]), float(x[0][2]), x[0][3]] for x in rows if x]
            return rows == [[a, b, math.ldexp(c_ / 4, e), "≥" if v["which"] == 2 else "="] for a, b, c_, e in v["rows"]]
        if k == "conf":
            return [[int(n) for n in re.findall(r"constraint (\d+)", x)] for x in lines if re.search(r"constraint \d", x)] == v["p"]
        if k == "hist":
            bar = "█" * v["full"] + (" ▏▎▍▌▋▊▉"[v["part"]] if v["part"] else "")
            return g.rstrip() == bar and len(g) == v["w"]
        if k == "trace":
            got = [re.fullmatch(r"│(.*?)\s+([\d.]+)%▕(.*)▏\s+([\d.]+)(?:\s+([\d.]+)\s+(\d+))?│", x) for x in lines if "%" in x]
            if len(got) != len(v["rows"]) or not all(got):
                return False
            for q, (m, r) in enumerate(zip(got, v["rows"])):
                name, pct, bar, tot, each, runs = m.groups()
                # times are cut to microseconds when shown
                T = v["rows"][0]["tot"]
                lo = 72 * max(0, r["tot"] - 1) // (T + 1) if T else r["e"]
                hi = 72 * (r["tot"] + 1) // (T - 1) if T and r["tot"] else r["e"]
                bars = [("█" * (e // 8) + (" ▏▎▍▌▋▊▉"[e % 8] if e % 8 else "")).ljust(9) for e in range(lo, min(hi, 72) + 1)]
                if name != f"part {q}" or abs(float(pct) * 100 - r["bp"]) > 1.5 + (20000 / T if T else 0) or bar not in bars or abs(float(tot) - r["tot"] / 1e3) > 1.6e-3:
                    return False
                if v["solve"] and (int(runs) != r["runs"] or abs(float(each) - (r["tot"] / r["runs"] / 1e3 if r["runs"] else 0)) > 1.6e-3):
                    return False
            return True
        if k == "pow":
            t = g.strip()
            if v["zero"]:
                return t == "0"
            return t == {0: "1", 1: "10"}.get(v["e"], t) and (v["e"] in (0, 1) or t[:2] == "10" and t[2:].translate(SUP) == str(v["e"]))
        head = [x for x in lines if "error" in x and "cost" in x]
        row = [x for x in lines if x.startswith("│")]
        if bool(head) != (v["it"] % 20 == 0) or len(row) != 1:
            return False
        f = row[0].strip("│").split()
        t = " sr"[v["type"]].strip()
        if (f[1] == t) if t else True:
            f = [f[0]] + f[2:] if t else f
        else:
            return False
        q = [x / 4 for x in v["num"]]
        w = [v["it"], v["us"] / 1e3, q[0], q[1], q[2], q[3], q[4], None, None, q[5], q[6], v["amax"] / 64 * 0.5 ** v["back"], v["dual"] / 4, v["back"]]
        return len(f) == len(w) and f[7] == "0" and f[8] == "10⁻⁴" and all(x is None or abs(float(y) - x) <= 6e-3 * abs(x) + 1e-9 for x, y in zip(w, f))
    ck.cases(exe, cases, compare=cmp, what="report")


def run(ck):
    reports(ck)
    p12.run_histories(ck, *((20000, 16) if ck.thorough else (3000, 12)), want="P30")
    solves.run(ck, "P30", 20000 if ck.thorough else 3000)
