"""P24: multistart under every completion order (spec/Multistart.tla)."""
import core

# the specification orders costs and names failures by small numbers
COST = ["-inf", "-3.5", "0", "1e-3", "7", "inf"]
STATUS = [0, -1, -2, -3, -4, -5, -6, -7, -8, -9, -10, 1]
ALL = "{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}"


def cmp(e, g, c):
    t = g.split("|")
    if len(t) != 3:
        return False
    st, co, i, ok = t[0].split()
    out, best = e
    i = int(i) - 100
    return (i + 1 in best and int(st) == STATUS[out[i][0]] and (abs(float(co) - float(COST[out[i][1]])) < 1e-6 or co == COST[out[i][1]]) and ok == "1"
            and t[1].split() == ["1"] * len(out) and int(t[2]) == len(out))


def make(ck, jobs, cap, heads):
    cases = []
    for j, r in zip(jobs, ck.tlc_many(jobs)):
        rows = sorted(r.rows("M"), key=str)
        if len(rows) > cap:
            rows = ck.rng.sample(rows, cap)
        for k, x in enumerate(rows):
            cmd = f"{heads[k % len(heads)]} {len(x['o'])} " + " ".join(f"{STATUS[s]} {COST[c]}" for s, c in x["o"]) + " " + " ".join(str(q - 1) for q in x["q"])
            cases.append(core.Case([cmd], [(x["o"], x["b"])], {"outcomes": x["o"], "completion order": x["q"]}))
    return cases


def run(ck):
    exe = core.build("p24_multi", eigen=True, flags=core.TSAN)
    jobs = [("Multistart", dict(N=1, Failures=ALL)), ("Multistart", dict(N=2, Failures=ALL, Costs="{0, 1, 3, 5}")),
            ("Multistart", dict(N=3, Failures="{1, 11}", Costs="{1, 4, 5}")), ("Multistart", dict(N=4, Failures="{3}", Costs="{0, 3}"))]
    if ck.thorough:
        jobs += [("Multistart", dict(N=3, Failures="{1, 2, 11}", Costs="{0, 2, 3, 5}")), ("Multistart", dict(N=5, Failures="{9}", Costs="{2, 3}"))]
    n = 3000 if ck.thorough else 400
    jobs += [("MultistartBig", dict(LO=a, HI=a + n // 4 - 1, SEED=ck.seed % 400)) for a in range(1, n + 1, n // 4)]
    cases = make(ck, jobs, 60000 if ck.thorough else 5000, "df")
    ck.cases(exe, cases, compare=cmp, what="multistart", timeout=600)
    ck.assumptions += ["costs are numbers (NaN is not ordered)", "at least one guess"]
