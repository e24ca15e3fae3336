"""P11: comparisons become element-wise constraints (spec/Mats.tla, menu "rel"); when they hold (spec/Truth.tla)."""
import core, mats, num


def truth(ck, count):
    exe = core.build("p11_truth", lib=core.AD_SRC, eigen=True)
    rs = ck.tlc_many([("Truth", dict(SEED=ck.seed % 400, LO=k * count // 4 + 1, HI=(k + 1) * count // 4)) for k in range(4)], par=4, workers=1)
    cases = []
    for v in (v for r in rs for v in r.rows("V")):
        n = lambda x: num.f(num.dy(x))
        cmd = f"{v['op']} {v['kind']} {len(v['l'])} " + " ".join(f"{n(a)} {n(b)}" for a, b in zip(v["l"], v["r"])) + " " + " ".join(n(x) for x in v["b"])
        b = "01"
        cases.append(core.Case([cmd], [f"{''.join(b[t] for t in v['t'])} {b[v['all']]} {b[v['all']]} {b[v['bound']] * 2}"]))
    cases.sort(key=lambda c: c.cmds)
    ck.cases(exe, cases, what="truth of a comparison")


def run(ck):
    truth(ck, 40000 if ck.thorough else 8000)
    mats.run(ck, "rel", *((12000, 50) if ck.thorough else (1500, 30)), what="constraint program")
