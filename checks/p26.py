"""P26: vocabulary and printing (spec/Text.tla, spec/Print.tla)."""
import json, os, shutil, subprocess, tempfile
import core

PY = r'''
import sys, json
sys.path.insert(0, sys.argv[1])
import p26_py as m
tab = json.load(open(sys.argv[2]))
out = {}
for ty, es in tab.items():
    E = getattr(m, ty)
    for e in es:
        try:
            v = getattr(E, e["name"])
            ok = m.value(v) == e["value"] and v.name == e["name"] and v.value == e["value"]
        except Exception as ex:
            ok = False
        if not ok: out.setdefault("enum", []).append([ty, e["name"]])
    names = sorted(x for x in dir(E) if not x.startswith("_") and x.isupper())
    if names != sorted(e["name"] for e in es): out.setdefault("enum", []).append([ty, "names", names])
for e in tab["ExitStatus"]:
    try:
        if m.to(m.ExitStatus.SUCCESS, e["value"]).name != e["name"]: out.setdefault("enum", []).append(["from", e["name"]])
    except Exception as ex: out.setdefault("enum", []).append(["from", e["name"], repr(ex)])
def vec(v): return [float(x) for x in v]
def sp(M): return [[float(x) for x in r] for r in M.toarray()]
for (n, rows, me, mi) in [(3, 2, 1, 3), (2, 4, 0, 0), (4, 1, 2, 1), (1, 3, 3, 2)]:
    keep = []
    def cb(i):
        keep.append((i.iteration, i.x, i.s, i.y, i.z, i.g, i.H, i.A_e, i.A_i))
    m.run(n, rows, me, mi, cb)
    for k, t in enumerate(keep):
        S = lambda b, r, c: [[float(b + i + 10 * j + 1000 * k) if (i + j + k) % 2 == 0 else 0.0 for j in range(c)] for i in range(r)]
        want = (k, [1.0 + i + 1000 * k for i in range(rows)], [100.0 + i + 1000 * k for i in range(mi)],
                [200.0 + i + 1000 * k for i in range(me)], [300.0 + i + 1000 * k for i in range(mi)])
        got = (t[0],) + tuple(vec(v) for v in t[1:5])
        if want != got: out.setdefault("info", []).append([want, got])
        g = sp(t[5])
        wg = [700.0 + i + 1000 * k if (i + k) % 2 else 0.0 for i in range(rows)]
        fl = [x for r in g for x in r]
        if fl != wg: out.setdefault("info", []).append(["g", wg, fl])
        for nm, M, w in (("H", t[6], S(400, rows, rows)), ("A_e", t[7], S(500, me, rows)), ("A_i", t[8], S(600, mi, rows))):
            if sp(M) != w: out.setdefault("info", []).append([nm, w, sp(M)])
print(json.dumps(out))
'''
VENV_PY = "/opt/veriftools/pyvenv/bin/python"
PYFILES = ["python/cpp/autodiff/bind_expression_type.cpp", "python/cpp/optimization/ocp/bind_dynamics_type.cpp",
           "python/cpp/optimization/ocp/bind_timestep_method.cpp", "python/cpp/optimization/ocp/bind_transcription_method.cpp",
           "python/cpp/optimization/solver/bind_exit_status.cpp", "python/cpp/optimization/solver/bind_iteration_info.cpp"]


def run(ck):
    exe = core.build("p26_text", flags=core.ASAN)
    r = ck.tlc("Text")
    table = r.rows("T")[0]
    cases = [core.Case([f"val {ty} {e['name']}"], [str(e["value"])]) for ty in sorted(table) for e in table[ty]]
    for v in sorted(r.rows("V"), key=json.dumps):
        e, out = v["e"], v["out"]
        if v["kind"] == "inertia":
            cases.append(core.Case([f"inertia {e['p']} {e['n']} {e['z']}"], ["x" + out.encode().hex()]))
            continue
        cases.append(core.Case([f"fmt {v['kind']} {e['name']} s 0 0 :{v['fmt']}"], ["x" + out.encode().hex()]))
        if v["w"] or v["p"] >= 0:
            cases.append(core.Case([f"fmt {v['kind']} {e['name']} d {v['w']} {v['p']} :{v['fa']}"], ["x" + out.encode().hex()]))
    ck.cases(exe, cases, args=["/tmp"], what="formatting")

    d = tempfile.mkdtemp(prefix="p26-")
    try:
        r = ck.tlc("Print", consts=dict(LEN=3 if ck.thorough else 2))
        text = r.rows("T")[0]
        text["utf8"] = "↳ ∇²ₓₓL é ┃"   # beyond what TLC's strings print faithfully
        text["big"] = "0123456789" * 1000
        g = core.Graph(r.rows("E"))
        cases = []
        for init in [s for s in g.states if s["n"] == 0]:
            for w in g.cover(init):
                cmds, exps = [f"begin {init['k']} {init['h']}"], ["ok"]
                s = init
                for a, t in w:
                    cmds.append(f"p {a['fn']} {a['it']}")
                    exps.append("ok")
                    s = g.states[t]
                cmds.append("end")
                exps.append("x" + "".join(text[it] + ("\n" if fn == "println" else "") for fn, it in s["o"]).encode().hex())
                cases.append(core.Case(cmds, exps, f"{init['k']} {init['h']}"))
        ck.cases(exe, cases, args=[d], what="printing")

        # Python names and values, iteration info
        with open(os.path.join(d, "tab.json"), "w") as f:
            json.dump(table, f)
        so = core.build_pymodule("p26_py", [os.path.join(core.VERIF, "harness", "p26_py.cpp")] + [os.path.join(core.REPO, p) for p in PYFILES])
        p = subprocess.run([VENV_PY, "-c", PY, os.path.dirname(so), os.path.join(d, "tab.json")], capture_output=True, text=True, timeout=120)
        if p.returncode or p.stdout.strip() != "{}":
            raise core.Violation("the Python bindings' names, values or iteration data differ", {"stdout": p.stdout[-4000:], "stderr": p.stderr[-3000:]})
        ck.extra["python_enum_values"] = sum(len(v) for v in table.values())
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ck.assumptions.append("broken streams: /dev/full, read-only and closed descriptors; a broken pipe (SIGPIPE) is the process's own choice")
