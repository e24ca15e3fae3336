"""P25: sparsity recordings (spec/Spy.tla)."""
import os, shutil, subprocess, sys, tempfile, json
import core, p12

READER = r'''
import sys, types, json
class Any:
    def __getattr__(self, n): return Any()
    def __call__(self, *a, **k): return Any()
    def __getitem__(self, i): return Any()
cap = {}
class Ax(Any):
    def scatter(self, x, y, **k): cap["first"] = [list(x), list(y), list(k["c"])]; return Sc()
    def text(self, *a, **k): return Any()
    def set_title(self, t): cap["title"] = t
    def set_xlabel(self, t): cap["cl"] = t
    def set_ylabel(self, t): cap["rl"] = t
    def set_xlim(self, a, b): cap["cols"] = b
    def set_ylim(self, a, b): cap["rows"] = b
class Sc(Any):
    def set_offsets(self, o): cap["off"] = [list(o[0]), list(o[1])]
    def set_array(self, v): cap["v"] = list(v)
class Fig(Any):
    def add_subplot(self, *a, **k): return Ax()
class C:
    def __getitem__(self, i): return i
def mod(n, **k):
    m = types.ModuleType(n); m.__dict__.update(k); sys.modules[n] = m; return m
class FA:
    def __init__(self, **k): self.__dict__.update(k)
anim = mod("matplotlib.animation", FuncAnimation=FA)
plt = mod("matplotlib.pyplot", figure=lambda *a, **k: Fig(), show=lambda: None)
tick = mod("matplotlib.ticker", FixedLocator=Any())
mod("matplotlib.colors", ListedColormap=Any())
mod("matplotlib", pyplot=plt, ticker=tick, animation=anim)
mod("numpy", c_=C())
import importlib.util
sp = importlib.util.spec_from_file_location("spy", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
real = sys.stdout
for line in sys.stdin:
    cap.clear()
    sys.stdout = open("/dev/null", "w")
    try:
        a = m.plot_csv(line.strip())
        fr = []
        for i in range(a.frames):
            a.func(i); fr.append([cap["off"][0], cap["off"][1], cap["v"]])
        o = json.dumps([cap["title"], cap["rl"], cap["cl"], cap["rows"], cap["cols"], fr])
    except Exception as e:
        o = "error " + repr(e)
    sys.stdout = real
    print(o, flush=True)
'''


def run(ck):
    exe = core.build("p25_spy", flags=core.ASAN)
    r = ck.tlc("Spy", consts=dict(NB=2500 if ck.thorough else 350, SEED=ck.seed % 400))
    d = tempfile.mkdtemp(prefix="p25-")
    try:
        cases, read = [], []
        for n, row in enumerate(sorted(r.rows("V"), key=json.dumps)):
            h = row["hdr"]
            hx = lambda b: "x" + bytes(b).hex() + "."
            toks = []
            for k, m in enumerate(row["mats"]):
                toks.append(f"{(k + n) % 2} {len(m)}")
                for j, e in enumerate(m):
                    v = {1: ["0x1p0", "2.5", "1e-300", "inf", "4.9e-324"], -1: ["-1.0", "-1e-300", "-inf", "-4.9e-324"], 0: ["0.0", "-0.0", "nan"]}[e["s"]]
                    toks.append(f"{e['r']} {e['c']} {v[(j + n) % len(v)]}")
            for ty in "df":
                if ty == "f" and any(t.endswith(("e-300", "e-324")) for t in toks):
                    continue   # would round to zero
                f = os.path.join(d, f"{n}{ty}.spy")
                cases.append(core.Case([" ".join([ty, f, hx(h['title']), hx(h['rl']), hx(h['cl']), str(h['rows']), str(h['cols']),
                                                  str(len(row['mats']))] + toks)], [bytes(row["bytes"]).hex()]))
            try:
                t = [bytes(h[k]).decode() for k in ("title", "rl", "cl")]
            except UnicodeDecodeError:
                t = None
            if t and row["mats"]:
                fr = [[[e["c"] for e in m], [e["r"] for e in m], [float(e["s"]) for e in m]] for m in row["mats"]]
                read.append((os.path.join(d, f"{n}d.spy"), json.dumps(t + [h["rows"], h["cols"], fr])))
        ck.cases(exe, cases, what="sparsity recording bytes")
        # the reader shipped with the library recovers what was written
        p = subprocess.run([sys.executable, "-c", READER, os.path.join(core.REPO, "tools", "spy.py")],
                           input="".join(f + "\n" for f, _ in read), capture_output=True, text=True, timeout=300)
        got = p.stdout.splitlines()
        if len(got) != len(read):
            raise core.Violation("tools/spy.py cannot be used to read a recording", {"stderr": p.stderr[-2000:]})
        for (f, e), g in zip(read, got):
            if e != g:
                raise core.Violation("tools/spy.py reads something else than what was recorded",
                                     {"file": open(f, "rb").read().hex(), "expected": e[:4000], "got": g[:4000]})
        ck.traces += len(read)
        ck.extra["reader_files"] = len(read)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ck.assumptions.append("recordings of up to four matrices, dimensions up to 70000, strings up to 300 bytes")
    p12.run_histories(ck, *((8000, 14) if ck.thorough else (1500, 12)), want="P25")
