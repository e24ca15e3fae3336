"""P29: threads that share no objects do not affect each other (spec/Threads.tla)."""
import core


def line(v, reps, sched):
    return " ".join(map(str, [reps, len(v["prog"])] + [x for p in v["prog"] for x in [len(p)] + [y for o in p for y in (o["o"], o["n"], o["a"])]] + [len(sched)] + sched))


def expected(v):
    show = lambda o: ",".join(map(str, o))
    return " ".join("ok " + " ".join([show(o) for o in obs] + ["end#0"]) + " /" for obs in v["obs"])


def same(e, g, c):
    return e.split() == g.split()


def run(ck):
    s = ck.seed % 400
    t = ck.thorough
    # every interleaving of two small programs, of three tiny ones, sampled ones of larger programs
    jobs = [("Threads", dict(SEED=s, LO=a, HI=a + 4, LEN=3, NT=2, ALL="TRUE")) for a in range(1, 121 if t else 31, 5)]
    jobs += [("Threads", dict(SEED=s, LO=a, HI=a, LEN=2, NT=3, ALL="TRUE")) for a in range(200, 212 if t else 203)]
    jobs += [("Threads", dict(SEED=s, LO=a, HI=a + 99, LEN=8, NT=4, ALL="FALSE")) for a in range(1000, 3000 if t else 1200, 100)]
    rs = ck.tlc_many(jobs)
    rows = [v for r in rs for v in r.rows("V")]
    rows.sort(key=lambda v: (len(v["prog"]), v["i"], v["sched"]))
    exe = core.build("p29_threads", lib=core.LIB_SRC, eigen=True)
    ck.cases(exe, [core.Case([line(v, 0, v["sched"])], [expected(v)], {"case": v["i"]}) for v in rows], compare=same, what="interleaved threads")
    free, seen = [], set()
    for v in rows:
        key = (len(v["prog"]), v["i"])
        if key not in seen and len(v["prog"]) > 2:
            seen.add(key)
            free.append(core.Case([line(v, 3, [])], [expected(v)], {"case": v["i"]}))
    tsan = core.build("p29_threads", lib=core.LIB_SRC, flags=core.TSAN, eigen=True)
    ck.cases(tsan, free, compare=same, what="free-running threads (ThreadSanitizer)")
    ck.extra["schedules"], ck.extra["free_running"] = len(rows), len(free)
    ck.assumptions.append("control passes between API calls and at iteration callbacks; inside one call only ThreadSanitizer and result comparison observe interference")
