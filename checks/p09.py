"""P09: re-evaluation is never stale and derivative objects never interfere (spec/Hist.tla)."""
from p06 import hist_part
import core, hist


def run(ck):
    all_ = ("val", "type", "ev", "sym", "end")
    hist_part(ck, *((15000, 80) if ck.thorough else (3000, 40)), keep=all_, exhaustive=4 if ck.thorough else 3)
    if ck.thorough:
        exe = core.build("p09_hist", lib=core.AD_SRC, flags=core.ASAN)
        ck.cases(exe, hist.cases(hist.rows(ck, 1500, 250), 5, 3), compare=hist.compare, what="long history", timeout=800)
