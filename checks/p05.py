"""P05: views alias exactly the elements they name (spec/Mats.tla, menu "view")."""
import mats


def run(ck):
    mats.run(ck, "view", *((12000, 50) if ck.thorough else (1500, 30)), what="view program")
    if ck.thorough:
        mats.run(ck, "all", 6000, 80, "mixed program", base=20000)
