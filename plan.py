"""What each check runs: property -> tier -> stages (build mode, scale, share of the cases, processes)."""

GROUP = {}
for _i in range(1, 7):
    GROUP["C%02d" % _i] = "log"
for _i in (7, 8, 9, 20, 21, 22, 23, 24, 25):
    GROUP["C%02d" % _i] = "util"
for _i in (10, 11, 12, 13):
    GROUP["C%02d" % _i] = "cache"
for _i in range(14, 20):
    GROUP["C%02d" % _i] = "mem"
for _i in range(26, 33):
    GROUP["C%02d" % _i] = "misc"
for _i in (33, 34, 35):
    GROUP["C%02d" % _i] = "e2e"
GROUP["C36"] = "panics"


def features_of(prop):
    return [GROUP[prop]]


LEVEL = {"C03": "fault_enumeration", "C05": "fault_enumeration"}

ASSUMPTIONS = {
    "*": ["held on the executions counted here, nothing more: every case is a function of the seed and is judged by an oracle written from the specification, not from the code"],
}

# properties whose code holds unsafe blocks, raw pointers or locks
ASAN = {"C01", "C04", "C07", "C08", "C09", "C10", "C12", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C24", "C26", "C27", "C28", "C33", "C34", "C36"}
MIRI = {"C07", "C08", "C09", "C12", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C28", "C36"}
TSAN = {"C13", "C32", "C35"}
COREDEBUG = {"C14", "C26"}


def _plan(p):
    quick = [{"mode": "debug", "scale": 1}, {"mode": "release", "scale": 1, "pct": 200}]
    deep = [{"mode": "debug", "scale": 2, "procs": 8}, {"mode": "release", "scale": 2, "pct": 400, "procs": 8}]
    if p in COREDEBUG:
        quick.append({"mode": "coredebug", "scale": 1, "pct": 50})
        deep.append({"mode": "coredebug", "scale": 2, "pct": 50, "procs": 4})
    if p in ASAN:
        quick.append({"mode": "asan", "scale": 1, "pct": 50})
        deep.append({"mode": "asan", "scale": 2, "procs": 8})
    if p in TSAN:
        quick.append({"mode": "tsan", "scale": 1})
        deep.append({"mode": "tsan", "scale": 2, "procs": 4})
    if p in MIRI:
        # what a panic left behind may leak
        more = {"miriflags": "-Zmiri-ignore-leaks"} if p == "C36" else {}
        quick.append(dict({"mode": "miri", "scale": 0}, **more))
        deep.append(dict({"mode": "miri", "scale": 0, "pct": 1000, "procs": 8}, **more))
    return {"quick": quick, "thorough": deep}


PLAN = {p: _plan(p) for p in GROUP}
