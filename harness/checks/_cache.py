"""Schedules of processes sharing a disk cache."""
CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Steps = {steps}
Procs = {procs}
"""
MODEL = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Procs = {procs}
Calls = {calls}
ReadTwice = FALSE
INVARIANT Transparent StoreSound
PROPERTY Ends
"""


def model(chk):
    grids = [("{1, 2}", "{1, 2}")] + ([("{1, 2, 3}", "{1, 2}")] if chk.thorough else [])
    for procs, calls in grids:
        chk.design("CacheModel", MODEL.format(procs=procs, calls=calls))
        chk.bounds[f"CacheModel {procs} {calls}"] = "all interleavings, crashes and evictions"


def sessions(chk, *, quick=1500, thorough=15000, steps=30):
    total = thorough if chk.thorough else quick
    for r in range(0, total, 3000):
        num = min(3000, total - r)
        scripts = chk.generate("CacheSession", CFG.format(steps=steps, procs=3), num=num, depth=steps + 5, seed=chk.seed + 41000 + r)
        chk.validate("CacheTrace", chk.replay("cache", [{"script": s} for s in scripts]))
    chk.bounds["cache schedules"] = {"scripts": total, "actions_per_script": steps, "processes": 3}
