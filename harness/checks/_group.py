CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sane
CONSTANTS Steps = {steps}
Kinds <- {kinds}
"""


def sessions(chk, kinds, *, quick=600, thorough=12000, steps=14):
    total = thorough if chk.thorough else quick
    for r in range(0, total, 3000):
        num = min(3000, total - r)
        scripts = chk.generate("GroupSession", CFG.format(steps=steps, kinds=kinds), num=num,
                               depth=steps + 10, seed=chk.seed + 11000 + r)
        chk.validate("GroupTrace", chk.replay("group", [{"script": s} for s in scripts]))
    chk.bounds["group sessions"] = {"scripts": total, "actions_per_script": steps + 1}
