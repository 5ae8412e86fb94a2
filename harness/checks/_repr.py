CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Steps = {steps}
"""


def sessions(chk, *, quick=1500, thorough=20000, steps=20):
    total = thorough if chk.thorough else quick
    for r in range(0, total, 3000):
        num = min(3000, total - r)
        scripts = chk.generate("ReprSession", CFG.format(steps=steps), num=num, depth=steps + 10, seed=chk.seed + 19000 + r)
        chk.validate("ReprTrace", chk.replay("representation", [{"script": s} for s in scripts]))
    chk.bounds["representation sessions"] = {"scripts": total, "actions_per_script": steps}
