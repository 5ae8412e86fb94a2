CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sane
CONSTANTS Steps = {steps}
"""


def sessions(chk, *, quick=1500, thorough=20000, steps=9):
    total = thorough if chk.thorough else quick
    for r in range(0, total, 3000):
        num = min(3000, total - r)
        scripts = chk.generate("ChainSession", CFG.format(steps=steps), num=num, depth=steps + 10, seed=chk.seed + 17000 + r)
        chk.validate("ChainTrace", chk.replay("chain", [{"script": s} for s in scripts]))
    chk.bounds["chain sessions"] = {"scripts": total, "actions_per_script": steps + 1}
