"""Sessions that compare quantum codes and operators."""
CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Steps = {steps}
"""


def sessions(chk, *, quick=800, thorough=15000, steps=20):
    total = thorough if chk.thorough else quick
    for r in range(0, total, 3000):
        num = min(3000, total - r)
        scripts = chk.generate("EqualSession", CFG.format(steps=steps), num=num, depth=steps + 5, seed=chk.seed + 61000 + r)
        chk.validate("EqualTrace", chk.replay("equality", [{"script": s} for s in scripts]))
    chk.bounds["comparisons of quantum codes"] = {"scripts": total, "actions_per_script": steps}
