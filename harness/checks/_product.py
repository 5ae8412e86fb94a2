CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sane
CONSTANTS Steps = {steps}
"""


def sessions(chk, *, quick=600, thorough=12000, steps=8):
    total = thorough if chk.thorough else quick
    for r in range(0, total, 3000):
        num = min(3000, total - r)
        scripts = chk.generate("ProductSession", CFG.format(steps=steps), num=num, depth=steps + 5, seed=chk.seed + 18000 + r)
        chk.validate("ProductTrace", chk.replay("product", [{"script": s} for s in scripts]))
    chk.bounds["product constructions"] = {"scripts": total, "constructions_per_script": steps}
