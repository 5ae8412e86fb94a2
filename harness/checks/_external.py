"""Lookups of groups and codes in external systems."""
CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Steps = {steps}
"""


def sessions(chk, *, quick=160, thorough=3000, steps=16):
    total = thorough if chk.thorough else quick
    for r in range(0, total, 1000):
        num = min(1000, total - r)
        scripts = chk.generate("ExternalSession", CFG.format(steps=steps), num=num, depth=steps + 5, seed=chk.seed + 91000 + r)
        chk.validate("ExternalTrace", chk.replay("external", [{"script": s} for s in scripts]))
    chk.bounds["external lookups"] = {"lookups": total * steps}
