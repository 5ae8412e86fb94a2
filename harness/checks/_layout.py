"""Layouts of bivariate bicycle codes."""
CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Steps = {steps}
MaxCells = {cells}
"""


def sessions(chk, *, quick=400, thorough=6000, steps=4, cells=12, big=30):
    total = thorough if chk.thorough else quick
    cells = big if chk.thorough else cells
    for r in range(0, total, 1500):
        num = min(1500, total - r)
        scripts = chk.generate("LayoutSession", CFG.format(steps=steps, cells=cells), num=num, depth=steps + 5, seed=chk.seed + 71000 + r)
        chk.validate("LayoutTrace", chk.replay("layout", [{"script": s} for s in scripts]))
    chk.bounds["bivariate bicycle codes"] = {"codes": total * steps, "max_plaquettes": max(cells, 18)}
