CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sane
CONSTANTS Steps = {steps}
Kinds <- {kinds}
"""
LAWS = """SPECIFICATION LSpec
CHECK_DEADLOCK FALSE
CONSTANTS
Q = {q}
DEG = {deg}
GENS <- {gens}
INVARIANTS Laws Units
"""


def laws(chk):
    grid = [(2, 2, "GensC2"), (2, 3, "GensC3"), (3, 2, "GensC2")]
    if chk.thorough:
        grid += [(4, 2, "GensC2"), (3, 3, "GensC3"), (2, 4, "GensV4"), (2, 4, "GensC4"), (5, 2, "GensC2"), (2, 3, "GensS3")]
    for q, deg, gens in grid:
        chk.design("GroupRingLaws", LAWS.format(q=q, deg=deg, gens=gens))
        chk.bounds[f"ring laws q={q} {gens}"] = "all pairs of elements"


def sessions(chk, kinds, *, quick=1000, thorough=20000, steps=18):
    total = thorough if chk.thorough else quick
    for r in range(0, total, 3000):
        num = min(3000, total - r)
        scripts = chk.generate("RingSession", CFG.format(steps=steps, kinds=kinds), num=num,
                               depth=steps + 10, seed=chk.seed + 13000 + r)
        chk.validate("RingTrace", chk.replay("ring", [{"script": s} for s in scripts]))
    chk.bounds["ring sessions"] = {"scripts": total, "actions_per_script": steps + 1}
