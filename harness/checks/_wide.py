"""Distances of long codes, across the machine words that bits are packed into."""
CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Steps = {steps}
"""


def sessions(chk, *, quick=100, thorough=4000, steps=6):
    total = thorough if chk.thorough else quick
    for r in range(0, total, 1000):
        num = min(1000, total - r)
        scripts = chk.generate("WideSession", CFG.format(steps=steps), num=num, depth=steps + 5, seed=chk.seed + 47000 + r)
        chk.validate("WideTrace", chk.replay("wide", [{"script": s} for s in scripts], timeout=120))
    chk.bounds["long codes"] = {"scripts": total, "actions_per_script": steps, "block_lengths": "20..640"}
