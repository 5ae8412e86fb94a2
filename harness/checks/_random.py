"""Histories of randomised constructions, run by two differently disturbed processes."""
CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Steps = {steps}
"""


def sessions(chk, *, quick=400, thorough=10000, steps=22):
    total = thorough if chk.thorough else quick
    for r in range(0, total, 2500):
        num = min(2500, total - r)
        scripts = chk.generate("RandomSession", CFG.format(steps=steps), num=num, depth=steps + 5, seed=chk.seed + 51000 + r)
        cases = [{"script": s} for s in scripts]
        traces = chk.replay("randomised", cases, env={"TWIN": "0"})
        twins = chk.replay("randomised", cases, env={"TWIN": "1", "PYTHONHASHSEED": "77"})
        for a, b in zip(traces, twins):
            for x, y in zip(a["ev"], b["ev"]):
                x["twin"] = y.get("r", [])
        chk.validate("RandomTrace", traces)
    chk.bounds["randomised constructions"] = {"scripts": total, "actions_per_script": steps, "processes": 2}
