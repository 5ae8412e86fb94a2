"""Estimates of logical error rates."""
CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Steps = {steps}
MaxSamples = {samples}
"""


def sessions(chk, *, quick=200, thorough=4000, steps=12, samples=300):
    total = thorough if chk.thorough else quick
    for r in range(0, total, 1000):
        num = min(1000, total - r)
        scripts = chk.generate("RateSession", CFG.format(steps=steps, samples=samples), num=num, depth=steps + 5, seed=chk.seed + 81000 + r)
        chk.validate("RateTrace", chk.replay("errorrate", [{"script": s} for s in scripts]))
    chk.bounds["error rate estimates"] = {"steps": total * steps, "samples_per_estimate": samples}
