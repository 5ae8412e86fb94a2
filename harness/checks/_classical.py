"""Sessions with families of classical codes: generate, replay, validate."""
import os

BIN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fakebin")
ENV = {"PATH": BIN + os.pathsep + os.environ.get("PATH", "")}
CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sane
CONSTANTS Steps = {steps}
Qs <- QsDef
MaxN <- NDef
MaxDerN <- DerDef
Kinds <- {kinds}
"""
LAWS = """SPECIFICATION LSpec
CHECK_DEADLOCK FALSE
CONSTANTS
Q = {q}
N = {n}
R = {r}
INVARIANTS Counts Kernel DualOK PunctureOK ShortenOK DistOK StackOK TensorOK
"""


def laws(chk):
    grid = [(2, 3, 2), (3, 2, 2), (4, 2, 1)]
    if chk.thorough:
        grid += [(2, 3, 3), (2, 4, 3), (3, 3, 2), (4, 2, 2), (5, 2, 2), (8, 2, 1), (9, 2, 1)]
    for q, n, r in grid:
        chk.design("ClassicalLaws", LAWS.format(q=q, n=n, r=r))
        chk.bounds[f"classical laws q={q} n={n}"] = f"all codes spanned by at most {r} words"


def sessions(chk, kinds, *, quick=1200, thorough=30000, steps=14):
    total = thorough if chk.thorough else quick
    for r in range(0, total, 4000):
        num = min(4000, total - r)
        scripts = chk.generate("ClassicalSession", CFG.format(steps=steps, kinds=kinds), num=num,
                               depth=steps + 10, seed=chk.seed + 7000 + r)
        chk.validate("ClassicalTrace", chk.replay("classical", [{"script": s} for s in scripts], env=ENV))
    chk.bounds["classical sessions"] = {"scripts": total, "actions_per_script": steps + 1}
