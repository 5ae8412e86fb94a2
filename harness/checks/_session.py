"""Sessions with families of quantum codes: generate, replay, validate."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))

CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sane
CONSTANTS Steps = {steps}
CONSTANTS Qs <- {p}Qs
MaxN <- {p}N
MaxDerN <- {p}Der
Kinds <- {kinds}
"""

# profile -> (steps, scripts in the quick tier, scripts in the thorough tier)
PROFILES = {"Small": (12, 1000, 24000), "Wide": (10, 160, 4000), "Big": (8, 160, 4000)}


def sessions(chk, kinds, scale=1.0, profiles=("Small", "Wide", "Big")):
    """Generate sessions, replay them into the real code, and check what was recorded."""
    with open(os.path.join(HERE, "..", "pinned", "session.json")) as f:
        cases = json.load(f)  # hand-picked sessions: the histories of defects found earlier
    for n, prof in enumerate(profiles):
        steps, quick, thorough = PROFILES[prof]
        total = int((thorough if chk.thorough else quick) * scale)
        chunk = 3000
        for r in range(0, total, chunk):
            num = min(chunk, total - r)
            scripts = chk.generate("CodeSessionGen", CFG.format(steps=steps, p=prof, kinds=kinds),
                                   num=num, depth=steps + 10, seed=chk.seed + 1000 * n + r)
            cases += [{"script": s} for s in scripts]
        chk.bounds[f"sessions/{prof}"] = {"scripts": total, "actions_per_script": steps + 1}
    for r in range(0, len(cases), 4000):
        chk.validate("CodeTrace", chk.replay("session", cases[r:r + 4000], timeout=60))


LAWS = """SPECIFICATION LSpec
CHECK_DEADLOCK FALSE
CONSTANTS Lanes = 1
Q = {q}
N = {n}
R = {r}
INVARIANTS Accounting Operators Derived
"""


def laws(chk):
    """The specification's own theorems, on all small codes."""
    grid = [(2, 1, 2), (2, 2, 2), (3, 1, 2)]
    if chk.thorough:
        grid += [(2, 2, 3), (3, 1, 3), (4, 1, 2), (5, 1, 2), (3, 2, 1)]
    for q, n, r in grid:
        chk.design("StabLaws", LAWS.format(q=q, n=n, r=r))
        chk.bounds[f"laws q={q} n={n}"] = f"all parity check matrices with at most {r} rows"
