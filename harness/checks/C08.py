CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sane
CONSTANTS Steps = {steps}
Kinds <- KindsDef
"""


def run(chk):
    total = 30000 if chk.thorough else 1500
    steps = 16
    for r in range(0, total, 4000):
        num = min(4000, total - r)
        scripts = chk.generate("DecoderSession", CFG.format(steps=steps), num=num, depth=steps + 10,
                               seed=chk.seed + 9000 + r)
        chk.validate("DecoderTrace", chk.replay("decoder", [{"script": s} for s in scripts]))
    chk.bounds["decoder sessions"] = {"scripts": total, "actions_per_script": steps + 1}
