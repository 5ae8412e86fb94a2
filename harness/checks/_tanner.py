CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Sane
CONSTANTS Kinds <- {kinds}
Steps = {steps}
MaxFaces = {faces}
"""


def sessions(chk, kinds, *, quick=600, thorough=6000, steps=6, faces=48, big=120):
    total = thorough if chk.thorough else quick
    faces = big if chk.thorough else faces
    for r in range(0, total, 3000):
        num = min(3000, total - r)
        scripts = chk.generate("TannerSession", CFG.format(kinds=kinds, steps=steps, faces=faces), num=num, depth=steps + 5, seed=chk.seed + 21000 + r)
        chk.validate("TannerTrace", chk.replay("tanner", [{"script": s} for s in scripts]))
    chk.bounds["Tanner codes/" + kinds] = {"scripts": total, "actions_per_script": steps, "max_faces": faces}
