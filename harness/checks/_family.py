CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Big = {big}
Quantum = {quantum}
"""


def families(chk, *, classical=True, quantum=True):
    """Every member of the named families, within bounds."""
    for kind in [0] * classical + [1] * quantum:
        scripts = chk.generate("Families", CFG.format(big=int(chk.thorough), quantum=kind))
        chk.validate("FamilyTrace", chk.replay("family", [{"script": s} for s in scripts], timeout=300), timeout=800 if not chk.thorough else 7200)
        chk.bounds["families/" + ("quantum" if kind else "classical")] = {"members": len(scripts)}
