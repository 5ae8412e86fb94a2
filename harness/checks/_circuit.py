"""Sessions with encoders, logical tableaus and transversal circuits."""
import os

BIN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fakebin")
CFG = """SPECIFICATION SpecC
CHECK_DEADLOCK FALSE
INVARIANT Sane
CONSTANTS Steps = {steps}
CONSTANTS Qs <- {p}Qs
MaxN <- {n}N
MaxDerN <- CDer
Kinds <- {kinds}
"""
ENV = {"PATH": BIN + os.pathsep + os.environ.get("PATH", "")}


def sessions(chk, *, quick=(600, 200), thorough=(8000, 3000), steps=10):
    """Known and random codes: full searches on small codes, encoders and tableaus on longer ones."""
    for n, (kinds, prof, total) in enumerate(zip(("CKinds", "CKindsEnc"), ("C", "W"), thorough if chk.thorough else quick)):
        for r in range(0, total, 2000):
            num = min(2000, total - r)
            scripts = chk.generate("CircuitSession", CFG.format(steps=steps, p="C", n=prof, kinds=kinds), num=num, depth=steps + 10, seed=chk.seed + 31000 + 500 * n + r)
            chk.validate("CircuitTrace", chk.replay("circuit", [{"script": s} for s in scripts], env=ENV, timeout=90), spec="SpecC")
        chk.bounds[f"sessions/{kinds}"] = {"scripts": total, "actions_per_script": steps + 1, "max_qubits": 5 if prof == "C" else 9}


LAWS = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Homo Names\n"


def laws(chk):
    chk.design("CliffordLaws", LAWS)
    chk.bounds["Clifford laws"] = "all gates on all pairs of 2-qubit Paulis"
