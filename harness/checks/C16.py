from checks import _circuit

ASSUMPTIONS = ["GAP is not installed: a stand-in executable on PATH computes automorphism groups of binary codes by backtracking"]


def run(chk):
    _circuit.laws(chk)
    _circuit.sessions(chk)
