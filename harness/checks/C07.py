from checks import _classical
from checks._session import laws, sessions


def run(chk):
    laws(chk)
    sessions(chk, "AllKinds")
    _classical.sessions(chk, "Kinds07", quick=500)
