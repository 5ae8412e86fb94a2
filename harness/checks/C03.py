from checks._family import families
from checks import _classical, _wide
from checks._session import laws, sessions


def run(chk):
    laws(chk)
    sessions(chk, "KindsC03")
    _classical.laws(chk)
    _classical.sessions(chk, "Kinds03", quick=800)
    families(chk, classical=True)
    _wide.sessions(chk, quick=150)
