from checks._family import families
from checks._session import laws, sessions


def run(chk):
    laws(chk)
    sessions(chk, "KindsC01")
    families(chk, classical=False)
