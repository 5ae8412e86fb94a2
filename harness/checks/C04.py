from checks._classical import laws, sessions


def run(chk):
    laws(chk)
    sessions(chk, "Kinds04", quick=2000)
