from checks._ring import laws, sessions


def run(chk):
    laws(chk)
    sessions(chk, "Kinds10", quick=2500)
