from checks._ring import sessions


def run(chk):
    sessions(chk, "Kinds11", quick=3000)
