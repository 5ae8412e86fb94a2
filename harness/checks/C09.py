from checks._group import sessions


def run(chk):
    sessions(chk, "Kinds09")
