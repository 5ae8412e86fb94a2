from checks._chain import sessions


def run(chk):
    sessions(chk, quick=2000)
