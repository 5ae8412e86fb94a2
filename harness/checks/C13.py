from checks._product import sessions


def run(chk):
    sessions(chk, quick=600)
