from checks._tanner import sessions


def run(chk):
    sessions(chk, "Kinds18", quick=900, faces=60)
