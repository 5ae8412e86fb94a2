from checks import _external


def run(chk):
    _external.sessions(chk)
