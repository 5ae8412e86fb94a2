from checks import _rates


def run(chk):
    _rates.sessions(chk)
