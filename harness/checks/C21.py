from checks import _layout


def run(chk):
    _layout.sessions(chk)
