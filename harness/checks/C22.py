from checks import _classical, _equality, _group, _ring, _tanner


def run(chk):
    _equality.sessions(chk, quick=500)
    _classical.sessions(chk, "Kinds22", quick=150)
    _group.sessions(chk, "Kinds22", quick=100)
    _ring.sessions(chk, "Kinds22", quick=80)
    _tanner.sessions(chk, "Kinds22", quick=80)
