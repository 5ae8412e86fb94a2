from checks import _classical, _group, _random, _tanner


def run(chk):
    _random.sessions(chk)
    _classical.sessions(chk, "Kinds19", quick=120)
    _group.sessions(chk, "Kinds19", quick=80)
    _tanner.sessions(chk, "Kinds19", quick=60)
