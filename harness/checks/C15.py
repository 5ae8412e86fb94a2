from checks import _classical, _repr, _session, _tanner


def run(chk):
    _repr.sessions(chk)
    _classical.sessions(chk, "Kinds15", quick=600, steps=10)
    _session.sessions(chk, "KindsC15", scale=0.5)
    _tanner.sessions(chk, "Kinds15", quick=500)
