from checks._session import laws, sessions


def run(chk):
    laws(chk)
    sessions(chk, "KindsC06")
