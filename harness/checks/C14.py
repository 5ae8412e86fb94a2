from checks._family import families


def run(chk):
    families(chk)
