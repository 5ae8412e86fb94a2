from checks import _cache

ASSUMPTIONS = ["diskcache itself stores and reads entries atomically; processes are stopped before each access of the store and inside the memoized function"]


def run(chk):
    _cache.model(chk)
    _cache.sessions(chk)
