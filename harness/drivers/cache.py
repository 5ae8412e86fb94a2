"""Replay of CacheSession schedules: real processes, stopped at every access of the store."""
from __future__ import annotations

import json
import os
import shutil
import signal
import sys
import tempfile
import types

import diskcache
import numpy as np

import qldpc.cache

NAMES = {"a": ("one", None), "b": ("two", None), "c": ("one", "other"), "e": ("one_", None), "k": ("three", None), "k0": ("four", None)}
ORDER = ["a", "b", "c", "e", "k", "k0"]


class Boom(Exception):
    pass


class Bomb(list):
    """Kills the process that pickles it."""

    def __reduce__(self):
        os.kill(os.getpid(), signal.SIGKILL)
        return (list, ())


def value(kind, tag):
    return {"str": lambda: tag, "list": lambda: [tag, [1, 2]], "none": lambda: None, "zero": lambda: 0, "false": lambda: False, "emptylist": lambda: [],
            "emptystr": lambda: "", "emptytuple": lambda: (), "tuple": lambda: (tag, ((0, 1), (2,))), "array": lambda: np.array([len(tag), ord(tag[0])]), "big": lambda: [tag] * 5000}[kind]()


def show(v):
    r = f"{type(v).__name__}:{v!r}"
    return r if len(r) < 400 else f"{r[:200]}...{len(r)}"


def plain(fn, kind, args, kwargs):
    """The function being memoized, without memoization."""
    if fn in ("k", "k0"):
        x, y = args[0] if args else kwargs["x"], (args[1] if len(args) > 1 else kwargs.get("y", 0))
        return value(kind, f"{fn}|{x!r}|{y!r}")
    return value(kind, f"{fn}|{args!r}|{sorted(kwargs.items())!r}")


def functions(kinds, base, ask, off):
    fns = {}
    for fn, kind in zip(ORDER, kinds):
        def body(*args, fn=fn, kind=kind, **kwargs):
            out = ask("compute")
            if out == "raise":
                raise Boom()
            if out == "die-storing" and not off:
                return Bomb()
            return plain(fn, kind, args, kwargs)

        name, sub = NAMES[fn]
        kw = {"cache_dir": os.path.join(base, sub)} if sub else {}
        if fn in ("k", "k0"):
            def keyed(x, y=0, body=body):
                return body(x, y)
            fns[fn] = qldpc.cache.use_disk_cache(name, **kw, key_func=(lambda x, y=0: (x, y)) if fn == "k" else (lambda x, y=0: f"{x!r}.{y!r}"))(keyed)
        else:
            def free(*args, body=body, **kwargs):
                return body(*args, **kwargs)
            fns[fn] = qldpc.cache.use_disk_cache(name, **kw)(free)
    return fns


def child(rd, wr, setup, base):
    inp, outp = os.fdopen(rd), os.fdopen(wr, "w")

    def ask(at, **kw):
        outp.write(json.dumps({"at": at, **kw}) + "\n")
        outp.flush()
        line = inp.readline()
        if not line:
            os._exit(0)
        return json.loads(line)

    if setup["off"]:
        sys.modules["pytest"] = types.ModuleType("pytest")

    def guard(name, at):
        old = getattr(diskcache.Cache, name)

        def method(self, *args, **kw):
            ask(at)
            return old(self, *args, **kw)
        setattr(diskcache.Cache, name, method)

    fns = functions(setup["kinds"], base, ask, setup["off"])
    for name in ("__contains__", "get", "__getitem__"):
        guard(name, "read")
    for name in ("set", "add"):
        guard(name, "write")
    msg = ask("ready")
    while True:
        try:
            r = fns[msg["fn"]](*eval(msg["a"][0]), **eval(msg["a"][1]))
            res = {"at": "ret", "r": show(r)}
            if msg["mut"] and isinstance(r, list):
                r.append("mutated")
            elif msg["mut"] and isinstance(r, np.ndarray):
                r += 1
        except Exception as err:  # noqa: BLE001
            res = {"at": "exc", "r": type(err).__name__}
        msg = ask(res.pop("at"), **res)


class Proc:
    def __init__(self, setup, base):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1), os.close(r2)
                child(r1, w2, setup, base)
            finally:
                os._exit(1)
        os.close(r1), os.close(w2)
        self.inp, self.outp = os.fdopen(w1, "w"), os.fdopen(r2)
        self.at = self.read()["at"]
        self.call = None

    def read(self):
        line = self.outp.readline()
        if not line:
            os.waitpid(self.pid, 0)
            self.pid = 0
            return {"at": "died"}
        return json.loads(line)

    def send(self, msg):
        self.inp.write(json.dumps(msg) + "\n")
        self.inp.flush()
        res = self.read()
        self.at = res["at"]
        return res

    def kill(self):
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        self.pid = 0
        self.inp.close(), self.outp.close()


IDLE = ("ready", "ret", "exc")


def note(res, setup, call, out):
    if res["at"] == "ret":
        fn = call["fn"]
        res["plain"] = show(plain(fn, setup["kinds"][ORDER.index(fn)], eval(call["a"][0]), eval(call["a"][1])))
    return {"out": out, **res}


def run(case) -> dict:
    base = tempfile.mkdtemp()
    os.environ["XDG_CACHE_HOME"] = os.path.join(base, "default")
    procs: dict = {}
    out = []
    setup = case["script"][0]
    out.append(setup)
    try:
        for ev in case["script"][1:]:
            rec = {**ev, "skip": False, "at": [], "resumed": False}
            out.append(rec)
            op = ev["op"]
            if op == "evict":
                pid = os.fork()
                if pid == 0:
                    try:
                        name, sub = NAMES[ev["fn"]]
                        qldpc.cache.get_disk_cache(name, **({"cache_dir": os.path.join(base, sub)} if sub else {})).clear()
                    finally:
                        os._exit(0)
                os.waitpid(pid, 0)
                continue
            p = procs.get(ev["p"])
            if op == "call":
                if p is None:
                    p = procs[ev["p"]] = Proc(setup, base)
                if p.at not in IDLE:
                    rec["skip"] = True
                    continue
                p.call = ev
                rec["at"].append(note(p.send({"fn": ev["fn"], "a": ev["a"], "mut": ev["mut"]}), setup, ev, "go"))
            elif p is None or p.at in IDLE:
                rec["skip"] = True
            elif op == "die":
                p.kill()
                rec["at"].append({"at": "died"})
            else:
                rec["resumed"] = p.at == "compute"
                while True:
                    where = p.at
                    reply = ev["out"] if where == "compute" else "go"
                    res = note(p.send(reply), setup, p.call, ev["out"])
                    rec["at"].append(res)
                    if op == "step" or p.at in IDLE or p.at == "died":
                        break
            if p is not None and p.at == "died" or op == "die":
                if p is not None:
                    p.kill()
                procs.pop(ev["p"], None)
    finally:
        for p in procs.values():
            p.kill()
        shutil.rmtree(base, ignore_errors=True)
    return {"ev": out}
