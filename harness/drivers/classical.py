"""Replay of ClassicalSession scripts into qldpc.codes.ClassicalCode."""
from __future__ import annotations

import random

import numpy as np

from qldpc.codes import ClassicalCode

from .common import exc_name, known, mat, num, seed_all

MAKES = ("new", "gen", "dual", "canon", "tensor", "stack", "puncture", "shorten")


def field_of(q):
    return ClassicalCode([[0]], field=q).field


class Session:
    def __init__(self) -> None:
        self.codes: list = []
        self.mats: list = []
        self.saved: list = []
        self.set_gen: set = set()

    def keep(self, what, arr) -> None:
        self.saved.append((what, arr, np.array(arr, dtype=np.int64).copy()))

    def mutations(self):
        bad = [w for w, a, old in self.saved if np.shape(a) != old.shape
               or not np.array_equal(np.asarray(a, dtype=np.int64), old)]
        for n, (c, old) in enumerate(zip(self.codes, self.mats)):
            if c is not None and (c.matrix.shape != old.shape
                                  or not np.array_equal(np.asarray(c.matrix, dtype=np.int64), old)):
                bad.append(f"matrix {n + 1}")
        return sorted(set(bad))

    def add(self, code):
        self.codes.append(code)
        self.mats.append(np.array(code.matrix, dtype=np.int64).copy())
        return {"m": mat(code.matrix), "n": len(code), "q": int(code.field.order)}


def rng_state():
    return repr(np.random.get_state()) + repr(random.getstate())


def do(s: Session, ev: dict) -> dict:
    op = ev["op"]
    if op in ("new", "gen"):
        q, m, how = ev["q"], ev["m"], ev["how"]
        extra = {"given": m, "wantq": q}
        if how == "list":
            args = (m, q)
        elif how == "array":
            args = (np.array(m, dtype=int), q)
        elif how == "field":
            args = (field_of(q)(m),)
        else:
            args = (ClassicalCode(m, q),) if how == "copy" else (ClassicalCode(m, q), q)
        if how in ("array", "field"):
            s.keep("given", args[0])
        new = ClassicalCode(*args) if op == "new" else ClassicalCode.from_generator(*args)
        return {**s.add(new), **extra}
    if op == "random":
        kw = {} if ev["q"] == 2 else {"field": ev["q"]}
        seed_all(ev["seed"] + 5)
        before = rng_state()
        a = ClassicalCode.random(ev["n"], ev["checks"], seed=ev["seed"], **kw)
        state = rng_state() == before
        seed_all(ev["seed"] + 77)
        b = ClassicalCode.random(ev["n"], ev["checks"], seed=ev["seed"], **kw)
        return {"m": mat(a.matrix), "m2": mat(b.matrix), "rq": int(a.field.order), "state": state}
    if op in ("tensor", "ceq"):
        a, b = s.codes[ev["a"] - 1], s.codes[ev["b"] - 1]
        if a is None or b is None:
            return {"skip": True}
        if op == "tensor":
            return s.add(ClassicalCode.tensor_product(a, b))
        return {"eq": a == b, "ne": a != b, "equiv": bool(ClassicalCode.equiv(a, b))}
    if op == "stack":
        cs = [s.codes[o - 1] for o in ev["os"]]
        if any(c is None for c in cs):
            return {"skip": True}
        return s.add(ClassicalCode.stack(*cs))
    code = s.codes[ev["o"] - 1]
    if code is None:
        return {"skip": True}
    q = code.field.order
    fixed = ev["o"] not in s.set_gen
    if op == "dual":
        return s.add(code.dual() if ev["how"] == "dual" else ~code)
    if op == "canon":
        return s.add(code.canonicalized)
    if op in ("puncture", "shorten"):
        return s.add(getattr(code, op)(*[b - 1 for b in ev["bits"]]))
    if op == "words":
        return {"w": [mat(w.reshape(1, -1))[0] for w in code.iter_words(skip_zero=ev["skip0"])], "fixed": fixed}
    if op == "contains":
        if ev["single"]:
            return {"r": all([v in code for v in ev["v"]])}
        return {"r": ev["v"] in code}
    if op == "generator":
        r = code.generator
        s.keep("generator", r)
        return {"r": mat(r), "fixed": fixed}
    if op == "rndword":
        seed_all(ev["seed"] + 5)
        before = rng_state()
        a = code.get_random_word(seed=ev["seed"])
        state = rng_state() == before
        seed_all(ev["seed"] + 77)
        b = code.get_random_word(seed=ev["seed"])
        return {"r": mat(a.reshape(1, -1))[0], "r2": mat(b.reshape(1, -1))[0], "state": state}
    if op == "cdims":
        get = {1: ("n", lambda: len(code)), 2: ("k", lambda: code.dimension), 3: ("rank", lambda: code.rank),
               4: ("checks", lambda: code.num_checks), 5: ("weight", lambda: code.get_weight())}
        return {get[x][0]: int(get[x][1]()) for x in ev["order"]}
    if op == "cdist":
        known0 = known(code.get_distance_if_known())
        d = num(code.get_distance_exact() if ev["how"] == "exact"
                else code.get_distance(bound=None if len(code) % 2 else False) if ev["how"] == "unbounded" else code.get_distance())
        return {"d": d, "known0": known0, "known1": known(code.get_distance_if_known()), "params": [num(x) for x in code.get_code_params()]}
    if op == "cdistv":
        fn = code.get_distance_exact if ev["how"] == "exact" else code.get_distance
        return {"d": num(fn(vector=ev["v"]))}
    if op == "cdistb":
        seed_all(ev["seed"])
        kw = {"osd": {}, "default": {}, "bf": {"with_BF": True}, "lsd": {"with_BP_LSD": True}, "ilp": {"with_ILP": True}, "guf": {"with_GUF": True},
              "lookup": {"with_lookup": True, "max_weight": len(code)}}[ev["dec"]]
        vec = {"vector": ev["vec"]} if ev["vec"] else {}
        try:
            if ev["how"] == "one" and (vec or code.dimension):
                return {"d": num(code.get_one_distance_bound(**vec, **kw))}
            if ev["how"] == "get":
                return {"d": num(code.get_distance(bound=ev["trials"], **vec, **kw))}
            cut = {"cutoff": ev["cutoff"]} if ev["how"] == "cutoff" else {}
            return {"d": num(code.get_distance_bound(ev["trials"], **cut, **vec, **kw))}
        except RuntimeError:
            if ev["dec"] in ("osd", "lsd", "bf") or (ev["dec"] == "default" and q == 2):
                return {"skip": True}  # the ldpc package refuses matrices with zero columns
            raise
    if op == "auto":
        group = code.get_automorphism_group()
        return {"r": sorted([int(i) for i in g.array_form] for g in group.generate()), "order": int(group.order)}
    if op == "setgen":
        try:
            code.set_generator(ev["m"])
            s.set_gen.add(ev["o"])
            return {"ok": True}
        except ValueError:
            return {"ok": False}
    if op == "ctrip":
        if ev["via"] == "copy":
            new = ClassicalCode(code)
        elif ev["via"] == "graph":
            new = ClassicalCode(ClassicalCode.graph_to_matrix(code.graph))
        else:
            new = ClassicalCode(ClassicalCode.graph_to_matrix(ClassicalCode.matrix_to_graph(code.matrix)))
        return {"m": mat(new.matrix), "n": len(new), "q": int(new.field.order)}
    raise KeyError(op)


def run(case) -> dict:
    s = Session()
    out = []
    for ev in case["script"]:
        rec = dict(ev)
        n0 = len(s.codes)
        try:
            rec.update({"exc": "", "skip": False, **do(s, ev)})
        except Exception as err:  # noqa: BLE001
            rec.update({"exc": exc_name(err), "skip": False, "msg": str(err)[:200]})
        if ev["op"] in MAKES and len(s.codes) == n0:
            s.codes.append(None)
            s.mats.append(None)
        rec["mut"] = s.mutations()
        out.append(rec)
    return {"key": case.get("key"), "ev": out}
