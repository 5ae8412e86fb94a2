"""Replay of RandomSession scripts: randomised constructions under disturbed global random states."""
from __future__ import annotations

import os
import random
import warnings

import galois
import numpy as np
import sympy.core.random

from qldpc import abstract as ab
from qldpc import codes
from qldpc.codes import common
from qldpc.objects import Pauli

from .common import exc_name, mat

warnings.simplefilter("ignore")
TWIN = int(os.environ.get("TWIN", "0"))

CONDS = {
    "none": None,
    "nonzero": lambda a: bool(np.any(a)),
    "zerosum": lambda a: int(np.sum(a.ravel())) == 0,
    "first": lambda a: int(a.ravel()[0]) == 1,
    "rows": lambda a: bool(np.all(np.any(a, axis=-1))),
}


def form(p) -> list:
    return [int(x) for x in p.array_form]


def disturb(x):
    x += 7919 * TWIN
    random.seed(x)
    np.random.seed(x)
    sympy.core.random.seed(x)
    for _ in range(x % 5):
        random.random(), np.random.rand(), sympy.core.random.rng.random()


def states():
    return repr(np.random.get_state()) + repr(random.getstate())


def make_css(ev, cs):
    def seed_code(i):
        return cs[(i - 1) % len(cs)]

    how = ev["how"]
    q = {"field": ev["q"]} if ev["q"] != 2 else {}
    if how in ("hgp", "shp", "css"):
        a, b = seed_code(ev["a"]), seed_code(ev["b"])
        if a.field is not b.field or len(a) * len(b) > 24 or a.num_checks * b.num_checks > 12:
            b = a
        if len(a) > 4 or a.num_checks > 3:
            a = b = codes.ClassicalCode(np.array(a.matrix)[:2, :3], a.field.order)
        if how == "hgp":
            return codes.HGPCode(a, b)
        if how == "shp":
            return codes.SHPCode(a, b)
        return codes.CSSCode(a, a.dual())
    if how == "surface":
        return codes.SurfaceCode(2 + ev["a"] % 2, 2 + ev["b"] % 2, rotated=True, **q)
    if how == "toric":
        return codes.ToricCode(2, 2, rotated=True, **q)
    if how == "steane":
        return codes.SteaneCode()
    if how == "iceberg":
        return codes.IcebergCode(2 * (1 + ev["a"] % 3))
    return codes.BaconShorCode(2 + ev["a"] % 2, 2 + ev["b"] % 2, **q)


def make_group(ev):
    n, m, how = ev["n"], ev["m"], ev["how"]
    if how == "cyclic":
        return ab.CyclicGroup(n)
    if how == "dihedral":
        return ab.DihedralGroup(1 + n % 5)
    if how == "symmetric":
        return ab.SymmetricGroup(1 + n % 4)
    if how == "alternating":
        return ab.AlternatingGroup(2 + n % 3)
    if how == "quaternion":
        return ab.QuaternionGroup()
    if how == "product":
        return ab.CyclicGroup(1 + n % 4) * ab.DihedralGroup(m)
    if how == "abelian":
        return ab.AbelianGroup(m, 1 + n % 3, direct_sum=bool(n % 2))
    if how == "table":
        k = 1 + n % 6
        return ab.Group.from_table([[(i + j) % k for j in range(k)] for i in range(k)])
    return ab.TrivialGroup()


def step(ev, objs):
    op = ev["op"]
    seed = ev.get("seed", -1)
    kw = {"seed": seed} if seed >= 0 else {}
    if op == "disturb":
        disturb(ev["x"])
        return {}
    if op == "scramble":
        before = states()
        r = common.get_scrambled_seed(seed)
        return {"r": int(r), "state": states() == before}
    if op == "array":
        cond = CONDS[ev["cond"]]
        if cond:
            kw["satisfy"] = cond
        shape = ev["shape"][0] if len(ev["shape"]) == 1 else tuple(ev["shape"])
        before = states()
        a = common.get_random_array(galois.GF(ev["q"]), shape, **kw)
        return {"q_": type(a).order, "shape_": list(a.shape), "r": [int(x) for x in np.asarray(a).ravel()], "state": states() == before, "ok": cond is None or bool(cond(a))}
    if op == "code":
        before = states()
        code = codes.ClassicalCode.random(ev["n"], ev["checks"], *([] if ev["q"] == 2 and ev["n"] % 2 else [ev["q"]]), **kw)
        objs["code"].append(code)
        return {"q_": code.field.order, "r": mat(code.matrix), "state": states() == before}
    if op == "word":
        code = objs["code"][ev["o"] - 1]
        before = states()
        w = code.get_random_word(**kw)
        return {"r": [int(x) for x in w], "state": states() == before}
    if op == "css":
        objs["css"].append(None)
        code = make_css(ev, objs["code"])
        objs["css"][-1] = code
        return {"q_": code.field.order, "n_": len(code), "hx": mat(code.matrix_x), "hz": mat(code.matrix_z), "from": ev["how"] in ("hgp", "shp", "css")}
    if op == "lop":
        code = objs["css"][ev["o"] - 1]
        if code is None or ev["nontrivial"] and code.dimension == 0:
            return {"skip": True}
        if ev["ask"]:
            code.get_logical_ops()
        pauli = Pauli.X if ev["pauli"] == "x" else Pauli.Z
        if ev["nontrivial"]:
            kw["ensure_nontrivial"] = True
        before = states()
        w = code.get_random_logical_op(pauli, **kw)
        return {"r": [int(x) for x in w], "state": states() == before}
    if op == "grp":
        g = make_group(ev)
        objs["grp"].append(g)
        return {"mem": sorted(form(m) for m in g.generate())}
    g = objs["grp"][ev["o"] - 1]
    if op == "member":
        return {"r": form(g.random(**kw))}
    if op == "subset":
        noid, mem = ev["noid"], list(g.generate())
        if noid and 0 < ev["size"] <= len(mem):
            inv = sum(1 for m in mem if m == ~m) - 1
            if ev["size"] > len(mem) - 1 or (ev["size"] % 2 and not inv):
                return {"skip": True}
        if noid:
            kw["exclude_identity"] = True
        got = g.random_symmetric_subset(ev["size"], **kw)
        return {"r": sorted(form(m) for m in got)}
    raise KeyError(op)


def run(case) -> dict:
    objs: dict = {"code": [], "css": [], "grp": []}
    out = []
    disturb(5)
    for ev in case["script"]:
        rec = {**ev, "skip": False, "exc": "", "state": True, "ok": True, "r": [], "hx": [], "hz": [], "q_": 2, "n_": 1, "from": False, "mem": []}
        try:
            rec.update(step(ev, objs))
        except Exception as err:  # noqa: BLE001
            rec["exc"] = exc_name(err)
            rec["msg"] = str(err)[:200]
        out.append(rec)
    return {"ev": out}
