"""Replay of WideSession scripts: distances of long binary codes."""
from __future__ import annotations

from unittest import mock

import numpy as np

from qldpc import codes
from qldpc.codes.distance import get_distance_classical, get_distance_quantum
from qldpc.objects import Pauli

from .common import exc_name, num, seed_all


def dense(rows, n):
    out = np.zeros((len(rows), n), dtype=int)
    for i, row in enumerate(rows):
        out[i, np.array(row, dtype=int) - 1] = 1
    return out


def kernel(rows, n):
    """A basis of the vectors with even overlap with every row."""
    left = [set(r) for r in rows]
    piv = {}
    for i in range(len(left)):
        row = left[i]
        if not row:
            continue
        p = min(row)
        for j in range(len(left)):
            if j != i and p in left[j]:
                left[j] = left[j] ^ row
        piv[p] = i
    return [[f] + [p for p, i in piv.items() if f in left[i]] for f in range(1, n + 1) if f not in piv]


def do(ev):
    n = ev["n"]
    if ev["op"] == "wcode":
        code = codes.ClassicalCode.from_generator(dense(ev["m"], n))
        out = {}
        if ev["ask"] in ("vector", "both"):
            vec = dense([ev["v"]], n)[0]
            out["dv"] = num(code.get_distance(vector=vec))
        if ev["ask"] in ("dist", "both"):
            out["d"] = num(code.get_distance())
        return {**out, "rn": len(code), "rk": int(code.dimension)}
    if ev["op"] == "wraw":
        ops, stabs = dense(ev["m"], ev["w"]), dense(ev["s"], ev["w"])
        kw = {"block_size": ev["block"], "use_numba": ev["how"] == "numba"}
        if ev["hom"] and not len(stabs):
            run = lambda: get_distance_classical(ops, **kw)  # noqa: E731
        else:
            run = lambda: get_distance_quantum(ops, stabs, homogeneous=ev["hom"], **kw)  # noqa: E731
        if ev["how"] == "old":  # numpy before version 2 has no bitwise_count
            with mock.patch.object(np, "bitwise_count", None):
                return {"d": num(run())}
        return {"d": num(run())}
    hz = dense(kernel(ev["lx"] if ev["sub"] else ev["lx"] + ev["hx"], n), n)
    hx = dense(ev["hx"], n)
    kw = {"is_subsystem_code": True} if ev["sub"] else {}
    code = codes.CSSCode(hx, hz, **kw) if ev["pauli"] == "X" else codes.CSSCode(hz, hx, **kw)
    d = num(code.get_distance(Pauli.X if ev["pauli"] == "X" else Pauli.Z))
    return {"d": d, "rn": len(code), "rk": int(code.dimension)}


def run(case) -> dict:
    out = []
    for ev in case["script"]:
        rec = dict(ev)
        seed_all(1)
        try:
            rec.update({"exc": "", **do(ev)})
        except Exception as err:  # noqa: BLE001
            rec.update({"exc": exc_name(err), "msg": str(err)[:200]})
        out.append(rec)
    return {"key": case.get("key"), "ev": out}
