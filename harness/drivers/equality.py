"""Replay of EqualSession scripts: equality and equivalence of quantum codes and operators."""
from __future__ import annotations

import warnings

import galois
import numpy as np

from qldpc import abstract, codes
from qldpc.objects import Node, Pauli, QuditOperator

from .common import exc_name, mat, seed_all

warnings.simplefilter("ignore")


def matrix(rows, n, q, how):
    a = np.array(rows, dtype=int).reshape(len(rows), n)
    if how == "field":
        return galois.GF(q)(a), {}
    kw = {"field": q} if q != 2 else {}
    return (a.tolist() if how == "list" and len(rows) else a), kw


def make(ev):
    n, q = ev["n"], ev["q"]
    if not ev["css"]:
        m, kw = matrix(ev["X"], 2 * n, q, ev["how"])
        return codes.QuditCode(m, **kw)
    x, kw = matrix(ev["X"], n, q, ev["how"])
    z, kw = matrix(ev["Z"], n, q, ev["how"])
    return codes.CSSCode(x, z, **kw)


def named(ev):
    q, name = ev["q"], ev["name"]
    code = {
        "steane": lambda: codes.SteaneCode(), "five": lambda: codes.FiveQubitCode(), "iceberg": lambda: codes.IcebergCode(4),
        "surface": lambda: codes.SurfaceCode(2, 3, rotated=True, field=q), "toric": lambda: codes.ToricCode(2, 2, field=q), "bacon": lambda: codes.BaconShorCode(2, 2, q),
        "c6": lambda: codes.C6Code(), "hgp": lambda: codes.HGPCode(codes.RepetitionCode(2, q)),
    }[name]()
    if ev["plain"]:
        return codes.CSSCode(code.code_x, code.code_z) if isinstance(code, codes.CSSCode) else codes.QuditCode(code.matrix)
    return code


def derive(ev, code):
    how = ev["how"]
    if how == "copy":
        return codes.CSSCode(code.code_x, code.code_z) if isinstance(code, codes.CSSCode) else codes.QuditCode(code)
    if how == "canonical":
        return code.canonicalized
    if how == "general" or (how == "strings" and not len(code.matrix)):
        return codes.QuditCode(code.matrix)
    if how == "conj":
        return code.conjugated()
    return codes.QuditCode.from_strings(*code.get_strings(), field=code.field.order)


def data(code):
    return {"q_": code.field.order, "n_": len(code), "M": mat(code.matrix), "css_": isinstance(code, codes.CSSCode), "cls": type(code).__name__, "mx": len(code.matrix_x) if isinstance(code, codes.CSSCode) else 0}


ALIENS = {"none": lambda c: None, "int": lambda c: 1, "str": str, "list": lambda c: mat(c.matrix), "classical": lambda c: codes.ClassicalCode(c.matrix), "group": lambda c: abstract.CyclicGroup(2)}


def operators(ev):
    kind, u, v = ev["kind"], ev["u"], ev["v"]
    ordered = True
    if kind == "qudit":
        a, b, ua, va = QuditOperator(tuple(u)), QuditOperator(tuple(v)), u, v
    elif kind == "node":
        ua, va = [u[0] + 1, u[1] % 2], [v[0] + 1, v[1] % 2]
        a, b = Node(ua[0], bool(ua[1])), Node(va[0], bool(va[1]))
        ordered = ((a < b) + (b < a) + (a == b)) == 1
    elif kind == "pauli":
        ua, va = [u[0] % 2, u[1] % 2], [v[0] % 2, v[1] % 2]
        a, b = Pauli(tuple(ua)), Pauli(tuple(va))
    else:
        from itertools import permutations
        perms = list(permutations(range(3)))
        ua, va = [list(perms[(x[0] + 4 * x[1]) % 6]) for x in (u, v)]
        a, b = abstract.GroupMember(ua), abstract.GroupMember(va)
        ordered = ((a < b) + (b < a) + (a == b)) == 1
    try:
        same = hash(a) == hash(b)
    except TypeError:
        same = True  # unhashable
    return {"ua": list(ua), "va": list(va), "eq": bool(a == b), "qe": bool(b == a), "ne": bool(a != b), "hash": same, "ordered": bool(ordered)}


def run(case) -> dict:
    pool: list = []
    out = []
    seed_all(3)
    for ev in case["script"]:
        op = ev["op"]
        rec = {**ev, "skip": False, "exc": "", "q_": 2, "n_": 1, "M": [], "css_": False, "cls": "", "mx": 0}
        out.append(rec)
        try:
            if op in ("make", "derive", "named"):
                pool.append(None)
                if op == "derive" and pool[ev["o"] - 1] is None:
                    rec["skip"], rec["exc"] = True, "skipped"
                    continue
                if op == "derive" and ev["how"] == "conj" and pool[ev["o"] - 1].is_subsystem_code and False:
                    continue
                code = make(ev) if op == "make" else named(ev) if op == "named" else derive(ev, pool[ev["o"] - 1])
                rec.update(data(code))
                pool[-1] = code
            elif op == "operators":
                rec.update(operators(ev))
            else:
                a = pool[ev["a"] - 1]
                if a is None:
                    continue
                if op == "alien":
                    x = ALIENS[ev["what"]](a)
                    rec["eq"] = bool(a == x) or bool(x == a) or not (a != x)
                    continue
                b = pool[ev["b"] - 1]
                if b is None:
                    continue
                if ev["ask"] == "rank":
                    a.rank
                elif ev["ask"] == "logical":
                    a.get_logical_ops()
                elif ev["ask"] == "canonical":
                    b.canonicalized
                eq, qe, ne = a == b, b == a, a != b
                equiv = [codes.QuditCode.equiv(a, b), codes.QuditCode.equiv(b, a), codes.CSSCode.equiv(a, b), codes.CSSCode.equiv(b, a), codes.ClassicalCode.equiv(a, b)]
                rec.update({"eq": bool(eq), "qe": bool(qe), "ne": bool(ne), "equiv": [bool(x) for x in equiv], "typed": all(isinstance(x, (bool, np.bool_)) for x in (eq, qe, ne, *equiv))})
        except Exception as err:  # noqa: BLE001
            rec["exc"] = exc_name(err)
            rec["msg"] = str(err)[:200]
    return {"ev": out}
