"""Replay of ProductSession scripts into the product constructions of qldpc.codes."""
from __future__ import annotations

import warnings

import galois
import networkx as nx
import numpy as np
import sympy

from qldpc import abstract as ab
from qldpc import codes
from qldpc.objects import Pauli

from .common import exc_name, mat, num, seed_all
from .group import build as build_group

warnings.simplefilter("ignore")
SYMBOLS = sympy.symbols("x y z")


def bare(graph):
    """The same graph, with only its nodes and edges."""
    g = nx.DiGraph()
    g.add_nodes_from(graph.nodes())
    g.add_edges_from(graph.edges())
    return g


def seed(A, q, style):
    if style == "code":
        return codes.ClassicalCode(A, q)
    if style == "field":
        return galois.GF(q)(np.array(A))
    return np.array(A)


def poly(terms):
    total = sympy.Integer(0)
    for c, exps in terms:
        term = sympy.Integer(c)
        for s, e in zip(SYMBOLS, exps):
            term *= s**e
        total += term
    return total


def report(code, dist=False) -> dict:
    n = len(code)
    conj = getattr(code, "_default_conjugate", [])
    res = {"X_": mat(code.matrix_x), "Z_": mat(code.matrix_z), "n_": n, "q_": int(code.field.order),
           "k_": int(code.dimension), "sub": bool(code.is_subsystem_code), "L": mat(code.get_logical_ops()),
           "S": mat(code.get_stabilizer_ops()), "sectors": mat(code.sector_size) if hasattr(code, "sector_size") else [],
           "conj": [int(i) for i in np.arange(n)[conj]] if isinstance(conj, slice) else sorted(map(int, conj))}
    fresh = codes.CSSCode(code.matrix_x, code.matrix_z, res["q_"])
    res["k2_"], res["g_"] = int(fresh.dimension), int(code.gauge_dimension)
    res["dist"] = bool(dist)
    if dist:
        res["dx"], res["dz"] = num(code.get_distance(Pauli.X)), num(code.get_distance(Pauli.Z))
    return res


def ring_array(ring, members, A):
    return ab.RingArray(np.array([[ab.RingMember(ring, *[(c, g) for c, g in zip(v, members) if c]) for v in row] for row in A], dtype=object), ring)


def do(ev):
    op = ev["op"]
    q = ev.get("q", 2)
    kwf = {} if q == 2 else {"field": q}
    if op == "tb":
        return report(codes.TBCode(seed(ev["A"], q, ev["as"]), seed(ev["B"], q, ev["as"]), **kwf))
    if op == "qc":
        a, b = poly(ev["pa"]), poly(ev["pb"])
        free = a.free_symbols | b.free_symbols
        if not a.free_symbols or not b.free_symbols or free != set(SYMBOLS[: ev["ns"]]):
            return {"skip": True}  # a constant polynomial, or a symbol that does not occur
        orders = ev["orders"]
        if ev["how"] == "dict":
            orders = {SYMBOLS[s - 1]: o for s, o in zip(ev["order"], orders)}
        else:
            ev["order"] = list(range(1, ev["ns"] + 1))
        cls = codes.BBCode if ev["cls"] == "BB" else codes.QCCode
        return report(cls(orders, a, b, **kwf))
    if op == "bbclash":
        x = SYMBOLS[: ev["ns"]]
        codes.BBCode([2, 3, 2][: ev["no"]], 1 + sum(x), sum(x))
        return {}
    if op in ("hgp", "shp"):
        a, b = seed(ev["A"], q, ev["as"]), None if ev["one"] else seed(ev["B"], q, ev["as"])
        if op == "shp":
            code = codes.SHPCode(a, b, **kwf, set_logicals=ev["set"])
            small = q ** (int(code.dimension) + len(code.matrix_x)) < 3000 and len(code) <= 9
            return report(code, dist=code.dimension > 0 and small)
        code = codes.HGPCode(a, b, **kwf, set_logicals=ev["set"])
        res = report(code)
        res["graphed"], res["G"] = True, []
        if np.size(ev["A"]) and np.size(ev["B"]):
            ca = codes.ClassicalCode(ev["A"], q)
            cb = codes.ClassicalCode(ev["B"], q)
            ga, gb = ca.graph, cb.graph
            if q == 2 and len(ev["A"]) % 2:  # graphs without edge values are over the binary field
                ga, gb = bare(ga), bare(gb)
            g = codes.HGPCode.get_graph_product(ga, gb)
            res["G"] = mat(codes.QuditCode.graph_to_matrix(g))
        else:
            res["graphed"] = False
        return res
    if op == "shyps":
        code = codes.SHYPSCode(ev["a"], ev["b"] or None, set_logicals=ev["set"])
        a, b = codes.SimplexCode(ev["a"]), codes.SimplexCode(ev["b"] or ev["a"])
        ev.update(q=2, A=mat(a.matrix), B=mat(b.matrix), m1=a.num_checks, n1=len(a), m2=b.num_checks, n2=len(b))
        return report(code, dist=True)
    group = build_group(ev["group"], [])
    ring = ab.GroupRing(group, q)
    members = list(group.generate())
    ev["mem"] = [list(map(int, m.array_form)) for m in members]
    lifts = [np.array(group.lift(m)) for m in members]
    ev["lifts"] = [mat(x % q) for x in lifts]
    ev["dim"] = int(len(lifts[0]))
    A = ring_array(ring, members, ev["A"])
    B = None if ev["one"] else ring_array(ring, members, ev["B"])
    return report((codes.LPCode if op == "lp" else codes.SLPCode)(A, B))


def run(case) -> dict:
    out = []
    seed_all(1)
    for ev in case["script"]:
        rec = dict(ev)
        try:
            rec.update({"exc": "", "skip": False, **do(rec)})
        except Exception as err:  # noqa: BLE001
            rec.update({"exc": exc_name(err), "skip": False, "msg": str(err)[:300]})
        out.append(rec)
    return {"key": case.get("key"), "ev": out}
