"""Replay of ReprSession scripts: operators, strings, Tanner graphs."""
from __future__ import annotations

import random
import warnings

import galois
import networkx as nx
import numpy as np

from qldpc import codes
from qldpc.math import op_to_string, symplectic_conjugate
from qldpc.objects import Node, Pauli, QuditOperator

from .common import exc_name, ints, seed_all

warnings.simplefilter("ignore")


def tup(v):
    return [int(x) for x in v]


def index_of(p: Pauli) -> int:
    try:
        i = p.index
    except Exception:
        return -1
    assert [10, 11][p] == 10 + i
    return i


def factor(f) -> str:
    p, v = f["p"], f["v"]
    return {"(": f"{p}({v})", "[": f"{p}[{v}]", "open": f"{p}({v}", "none": f"{p}", "neg": f"{p}(-{v})", "empty": f"{p}()",
            "space": f"{p}( {v})", "two": f"{p}({v})({v})"}[f["form"]]


def read_nodes(g):
    return [["d" if x.is_data else "c", int(x.index)] for x in g.nodes()]


def graph_source(ev, width):
    q, how = ev["q"], ev["from"]
    M = np.array(ev["M"], dtype=int).reshape(ev["m"], width)
    if how == "list":
        return M.tolist()
    if how == "ints":
        return M
    return galois.GF(q)(M)


def back(cls, g) -> dict:
    m = cls.graph_to_matrix(g)
    return {"back": ints(m), "backn": int(m.shape[1]), "backq": int(type(m).order)}


def qgraph(g) -> dict:
    kinds = {k.__name__ for *_, d in g.edges(data=True) for k in d}
    edges = []
    for a, b, d in g.edges(data=True):
        op = d[next(iter(d))]
        edges.append([int(a.index), int(b.index), *tup(op.value)])
        assert not a.is_data and b.is_data
    return {"nodes": read_nodes(g), "edges": edges, "kind": "+".join(sorted(kinds)), **back(codes.QuditCode, g)}


def do(ev) -> dict:
    op = ev["op"]
    if op == "pauli":
        a, b = Pauli.from_string(ev["a"]), Pauli.from_string(ev["b"])
        return {"prod": str(a * b), "inv": str(~a), "str": str(a), "val": tup(a.value), "index": index_of(a), "same": bool(a == b)}
    if op == "pauli-parse":
        return {"val": tup(Pauli.from_string(ev["s"]).value)}
    if op == "qop":
        a, b = QuditOperator(tuple(ev["v"])), QuditOperator(tuple(ev["w"]))
        s = str(a)
        return {"str": s, "back": tup(QuditOperator.from_string(s).value), "inv": tup((~a).value), "neg": tup((-a).value),
                "same": bool(a == b), "val": tup(a.value)}
    if op == "qop-parse":
        s = "*".join(map(factor, ev["fs"]))
        s = {"": s, "*": s + "*", "lead*": "*" + s, "plus": s + "+Z(1)", "I": "I", "I*": "I*" + s}[ev["junk"]]
        return {"val": tup(QuditOperator.from_string(s).value)}
    if op == "cgraph":
        src = graph_source(ev, ev["n"])
        if ev["from"] == "default":
            g = codes.ClassicalCode(np.array(ev["M"])).graph
        elif ev["from"] == "code":
            g = codes.ClassicalCode(src).graph
        else:
            g = codes.ClassicalCode.matrix_to_graph(src)
        return {"nodes": read_nodes(g), "edges": [[int(a.index), int(b.index), int(d["val"])] for a, b, d in g.edges(data=True)],
                **back(codes.ClassicalCode, g)}
    if op == "handgraph":
        rnd = random.Random(ev["shuffle"])
        nodes = [Node(i, is_data=False) for i in range(ev["m"])] + [Node(i) for i in range(ev["n"])]
        edges = [(i, j, v) for i, row in enumerate(ev["M"]) for j, v in enumerate(row) if v]
        rnd.shuffle(nodes), rnd.shuffle(edges)
        g = nx.DiGraph()
        g.add_nodes_from(nodes)
        for i, j, v in edges:
            g.add_edge(Node(i, is_data=False), Node(j), **({"val": v} if ev["vals"] else {}))
        if ev["q"]:
            g.order = ev["q"]
        return back(codes.ClassicalCode, g)
    if op == "qgraph":
        src = graph_source(ev, 2 * ev["n"])
        g = codes.QuditCode(src, is_subsystem_code=True).graph if ev["from"] == "code" else codes.QuditCode.matrix_to_graph(src)
        return qgraph(g)
    if op == "cssgraph":
        f = galois.GF(ev["q"])
        c = codes.CSSCode(f(ev["X"]), f(ev["Z"]), is_subsystem_code=True)
        strs = c.get_strings()
        d = codes.QuditCode.from_strings(*strs, field=ev["q"])
        return {**qgraph(c.graph), "mat": ints(c.matrix), "strs": strs, "sback": ints(d.matrix), "sq": int(d.field.order), "from": "code"}
    if op == "strings":
        c = codes.QuditCode(galois.GF(ev["q"])(np.array(ev["M"])), is_subsystem_code=True)
        strs = [str(s) for s in c.get_strings()]
        pad = [" " * ev["pad"] + s.replace(" ", " " * (1 + ev["pad"])) for s in strs]
        d = codes.QuditCode.from_strings(*pad, **({"field": ev["q"]} if ev["give"] else {}))
        return {"strs": strs, "back": ints(d.matrix), "backq": int(d.field.order)}
    if op == "ragged":
        lens = [ev["n"]] * 3
        lens[ev["at"] - 1] += ev["d"]
        d = codes.QuditCode.from_strings(*(" ".join(["I"] * k) for k in lens), field=ev["q"])
        return {"shape": list(d.matrix.shape)}
    if op == "opstring":
        v = ev["v"]
        v = galois.GF(2)(v) if ev["as"] == "field" else v if ev["as"] == "list" else np.array(v, dtype=ev["as"])
        s = op_to_string(v)
        return {"names": ["IXYZ"[p] for p in s], "sign": int(s.sign.real)}
    if op == "sconj":
        v = np.array(ev["M"], dtype=int)
        v = galois.GF(ev["q"])(v) if ev["q"] else v
        v = v[0] if ev["one"] else v
        before = np.array(v)
        r = symplectic_conjugate(v)
        return {"res": ints(np.reshape(np.asarray(r), (-1, r.shape[-1]))), "kept": bool(np.array_equal(np.array(v), before)) and r.shape == v.shape,
                "backq": int(type(r).order) if isinstance(r, galois.FieldArray) else 0}
    raise KeyError(op)


def run(case) -> dict:
    out = []
    seed_all(1)
    for ev in case["script"]:
        try:
            out.append({**ev, "exc": "", **do(ev)})
        except Exception as err:
            out.append({**ev, "exc": exc_name(err)})
    return {"ev": out}
