"""Replay of TannerSession scripts: Cayley complexes, Tanner codes, quantum Tanner codes."""
from __future__ import annotations

import os
import random
import tempfile
import warnings

import galois
import networkx as nx
import numpy as np

from qldpc import abstract as ab
from qldpc import codes
from qldpc.objects import CayleyComplex

from .common import exc_name, mat, seed_all
from .group import build as build_group
from .group import form

warnings.simplefilter("ignore")


def face(f):
    return sorted(form(x) for x in f)


def edges(g):
    return [[form(a), form(b), d["type"]] for a, b, d in g.edges(data=True)]


def incidences(g):
    return [[form(a), face(f), form(d["sort"][0]), form(d["sort"][1])] for a, f, d in g.edges(data=True)]


def members(s):
    return [ab.GroupMember(p) for p in s]


def cayley(ev):
    A, B = members(ev["A"]), members(ev["B"])
    kind = {"list": list, "set": set, "tuple": tuple}[ev["as"]]
    raw = CayleyComplex.build_cayley_graph(kind(A), kind(B))
    res = {"tnc": bool(CayleyComplex.satisfies_total_no_conjugacy(kind(A), kind(B))), "rawnodes": [form(x) for x in raw.nodes()], "rawedges": edges(raw)}
    try:
        c = CayleyComplex(kind(A), *([] if ev["one"] else [kind(B)]), bipartite=ev["bip"])
        x, z = codes.QTCode.get_subgraphs(c)
        res.update(nodes=[form(v) for v in c.graph.nodes()], edges=edges(c.graph), ca=[form(v) for v in c.cover_subset_a], cb=[form(v) for v in c.cover_subset_b],
                   sa=[form(v) for v in c.subset_a], sb=[form(v) for v in c.subset_b], bip_=bool(c.bipartite), xe=incidences(x), ze=incidences(z), exc="")
    except Exception as err:
        res["exc"] = exc_name(err)
    return res


def name(kind, side, i):
    return {"int": 100 * side + i, "str": f"{side}{i:02d}", "tuple": (side, i)}[kind]


def tanner(ev):
    rnd = random.Random(ev["order"])
    links = [(i, j, ev["lab"][i][t]) for i, nb in enumerate(ev["nbr"]) for t, j in enumerate(nb)]
    rnd.shuffle(links)
    g = nx.DiGraph()
    for i, j, lab in links:
        g.add_edge(name(ev["names"], 0, i), name(ev["names"], 1, j), **({"sort": lab} if ev["sort"] else {}))
    sub = codes.ClassicalCode(galois.GF(ev["q"])(ev["H"]))
    code = codes.TannerCode(g, sub)
    return {"M": mat(code.matrix), "q_": int(code.field.order), "again": bool(np.array_equal(codes.TannerCode(g, sub).matrix, code.matrix))}


def utanner(ev):
    g = nx.Graph()
    count: dict = {}
    for a, b in ev["edges"]:
        labels = {}
        for v in (a, b):
            labels[v] = ev["lab"][v][count.get(v, 0)]
            count[v] = count.get(v, 0) + 1
        g.add_edge(a, b, **({"sort": labels} if ev["sort"] else {}))
    sub = codes.ClassicalCode(galois.GF(ev["q"])(ev["H"]))
    code = codes.TannerCode(g, sub)
    return {"M": mat(code.matrix), "again": bool(np.array_equal(codes.TannerCode(g, sub).matrix, code.matrix))}


def columns(code):
    """The faces of the complex, in the order of the qudits of a quantum Tanner code."""
    gx, _ = codes.QTCode.get_subgraphs(code.complex)
    gx = getattr(code.code_x, "subgraph", gx)
    sources = sorted(v for v in gx if gx.in_degree(v) == 0)
    deg = gx.out_degree(sources[0])
    p = next(x for x in (31, 101, 211) if x > deg)
    probe = codes.TannerCode(gx, codes.ClassicalCode([list(range(1, deg + 1))], p)).matrix
    cols: dict = {}
    for row, v in zip(np.asarray(probe), sources):
        order = sorted(gx.neighbors(v), key=lambda f: gx[v][f]["sort"])
        for c in np.flatnonzero(row):
            cols[int(c)] = face(order[int(row[c]) - 1])
    return [cols[i] for i in range(len(code))]


def seed_code(H, n, q, style):
    a = galois.GF(q)(np.array(H, dtype=int).reshape(-1, n))
    return codes.ClassicalCode(a) if style == "code" else a


def data(c):
    return {"HA": mat(c.code_a.matrix), "HB": mat(c.code_b.matrix), "X": mat(c.matrix_x), "Z": mat(c.matrix_z), "q_": int(c.field.order)}


def make(ev):
    return codes.QTCode(members(ev["A"]), members(ev["B"]), seed_code(ev["Ha"], ev["na"], ev["q"], ev["style"]),
                        None if ev["none"] else seed_code(ev["Hb"], ev["nb"], ev["q"], ev["style"]), bipartite=ev["bip"])


def save(ev, c):
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, ev["dir"], "code.txt")
        headers = ["\n".join(ev["headers"])] if ev["multi"] and ev["headers"] else ev["headers"]
        c.save(path, *headers)
        d = codes.QTCode.load(path)
        if ev["twice"]:
            d.save(path)
            d = codes.QTCode.load(path)
        left = os.listdir(os.path.dirname(path))
    assert left == ["code.txt"]
    return {"A": [form(x) for x in d.complex.subset_a], "B": [form(x) for x in d.complex.subset_b], "bip": bool(d.complex.bipartite), **data(d),
            "q": int(d.field.order), "eq": bool(c == d) and not bool(c != d)}


def other_matrix(code):
    """The seed code with one check more or less."""
    m = np.asarray(code.matrix)
    return codes.ClassicalCode(code.field(np.vstack([m, m[:1] if len(m) else np.ones((1, len(code)), dtype=int)])))


def compare(ev, qts):
    a, b = qts[ev["a"] - 1], qts[ev["b"] - 1]
    ch = ev["change"]
    args = dict(subset_a=a.complex.subset_a, subset_b=a.complex.subset_b, code_a=a.code_a, code_b=a.code_b, bipartite=a.complex.bipartite)
    if ch == "other":
        pass
    elif ch == "css":
        b = codes.CSSCode(a.matrix_x, a.matrix_z)
    else:
        if ch in ("code_a", "code_b"):
            args[ch] = other_matrix(args[ch])
        elif ch == "bip":
            args["bipartite"] = not args["bipartite"]
        elif ch in ("subset_a", "subset_b"):  # as many members, but other ones
            old = args[ch]
            G = list(ab.Group(*a.complex.subset_a, *a.complex.subset_b).generate())
            new = next((s for x in G for y in G for s in [frozenset({x, ~x, y, ~y})] if len(s) == len(old) and s != old), None)
            if new is None:
                return {"done": False}
            args[ch] = set(new)
        try:
            b = codes.QTCode(**args)
        except ValueError:
            return {"done": False}
    return {"done": True, "r": bool(a == b), "r2": bool(b == a)}


def rand(ev):
    G = build_group(ev["group"], [])
    ca, cb = seed_code(ev["Ha"], ev["na"], ev["q"], "code"), seed_code(ev["Hb"], ev["nb"], ev["q"], "code")

    def draw():
        return codes.QTCode.random(G, ca, None if ev["none"] else cb, bipartite=ev["bip"], one_subset=ev["one"], seed=ev["seed"])

    seed_all(5)
    before = np.random.get_state()[1].tolist()
    c = draw()
    after = np.random.get_state()[1].tolist()
    seed_all(6)
    G.random(), np.random.rand(), random.random()
    d = draw()
    return {"A1": [form(x) for x in c.complex.subset_a], "B1": [form(x) for x in c.complex.subset_b], "mem": [form(x) for x in G.generate()], **data(c), "bip_": bool(c.complex.bipartite),
            "same": c.complex.subset_a == d.complex.subset_a and c.complex.subset_b == d.complex.subset_b and np.array_equal(c.matrix, d.matrix), "global": before == after}


def run(case) -> dict:
    out = []
    qts: list = []
    for ev in case["script"]:
        seed_all(1)
        rec = {**ev, "exc": ""}
        op = ev["op"]
        try:
            if op == "qt":
                qts.append(None)
                c = make(ev)
                rec.update(cols=columns(c), **data(c))
                qts[-1] = c
            elif op == "qtsave":
                c = qts[ev["o"] - 1]
                rec.update(save(ev, c) if c is not None else {"exc": "none"})
            elif op == "qteq":
                ok = qts[ev["a"] - 1] is not None and (qts[ev["b"] - 1] is not None or ev["change"] != "other")
                rec.update(compare(ev, qts) if ok else {"exc": "none"})
            elif op == "skip":
                pass
            else:
                rec.update({"cayley": cayley, "tanner": tanner, "utanner": utanner, "qtrandom": rand}[op](ev))
        except Exception as err:
            rec.update(exc=exc_name(err), msg=str(err)[:200])
        out.append(rec)
    return {"ev": out}
