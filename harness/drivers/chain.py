"""Replay of ChainSession scripts into qldpc.objects.ChainComplex."""
from __future__ import annotations

import warnings

import galois
import numpy as np

from qldpc import abstract as ab
from qldpc.objects import ChainComplex

from .common import exc_name, seed_all
from .group import build as build_group
from .ring import coefs

warnings.simplefilter("ignore")


class Base:
    def __init__(self, ev) -> None:
        self.field = galois.GF(ev["q"])
        self.is_ring = ev["kind"] == "ring"
        if self.is_ring:
            self.group = build_group(ev["group"], [])
            self.ring = ab.GroupRing(self.group, ev["q"])
            self.members = list(self.group.generate())
            self.mem = {tuple(m.array_form): i for i, m in enumerate(self.members)}

    def forms(self):
        return [list(map(int, m.array_form)) for m in self.members] if self.is_ring else [[0]]

    def array(self, o, style, n):
        if self.is_ring:
            vals = [[ab.RingMember(self.ring, *[(c, g) for c, g in zip(v, self.members) if c]) for v in row] for row in o["A"]]
            return ab.RingArray(np.array(vals, dtype=object).reshape(o["m"], o["n"]), self.ring)
        a = np.array([[v[0] for v in row] for row in o["A"]], dtype=int).reshape(o["m"], o["n"])
        return self.field(a) if style == "field" or (style == "mixed" and n % 2 == 0) else a

    def read(self, a):
        m, n = a.shape
        if self.is_ring and a.dtype == object:
            rows = [[coefs(x, self.mem) for x in row] for row in np.asarray(a, dtype=object)]
        else:
            rows = [[[int(x)] for x in row] for row in np.asarray(a)]
        return {"m": m, "n": n, "A": rows}


def report(base: Base, c: ChainComplex) -> dict:
    k = c.num_links
    lifted = True
    if base.is_ring:
        ops = [op.regular_lift() for op in c.ops if op.size]
        if len(ops) == len(c.ops):
            lifted = all(not np.any(a @ b) for a, b in zip(ops, ops[1:]))
        assert c.group == base.group
    return {"ops_": [base.read(op) for op in c.ops], "links": k, "field": int(c.field.order),
            "dims": [int(c.dim(j)) for j in range(k + 1)], "first": list(c.op(0).shape), "last": list(c.op(k + 1).shape),
            "lifted": bool(lifted)}


def do(chains: list, ev):
    op = ev["op"]
    if op == "chain":
        base = Base(ev)
        arrays = [base.array(o, ev["as"], n) for n, o in enumerate(ev["ops"])]
        ev["mem"] = base.forms()
        kw = {} if base.is_ring or all(isinstance(a, galois.FieldArray) for a in arrays) or ev["q"] == 2 else {"field": ev["q"]}
        c = ChainComplex(*arrays, **kw)
        res = report(base, c)
        chains.append((base, c, res["ops_"]))
        return res
    if op == "clash":
        f = ev["f"]
        g2, g3 = galois.GF(2), galois.GF(3)
        ring2, ring3 = ab.GroupRing(ab.CyclicGroup(2), 2), ab.GroupRing(ab.CyclicGroup(3), 2)
        ring23 = ab.GroupRing(ab.CyclicGroup(2), 3)
        z = lambda r: ab.RingArray([[r.zero]])  # noqa: E731
        if f == "fields":
            ChainComplex(g2.Zeros((1, 2)), g3.Zeros((2, 1)))
        elif f == "ring-field":
            ChainComplex(z(ring2), g2.Zeros((1, 2)))
        elif f == "groups":
            ChainComplex(z(ring2), z(ring3))
        elif f == "ringfields":
            ChainComplex(z(ring2), z(ring23))
        else:
            ChainComplex(g3.Zeros((2, 1)), field=2)
        return {}
    t = chains[ev["a"] - 1]
    if op == "T":
        if t is None:
            return {"skip": True}
        base, c, _ = t
        new = c.T
        res = report(base, new)
        res["tt"] = [base.read(o) for o in new.T.ops]
        chains.append((base, new, res["ops_"]))
        return res
    u = chains[ev["b"] - 1]
    if t is None or u is None:
        return {"skip": True}
    if op == "tclash":
        if t[0].is_ring == u[0].is_ring and t[0].field is u[0].field and (not t[0].is_ring or t[0].group == u[0].group):
            return {"skip": True}
        ChainComplex.tensor_product(t[1], u[1])
        return {}
    base = t[0]
    a, b = t[1], u[1]
    kw = {}
    if ev["how"] != "chains" and a.num_links == 1:
        a = a.ops[0]
    if ev["how"] == "raw" and b.num_links == 1:
        b = b.ops[0]
    c = ChainComplex.tensor_product(a, b, **kw)
    res = report(base, c)
    chains.append((base, c, res["ops_"]))
    return res


def run(case) -> dict:
    chains: list = []
    out = []
    seed_all(1)
    for ev in case["script"]:
        rec = dict(ev)
        n0 = len(chains)
        try:
            rec.update({"exc": "", "skip": False, **do(chains, rec)})
        except Exception as err:  # noqa: BLE001
            rec.update({"exc": exc_name(err), "skip": False, "msg": str(err)[:300]})
        if ev["op"] in ("chain", "T", "tensor") and len(chains) == n0:
            chains.append(None)
        rec["mut"] = [f"complex {n + 1}" for n, t in enumerate(chains) if t and [t[0].read(o) for o in t[1].ops] != t[2]]
        out.append(rec)
    return {"key": case.get("key"), "ev": out}
