"""Replay of RingSession scripts into qldpc.abstract."""
from __future__ import annotations

import warnings

import galois
import numpy as np

from qldpc import abstract as ab

from .common import exc_name, mat, seed_all
from .group import build as build_group

warnings.simplefilter("ignore")
DUMMY = object()


def coefs(x, mem) -> list:
    """Coefficients of a ring element, read off its terms (mem: member -> index)."""
    v = [0] * len(mem)
    field = x.field
    for val, member in x:
        k = mem[tuple(member.array_form)]
        v[k] = int(field(v[k]) + field(int(val)))
    return v


class Ring:
    def __init__(self, ev) -> None:
        self.group = build_group(ev["group"], [])
        self.q = ev["q"]
        self.key = (str(sorted(ev["group"].items(), key=str)), self.q)
        self.ring = ab.GroupRing(self.group, None if self.q == 2 and ev["plain"] else self.q)
        self.members = list(self.group.generate())
        self.mem = {tuple(m.array_form): i for i, m in enumerate(self.members)}
        self.plain = ev["plain"] and self.q == 2

    def terms(self, v):
        return [(int(c), self.members[i]) for i, c in enumerate(v) if c]

    def elem(self, v):
        return ab.RingMember(self.ring, *self.terms(v))

    def read(self, x) -> list:
        return coefs(x, self.mem)

    def readarr(self, a) -> list:
        a = np.asarray(a, dtype=object)
        assert a.ndim == 2
        return [[self.read(x) for x in row] for row in a]


class Session:
    def __init__(self) -> None:
        self.rings: list = []
        self.elems: list = []  # (ring, element, coefficients)
        self.arrs: list = []

    def mutations(self) -> list:
        bad = [f"element {n + 1}" for n, t in enumerate(self.elems) if t and t[0].read(t[1]) != t[2]]
        bad += [f"array {n + 1}" for n, t in enumerate(self.arrs) if t and t[0].readarr(t[1]) != t[2]]
        return bad


def keep(s, ring, x):
    if x is None:
        s.elems.append(None)
        return {"none": True, "v_": []}
    assert isinstance(x, ab.RingMember), type(x)
    assert x.ring == ring.ring
    v = ring.read(x)
    s.elems.append((ring, x, list(v)))
    return {"none": False, "v_": v}


def keeparr(s, ring, a):
    assert isinstance(a, ab.RingArray), type(a)
    assert a.ring == ring.ring
    v = ring.readarr(a)
    s.arrs.append((ring, a, v))
    return {"A_": v}


def do(s: Session, ev):
    op = ev["op"]
    if op == "ring":
        r = Ring(ev)
        s.rings.append(r)
        lifts = [r.group.lift(m) for m in r.members]
        q = type(lifts[0]).order if isinstance(lifts[0], galois.FieldArray) else ev["group"].get("lq", 0)
        return {"mem": [list(map(int, m.array_form)) for m in r.members], "lifts": [mat(x) for x in lifts],
                "dim": int(r.group.lift_dim), "liftq": q, "field": int(r.ring.field.order)}
    if op in ("elem", "arr", "built"):
        r = s.rings[ev["ring"] - 1]
        if r is None:
            return {"skip": True}
        if op == "elem":
            ring = r.group if r.plain else r.ring
            how = ev["how"]
            if how == "terms":
                ts = [(c, r.members[i - 1]) for c, i in ev["ts"]]
                ts = [m if c == 1 and n % 2 else ((r.ring.field(c), m) if n % 3 == 0 else (c, m)) for n, (c, m) in enumerate(ts)]
                return keep(s, r, ab.RingMember(ring, *ts))
            if how == "vector":
                v = np.array(ev["v"]) if len(ev["v"]) % 2 else r.ring.field(ev["v"])
                return keep(s, r, ab.RingMember.from_vector(ring, v))
            return keep(s, r, r.ring.zero if how == "zero" else r.ring.one)
        if op == "arr":
            a = np.array(ev["A"], dtype=int)
            if ev["how"] == "trivial":
                data = r.ring.field(a[:, :, 0])
                return keeparr(s, r, ab.TrivialGroup.to_ring_array(a[:, :, 0].tolist() if r.plain else data))
            if ev["how"] == "field":
                return keeparr(s, r, ab.RingArray.from_field_array(r.ring, r.ring.field(a)))
            rows = [[r.elem(v) for v in row] for row in ev["A"]]
            return keeparr(s, r, ab.RingArray(rows) if ev["how"] == "raw" else ab.RingArray.build(rows, r.ring))
        rows = [[x if kind == "int" else r.members[x - 1] for kind, x in row] for row in ev["E"]]
        return keeparr(s, r, ab.RingArray.build(rows, r.ring))
    if op == "ringobs":
        r = s.rings[ev["a"] - 1]
        if r is None:
            return {"skip": True}
        return {"abelian": bool(r.ring.is_abelian), "semisimple": bool(r.ring.is_semisimple)}
    if op == "ringeq":
        a, b = s.rings[ev["a"] - 1], s.rings[ev["b"] - 1]
        if a is None or b is None:
            return {"skip": True}
        return {"r": bool(a.ring == b.ring), "r2": bool(b.ring == a.ring), "hash": hash(a.ring) == hash(b.ring), "same": a.key == b.key}
    if op in ("bin", "eq", "int", "member", "un", "obs"):
        t = s.elems[ev["a"] - 1]
        if t is None:
            return {"skip": True}
        r, x, _ = t
        if op in ("bin", "eq"):
            u = s.elems[ev["b"] - 1]
            if u is None:
                return {"skip": True}
            y = u[1]
            if op == "eq":
                return {"r": bool(x == y), "r2": bool(y == x)}
            return keep(s, r, x + y if ev["f"] == "add" else x - y if ev["f"] == "sub" else x * y)
        if op in ("int", "member"):
            c = ev["c"] if op == "int" else r.members[ev["g"] - 1]
            f = ev["f"]
            return keep(s, r, x + c if f == "add" else x - c if f == "sub" else x * c if f == "mul" else c * x if f == "rmul" else c + x)
        if op == "un":
            f = ev["f"]
            return keep(s, r, -x if f == "neg" else x.T if f == "T" else x.copy() if f == "copy" else x.inverse() if f == "inverse" else x ** ev["k"])
        f = ev["f"]
        if f == "lift":
            return {"r": mat(x.lift())}
        if f == "regular":
            return {"r": mat(x.regular_lift())}
        if f == "vector":
            v = x.to_vector()
            res = {"r": [int(c) for c in v]}
            if ev["spoil"]:
                v[...] = 1 - (np.asarray(v) != 0)
            return res
        if f == "back":
            return {"r": r.read(ab.RingMember.from_vector(x.ring, x.to_vector()))}
        return {"r": bool(x)}
    t = s.arrs[ev["a"] - 1]
    if t is None:
        return {"skip": True}
    r, x, _ = t
    if op == "arrscale":
        y = r.members[ev["g"] - 1]
        if ev["e"]:
            if s.elems[ev["e"] - 1] is None or s.elems[ev["e"] - 1][0] is not r:
                return {"skip": True}
            y = s.elems[ev["e"] - 1][1]
        return keeparr(s, r, y * x if ev["left"] else x * y)
    if op == "arrmix":
        u = s.arrs[ev["b"] - 1]
        if u is None:
            return {"skip": True}
        y = u[1]
        f, y, x = ev["f"], y[:1, :1], x[:1, :1]
        x + y if f == "add" else x - y if f == "sub" else x @ y.T if f == "matmul" else np.vstack([x, y])
        return {}
    if op in ("arrmul", "arradd", "arreq"):
        u = s.arrs[ev["b"] - 1]
        if u is None:
            return {"skip": True}
        y = u[1]
        if op == "arrmul":
            return keeparr(s, r, x @ y)
        if op == "arradd":
            return keeparr(s, r, x + y if ev["f"] == "add" else x - y if ev["f"] == "sub" else np.hstack([x, y]) if ev["f"] == "hstack" else np.vstack([x, y]))
        return {"r": bool(np.array_equal(x, y)), "entries": [[bool(v) for v in row] for row in np.asarray(x == y)]}
    f = ev["f"]
    if op == "arrun":
        return keeparr(s, r, x.T if f == "T" else ~x if f == "invert" else -x if f == "neg" else x * ev["c"])
    if f == "reduce":
        y = x.row_reduce()
        assert isinstance(y, ab.RingArray) and y.shape[1] == x.shape[1]
        return {"r": r.readarr(y)}
    if f == "null":
        y = x.null_space()
        assert isinstance(y, ab.RingArray) and y.shape[1] == x.shape[1]
        return {"r": r.readarr(y)}
    if f == "field":
        a = x.to_field_array()
        return {"r": np.asarray(a).astype(int).tolist(), "back": r.readarr(ab.RingArray.from_field_array(r.ring, a))}
    if f == "vector":
        a = x[ev["row"] - 1].to_field_vector()
        b = ab.RingArray.from_field_vector(r.ring, a)
        return {"r": [int(c) for c in a], "back": [r.read(y) for y in b]}
    if f == "regular":
        return {"r": mat(x.regular_lift())}
    if f == "lift":
        return {"r": mat(x.lift())}
    raise KeyError(op)


LISTS = {"ring": "rings", "elem": "elems", "bin": "elems", "int": "elems", "member": "elems", "un": "elems",
         "arr": "arrs", "built": "arrs", "arrun": "arrs", "arrmul": "arrs", "arradd": "arrs", "arrscale": "arrs"}


def run(case) -> dict:
    s = Session()
    out = []
    seed_all(1)
    for ev in case["script"]:
        rec = dict(ev)
        which = LISTS.get(ev["op"])
        n0 = len(getattr(s, which)) if which else 0
        try:
            rec.update({"exc": "", "skip": False, **do(s, ev)})
        except Exception as err:  # noqa: BLE001
            rec.update({"exc": exc_name(err), "skip": False, "msg": str(err)[:200]})
        if which and len(getattr(s, which)) == n0:
            getattr(s, which).append(None)
        if which == "elems":
            rec.setdefault("none", False)
            rec.setdefault("v_", [])
        rec["mut"] = s.mutations()
        out.append(rec)
    return {"key": case.get("key"), "ev": out}
