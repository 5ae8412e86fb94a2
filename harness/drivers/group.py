"""Replay of GroupSession scripts into qldpc.abstract."""
from __future__ import annotations

import warnings

import galois
import numpy as np
import sympy.combinatorics as comb

from qldpc import abstract as ab

from .common import exc_name, mat, seed_all

warnings.simplefilter("ignore")


def form(p) -> list:
    return [int(x) for x in p.array_form]


def columns(m, n) -> list:
    m = np.asarray(m)
    assert m.shape == (n, n)
    return [[[int(r), int(m[r, c])] for r in np.flatnonzero(m[:, c])] for c in range(n)]


def build(ev, groups):
    fam = ev["fam"]
    if fam == "trivial":
        return ab.TrivialGroup()
    if fam == "cyclic":
        return ab.CyclicGroup(ev["n"])
    if fam == "abelian":
        return ab.AbelianGroup(*ev["orders"], direct_sum=ev["sum"])
    if fam == "dihedral":
        return ab.DihedralGroup(ev["n"])
    if fam == "alternating":
        return ab.AlternatingGroup(ev["n"])
    if fam == "symmetric":
        return ab.SymmetricGroup(ev["n"])
    if fam == "quaternion":
        return ab.QuaternionGroup()
    if fam == "perms":
        if ev["how"] == "group":
            return ab.Group(*[ab.GroupMember(g) for g in ev["gens"]])
        return ab.Group.from_sympy(comb.PermutationGroup([comb.Permutation(g) for g in ev["gens"]]))
    if fam == "mats":
        mats = ev["mats"]
        if ev["q"]:
            mats = [galois.GF(ev["q"])(m) for m in mats]
        elif ev["as"] == "array":
            mats = [np.array(m) for m in mats]
        return ab.Group.from_generating_mats(*mats)
    if fam == "sl":
        return ab.SL(ev["d"], ev["q"], linear_rep=ev["linear"])
    if fam == "psl":
        return ab.PSL(ev["d"], ev["q"], linear_rep=ev["linear"])
    if fam == "product":
        a, b = groups[ev["a"] - 1], groups[ev["b"] - 1]
        return a * b if ev["how"] == "mul" else ab.Group.product(a, b)
    if fam == "power":
        a = groups[ev["a"] - 1]
        return a ** ev["k"] if ev["how"] == "pow" else ab.Group.product(a, repeat=ev["k"])
    if fam == "table":
        a = groups[ev["a"] - 1]
        sigma = ev["sigma"]  # member number i of the original group gets number sigma[i]
        mem = list(a.generate())
        tab = np.zeros((len(mem), len(mem)), dtype=int)
        num = {tuple(m.array_form): i for i, m in enumerate(mem)}
        for i, x in enumerate(mem):
            for j, y in enumerate(mem):
                tab[sigma[i], sigma[j]] = sigma[num[tuple((x * y).array_form)]]
        ev["tab"] = tab.tolist()
        if ev["labels"]:
            return ab.Group.from_table(tab, lambda i: np.array([[i]]))
        return ab.Group.from_table(tab.tolist())
    raise KeyError(fam)


def do(groups, ev):
    op = ev["op"]
    if op == "make":
        rec = dict(ev)
        for key in ("a", "b"):
            if isinstance(ev.get(key), int) and groups[ev[key] - 1] is None:
                return {"skip": True}
        g = build(rec, groups)
        res = {"mem": [form(m) for m in g.generate()], "order": int(g.order), "ident": form(g.identity),
               "gens_": [form(m) for m in g.generators]}
        if "tab" in rec:
            res["tab"] = rec["tab"]
        g.__dict__["verif_made"] = {k: v for k, v in ev.items() if k != "how"}
        groups.append(g)
        return res
    g = groups[ev["o"] - 1]
    if g is None:
        return {"skip": True}
    if op == "members":
        return {"mem": [form(m) for m in g.generate()]}
    if op == "table?":
        return {"tab": mat(g.table)}
    if op == "lift":
        return {"lift": [mat(g.lift(m)) for m in g.generate()], "dim": int(g.lift_dim)}
    if op == "regular":
        return {"cols": [columns(g.regular_lift(m), g.order) for m in g.generate()]}
    mem = list(g.generate())
    if op == "index":
        n = mem[0].size
        foreign = list(range(n))
        r = np.random.RandomState(ev["x"])
        r.shuffle(foreign)
        f = ab.GroupMember(foreign)
        try:
            g.index(f)
            exc = ""
        except Exception as err:  # noqa: BLE001
            exc = exc_name(err)
        return {"ixs": [int(g.index(m)) for m in mem], "inside": all(m in g for m in mem), "foreign": foreign,
                "foreign_in": bool(f in g), "foreign_exc": exc}
    if op == "tensor":
        h = groups[ev["b"] - 1]
        if h is None:
            return {"skip": True}
        p, p2 = mem[ev["x"] % len(mem)], mem[ev["y"] % len(mem)]
        other = list(h.generate())
        r2 = other[ev["y"] % len(other)]
        return {"p": form(p), "p2": form(p2), "r2": form(r2), "r": form(p @ r2), "pm": mat(p.to_matrix()),
                "pm2": mat(p2.to_matrix()), "prod": form(p * p2), "prodm": mat((p * p2).to_matrix()), "inv": form(~p)}
    if op == "iter_mats":
        if not isinstance(g, (ab.SL, ab.PSL)):
            return {"skip": True}
        return {"mats_": [mat(m) for m in type(g).iter_mats(g.dimension, g.field.order)]}
    if op == "basic":
        s = sorted(mem)
        return {"abelian": bool(g.is_abelian), "order": int(g.order),
                "rank_sorted": [m.rank() for m in s] == sorted(m.rank() for m in mem)}
    if op == "eq":
        h = groups[ev["b"] - 1]
        if h is None:
            return {"skip": True}
        ma, mb = g.__dict__["verif_made"], h.__dict__["verif_made"]
        lifts = all(np.array_equal(np.asarray(g.lift(m)), np.asarray(h.lift(m))) for m in g.generate()) if bool(g == h) else True
        return {"same": ma == mb, "lifts": lifts, "r": bool(g == h), "r2": bool(h == g), "hash": hash(g) == hash(h), "other": bool(g == g.to_sympy())}
    if op == "random":
        return {"r": form(g.random(seed=ev["x"])), "r2": form(g.random(seed=ev["x"]))}
    if op == "symset":
        noid = ev["noid"]
        if noid and 0 < ev["size"] <= g.order:
            # not every size is possible without the identity; then the method may not terminate
            inv = sum(1 for m in mem if m == ~m) - 1
            if ev["size"] > len(mem) - 1 or (ev["size"] % 2 and not inv):
                return {"skip": True}
        if not noid and ev["size"] > len(mem):
            pass
        a = g.random_symmetric_subset(ev["size"], exclude_identity=noid, seed=ev["seed"])
        b = g.random_symmetric_subset(ev["size"], exclude_identity=noid, seed=ev["seed"])
        return {"r": [form(m) for m in a], "r2": [form(m) for m in b]}
    raise KeyError(op)


def run(case) -> dict:
    groups: list = []
    out = []
    seed_all(1)
    for ev in case["script"]:
        rec = dict(ev)
        n0 = len(groups)
        try:
            rec.update({"exc": "", "skip": False, **do(groups, ev)})
        except Exception as err:  # noqa: BLE001
            rec.update({"exc": exc_name(err), "skip": False, "msg": str(err)[:200]})
        if ev["op"] == "make" and len(groups) == n0:
            groups.append(None)
            rec.setdefault("mem", [])
        out.append(rec)
    return {"key": case.get("key"), "ev": out}
