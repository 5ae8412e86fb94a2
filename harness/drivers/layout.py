"""Replay of LayoutSession scripts: bivariate bicycle codes and their layouts."""
from __future__ import annotations

import warnings

import numpy as np
import sympy

from qldpc import codes
from qldpc.objects import Node

from .common import exc_name, seed_all

warnings.simplefilter("ignore")
NAMES = {"xy": "x y", "ab": "a b", "yx": "y x"}


def poly(terms, syms):
    total = sympy.Integer(0)
    for c, (i, j) in terms:
        total += sympy.Integer(c) * syms[0] ** i * syms[1] ** j
    return total


def terms(expr, syms):
    """Coefficients and exponents of a polynomial, without the library's help."""
    out = []
    for term in sympy.Add.make_args(sympy.expand(expr.as_expr() if hasattr(expr, "as_expr") else expr)):
        c, mono = term.as_coeff_Mul()
        powers = mono.as_powers_dict()
        assert set(powers) <= {*syms, sympy.Integer(1)}, term
        out.append([int(c), int(powers.get(syms[0], 0)), int(powers.get(syms[1], 0))])
    return sorted(out)


def support(code):
    """Rows of the parity checks as lists of (column, value)."""
    return {"X": [[[int(c), int(row[c])] for c in np.flatnonzero(row)] for row in code.matrix_x],
            "Z": [[[int(c), int(row[c])] for c in np.flatnonzero(row)] for row in code.matrix_z]}


def places(code, folded):
    half = len(code) // 2
    out = []
    for is_data in (True, False):
        for i in range(2 * half):
            node = Node(i, is_data)
            lab = code.get_node_label(node)
            pos = code.get_qubit_pos(node, folded)
            out.append({"data": is_data, "ix": i, "sector": str(lab[0]), "a": int(lab[1]), "b": int(lab[2]), "pos": [int(v) for v in pos],
                        "same": tuple(code.get_qubit_pos(lab, folded)) == tuple(pos)
                        and tuple(codes.BBCode.get_qubit_pos_from_orders(lab, folded, tuple(code.orders))) == tuple(pos)
                        and tuple(codes.BBCode.get_node_label_from_orders(node, tuple(code.orders))) == tuple(lab)})
    return out


def layout(ev):
    q = ev["q"]
    kw = {} if q == 2 else {"field": q}
    sx, sy = syms = sympy.symbols(NAMES[ev["names"]])
    first, second = sorted(syms, key=str)
    orders_of = {sx: ev["ox"], sy: ev["oy"]}
    a, b = poly(ev["pa"], syms), poly(ev["pb"], syms)
    if not a.free_symbols or not b.free_symbols or a.free_symbols | b.free_symbols != set(syms):
        return {"skip": True}
    if ev["how"] in ("list", "reported"):
        orders = (orders_of[first], orders_of[second])
        order = [first, second]
    else:
        order = [sx, sy] if ev["how"] == "dict" else [sy, sx]
        orders = {s: orders_of[s] for s in order}
    code = codes.BBCode(orders, a, b, **kw)
    if ev["ask"] == 2:
        code.get_equivalent_toric_layout_code_data()
    rec = {"n_": len(code), "q_": code.field.order, "swapped": order[0] is sy, "orders_": [int(o) for o in code.orders], "code": support(code),
           "flat": places(code, False), "folded": places(code, True), "found": [], "canon": [terms(code.get_canonical_form(p), order) for p in (a, b)]}
    for new_orders, pa, pb in code.get_equivalent_toric_layout_code_data():
        rec["found"].append({"orders": [int(o) for o in new_orders], "pa": terms(pa, [first, second]), "pb": terms(pb, [first, second])})
    rec["again"] = rec["found"] == [{"orders": [int(o) for o in no], "pa": terms(pa, [first, second]), "pb": terms(pb, [first, second])} for no, pa, pb in code.get_equivalent_toric_layout_code_data()]
    rec["built"] = []
    for new_orders, pa, pb in code.get_equivalent_toric_layout_code_data()[:3]:
        new = codes.BBCode(new_orders, pa, pb, **kw)
        rec["built"].append({"orders": [int(o) for o in new.orders], "code": support(new), "flat": places(new, False), "folded": places(new, True)})
    return rec


def run(case) -> dict:
    out = []
    seed_all(4)
    for ev in case["script"]:
        rec = {**ev, "skip": False, "exc": ""}
        try:
            rec.update(layout(ev))
        except Exception as err:  # noqa: BLE001
            rec["exc"] = exc_name(err)
            rec["msg"] = str(err)[:200]
        out.append(rec)
    return {"ev": out}
