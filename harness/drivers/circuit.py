"""Replay of CircuitSession scripts: encoders, logical tableaus, transversal circuits."""
from __future__ import annotations

import traceback

import numpy as np
import stim

from qldpc import circuits

from .common import exc_name, mat, seed_all
from .session import Session, fresh_ok
from .session import do as do_code

KNOWN = set("I H S S_DAG Z X Y SQRT_X SQRT_X_DAG SQRT_Y SQRT_Y_DAG H_XY H_YZ C_XYZ C_ZYX CX CZ CY SWAP ISWAP ISWAP_DAG".split())


def gates(circuit: stim.Circuit) -> list:
    """The gates of a circuit one by one; gates the specification does not know, decomposed."""
    out = []
    for inst in circuit.flattened():
        if inst.name in ("TICK", "QUBIT_COORDS", "SHIFT_COORDS"):
            continue
        for group in inst.target_groups():
            ts = [t.value for t in group]
            if inst.name in KNOWN:
                if inst.name != "I":
                    out.append({"g": inst.name, "t": [t + 1 for t in ts]})
            else:
                for sub in gates(stim.gate_data(inst.name).tableau.to_circuit()):
                    out.append({"g": sub["g"], "t": [ts[t - 1] + 1 for t in sub["t"]]})
    return out


def signed(string: stim.PauliString) -> dict:
    xs, zs = string.to_numpy()
    assert string.sign in (1, -1)
    return {"s": 0 if string.sign == 1 else 1, "v": [int(b) for b in xs] + [int(b) for b in zs]}


def table(t: stim.Tableau) -> list:
    return [signed(t.x_output(j)) for j in range(len(t))] + [signed(t.z_output(j)) for j in range(len(t))]


def text(ops) -> str:
    return "\n".join(f"{g['g']} " + " ".join(str(t - 1) for t in g["t"]) for g in ops)


def frame(code) -> dict:
    """The code's logical operators and its stabilizers with the signs of its encoder."""
    t = table(circuits.get_encoding_tableau(code))
    n, k, g = len(code), code.dimension, code.gauge_dimension
    return {"L": mat(code.get_logical_ops()), "sz": t[n + k + g:]}


def gate_set(ev):
    gs = ev["gates"]
    return () if gs == ["default"] else ({"list": list, "tuple": tuple, "set": set}[ev["as"]](gs),)


def deformed_stabilizers(code, circuit):
    d = code.deformed(circuit, preserve_logicals=True)
    return frame(d)["sz"]


def do(s: Session, ev: dict) -> dict:
    code = s.codes[ev["o"] - 1]
    if code is None:
        return {"exc": "none"}
    op = ev["op"]
    if op == "enc":
        call = {"tableau": circuits.get_encoding_tableau, "circuit": circuits.get_encoding_circuit}[ev["via"]]
        r = call(code=code) if ev["kw"] else call(code)
        L = mat(code.get_logical_ops())
        if ev["via"] == "circuit":
            return {"L": L, "gates": gates(r)}
        t = table(r)
        return {"L": L, "xs": t[:len(r)], "zs": t[len(r):]}
    if op == "tab":
        enc = circuits.get_encoding_circuit(code)
        phys = enc.inverse() + stim.Circuit(text(ev["ops"])) + enc
        if ev["pad"]:
            phys.append("I", [len(code) - 1])
        L = mat(code.get_logical_ops())
        kw = {"deform_code": True} if ev["deform"] else {}
        return {**frame(code), "gates": gates(phys), "T": table(circuits.get_logical_tableau(code, phys, **kw)), "L": L}
    args = gate_set(ev)
    kw = {"deform_code": True} if ev["deform"] else {}
    if op == "trans":
        order = circuits.get_transversal_automorphism_group(code, *args, **kw).order
        found = circuits.get_transversal_ops(code, *args, **kw, **({"remove_redundancies": False} if ev["redundant"] else {}))
        return {**frame(code), "order": int(order),
                "found": [{"T": table(t), "gates": gates(c), "dz": deformed_stabilizers(code, c) if ev["deform"] else []} for t, c in found]}
    if op == "find":
        tableaus, asked = [], []
        ops = None
        k = code.dimension
        for rq in ev["req"]:
            if rq["t"] == "gates":
                c = stim.Circuit(text(rq["ops"]))
                t = (c + stim.Circuit(f"I {k - 1}")).to_tableau()
                asked.append(c if rq["as"] == "circuit" else t)
            else:
                if ops is None and rq["word"]:
                    ops = circuits.get_transversal_ops(code, *args, **kw)
                t = stim.Tableau(k)
                for w in rq["word"]:
                    if ops:
                        t = t.then(ops[w % len(ops)][0])
                if rq["paulis"]:
                    t = t.then((stim.Circuit(text(rq["paulis"])) + stim.Circuit(f"I {k - 1}")).to_tableau())
                asked.append(t)
            tableaus.append(t)
        if ev["one"]:
            res = [circuits.get_transversal_circuit(code, a, *args, **kw) for a in asked]
        else:
            res = circuits.get_transversal_circuits(code, asked, *args, **kw)
        return {**frame(code), "want": [table(t) for t in tableaus],
                "res": [{"none": c is None, "gates": [] if c is None else gates(c), "dz": deformed_stabilizers(code, c) if c is not None and ev["deform"] else []} for c in res]}
    raise KeyError(op)


def run(case) -> dict:
    s = Session()
    out = []
    for ev in case["script"]:
        rec = dict(ev)
        seed_all(1)
        if ev["op"] in ("enc", "tab", "trans", "find"):
            try:
                rec.update({"exc": "", **do(s, ev)})
            except Exception as err:  # noqa: BLE001
                rec.update(exc=exc_name(err), msg=str(err)[:300] + " @ " + "; ".join(f"{f.name}:{f.lineno}" for f in traceback.extract_tb(err.__traceback__)[-4:]))
        else:
            makes = ev["op"] in ("new", "newcss", "stack", "concat", "conj", "deform", "dual", "canon")
            n0 = len(s.codes)
            try:
                rec.update({"exc": "", "skip": False, **do_code(s, ev)})
            except Exception as err:  # noqa: BLE001
                rec.update({"exc": exc_name(err), "skip": False, "msg": str(err)[:200], "freshok": fresh_ok(s, ev)})
            if makes and len(s.codes) == n0:
                s.codes.append(None)
                s.mats.append(None)
        rec["mut"] = s.mutations()
        out.append(rec)
    return {"ev": out}
