"""Replay of CodeSession scripts into qldpc.codes; records what every call returned."""
from __future__ import annotations

import numpy as np
import stim

from qldpc import codes
from qldpc.codes import ClassicalCode, CSSCode, QuditCode
from qldpc.objects import Pauli

from .common import exc_name, known, mat, num, seed_all

PAULI = {"X": Pauli.X, "Z": Pauli.Z}


class Session:
    def __init__(self) -> None:
        self.codes: list = []
        self.saved: list = []  # (object index, what, array handed out, copy of it)
        self.mats: list = []  # copies of the matrices at creation

    def keep(self, o: int, what: str, arr) -> None:
        self.saved.append((o, what, arr, np.array(arr, dtype=np.int64).copy()))

    def mutations(self) -> list:
        """Arrays handed out, or taken in, earlier that no longer have the value they had."""
        bad = []
        for o, what, arr, old in self.saved:
            if arr.shape != old.shape or not np.array_equal(np.asarray(arr, dtype=np.int64), old):
                bad.append([o, what])
        for o, (code, old) in enumerate(zip(self.codes, self.mats)):
            if code is not None:
                cur = np.asarray(code.matrix, dtype=np.int64)
                if cur.shape != old.shape or not np.array_equal(cur, old):
                    bad.append([o + 1, "matrix"])
        return [list(x) for x in sorted({tuple(x) for x in bad})]

    def add(self, code) -> dict:
        m = mat(code.matrix)
        self.codes.append(code)
        self.mats.append(np.array(code.matrix, dtype=np.int64).copy())
        return {"m": m, "n": len(code), "q": int(code.field.order),
                "css": isinstance(code, CSSCode)}

    def logicals(self, o: int):
        """All logical operators, through the public getter, as a symplectic matrix."""
        return self.codes[o - 1].get_logical_ops()


def apply_moves(L, moves, spoil, code, stabs):
    """Turn valid logical operators into others (symplectic moves), then possibly spoil them."""
    field = code.field
    L = field(np.array(L, dtype=np.int64))
    k = len(L) // 2
    n = len(code)
    for m in moves:
        i, j, c = (m["i"] - 1) % k, (m["j"] - 1) % k, field(m["c"])
        t = m["t"]
        X, Z = i, i + k
        if t == "cx" and i != j:
            L[i] = L[i] + c * L[j]
            L[j + k] = L[j + k] - c * L[i + k]
        elif t == "cz" and i != j:
            L[i] = L[i] + c * L[j + k]
            L[j] = L[j] + c * L[i + k]
        elif t == "h":
            x, z = L[X].copy(), L[Z].copy()
            L[X], L[Z] = z, -x
        elif t == "s":
            L[X] = L[X] + c * L[Z]
        elif t == "scale":
            L[X] = c * L[X]
            L[Z] = L[Z] / c
        elif t == "stab" and len(stabs):
            row = stabs[m["r"] % len(stabs)]
            row = field(np.array(row, dtype=np.int64))
            isx = not np.any(row[n:])
            isz = not np.any(row[:n])
            if not isinstance(code, CSSCode):
                L[(m["i"] + m["r"]) % (2 * k)] += c * row
            elif isx:
                L[X] = L[X] + c * row
            elif isz:
                L[Z] = L[Z] + c * row
    for m in spoil:
        i, j, c = (m["i"] - 1) % k, (m["j"] - 1) % k, field(m["c"])
        t = m["t"]
        if t == "flip":
            r, e = m["r"] % (2 * k), (m["r"] * 7 + m["i"]) % (2 * n)
            L[r, e] = L[r, e] + c
        elif t == "xx" and i != j:
            L[i] = L[i] + c * L[j + k]
        elif t == "zz" and i != j:
            L[i + k] = L[i + k] + c * L[j]
        elif t == "swap":
            L[[i, (i + 1) % k]] = L[[(i + 1) % k, i]]
        elif t == "drop":
            keep = [r for r in range(2 * k) if r % k != i]
            L = L[keep]
        elif t == "dup":
            L[i] = c * L[j]
    return L


def flag(ev, matrix_commutes: bool) -> dict:
    return {} if ev["flag"] == "auto" else {"is_subsystem_code": not matrix_commutes}


def standard_form(code, xz):
    """The standard form, with rows and columns named by row number and original qudit (from 1)."""
    n = len(code)
    if xz:
        mx, mz, locs, rows, cols = code.get_standard_form_data_xz()
        x, z = mat(mx), mat(mz)
        m = [[*r, *[0] * n] for r in x] + [[*[0] * n, *r] for r in z]
        lens = [(len(x), 0), (len(x), 0), (len(z), len(x)), (len(z), len(x))]
    else:
        full, locs, rows, cols = code.get_standard_form_data()
        m = mat(np.asarray(full, dtype=int).reshape(len(full), 2 * n))
        lens = [(len(m), 0)] * 4
    where = [int(j) for j in locs]
    back = [where.index(j) for j in range(n)] if sorted(where) == list(range(n)) else list(range(n))
    m = [[r[half + b] for half in (0, n) for b in back] for r in m]

    def picks(sector, size):
        return [int(j) for j in (np.arange(size)[sector] if isinstance(sector, slice) else sector)]

    return {"m": m, "locs": [j + 1 for j in where],
            "rows": [[off + j + 1 for j in picks(r, size)] for r, (size, off) in zip(rows, lens)],
            "cols": [[where[j] + 1 for j in picks(c, n)] for c in cols]}


def do(s: Session, ev: dict) -> dict:
    op = ev["op"]
    if op == "new":
        m = np.array(ev["m"], dtype=int)
        f = QuditCode(m, field=ev["q"]).field
        n = ev["n"]
        M = f(m)
        comm = not np.any(np.hstack([-M[:, n:], M[:, :n]]).view(f) @ M.T)
        code = QuditCode(m, field=ev["q"], **flag(ev, comm))
        return {**s.add(code), "in": mat(m)}
    if op == "newcss":
        f = ClassicalCode(np.array([[0]]), field=ev["q"]).field
        mx, mz = f(ev["mx"]), f(ev["mz"])
        code = CSSCode(mx, mz, **flag(ev, not np.any(mx @ mz.T)))
        z = np.zeros_like
        given = np.vstack([np.hstack([mx, z(mx)]), np.hstack([z(mz), mz])])
        return {**s.add(code), "in": mat(given)}
    if op in ("stack", "concat"):
        idx = ev["os"] if op == "stack" else [ev["i"], ev["o"]]
        if any(s.codes[o - 1] is None for o in idx):
            return {"skip": True}
        cls = CSSCode if ev["via"] == "css" else QuditCode
        if op == "stack":
            new = cls.stack(*[s.codes[o - 1] for o in idx], inherit_logicals=ev["inherit"])
        else:
            w = None
            if ev["how"] != "default":
                w = [x - 1 for x in ev["w"]]
                if ev["how"] == "dict":
                    w = {i: x for i, x in reversed(list(enumerate(w)))}
            new = cls.concatenate(s.codes[ev["i"] - 1], s.codes[ev["o"] - 1], w,
                                  inherit_logicals=ev["inherit"])
        res = s.add(new)
        res["L"] = [mat(s.logicals(o)) for o in idx]
        for o in idx:
            s.keep(o, "logical", s.logicals(o))
        return res

    o = ev["o"]
    code = s.codes[o - 1]
    if code is None:
        return {"skip": True}
    css = isinstance(code, CSSCode)
    pauli = PAULI.get(ev.get("pauli"))
    if op == "logical":
        kw = {"symplectic": ev["symp"]} if css and pauli is not None else {}
        args = () if pauli is None else (pauli,)
        r = code.get_logical_ops(*args, recompute=ev["recompute"], **kw)
        s.keep(o, "logical", r)
        full = code.get_logical_ops()
        s.keep(o, "logical", full)
        return {"r": mat(r), "full": mat(full), "fieldok": type(r) is code.field}
    if op == "stab":
        if pauli is None:
            r = code.get_stabilizer_ops(recompute=ev["recompute"], canonicalized=ev["canon"])
            s.keep(o, "stab", r)
            return {"r": mat(r), "fieldok": type(r) is code.field}
        kw = {"symplectic": ev["symp"]} if css else {}
        rs = [code.get_stabilizer_ops(p, recompute=ev["recompute"], canonicalized=ev["canon"], **kw)
              for p in (Pauli.X, Pauli.Z)]
        for r in rs:
            s.keep(o, "stab", r)
        return {"x": mat(rs[0]), "z": mat(rs[1]), "fieldok": all(type(r) is code.field for r in rs)}
    if op == "gauge":
        kw = {"symplectic": ev["symp"]} if css and pauli is not None else {}
        args = () if pauli is None else (pauli,)
        r = code.get_gauge_ops(*args, **kw)
        s.keep(o, "gauge", r)
        full = code.get_gauge_ops()
        return {"r": mat(r), "full": mat(full), "fieldok": type(r) is code.field}
    if op == "dims":
        get = {1: ("n", lambda: len(code)), 2: ("k", lambda: code.dimension),
               3: ("g", lambda: code.gauge_dimension), 4: ("rank", lambda: code.rank),
               5: ("sub", lambda: bool(code.is_subsystem_code)), 6: ("checks", lambda: code.num_checks)}
        res = {}
        for x in ev["order"]:
            name, fn = get[x]
            v = fn()
            res[name] = v if isinstance(v, bool) else int(v)
        res["weight"] = int(code.get_weight())
        return res
    if op == "dist":
        half = (pauli,) if pauli is not None and css else ()
        known0 = known(code.get_distance_if_known(*half))
        if ev.get("how") == "exact":
            d = code.get_distance_exact(*half)
        elif ev.get("how") == "unbounded":
            d = code.get_distance(*half, bound=None if len(code) % 2 else 0)
        elif ev.get("how") == "params" and not half:
            d = code.get_code_params()[2]
        else:
            d = code.get_distance(*half)
        return {"d": num(d), "half": bool(half), "known0": known0, "known1": known(code.get_distance_if_known(*half)),
                "params": [num(x) for x in code.get_code_params()[:2]]}
    if op == "distb":
        if not css or code.dimension == 0 or code.field.degree > 1:
            return {"skip": True}
        seed_all(ev["seed"])
        q = code.field.order
        kw = {"osd": {}, "ilp": {"with_ILP": True}, "lookup": {"with_lookup": True, "max_weight": len(code)}}[ev["dec"] if q == 2 else "ilp"]
        half = {"pauli": pauli} if pauli is not None else {}
        if ev.get("how") == "one":
            d = code.get_one_distance_bound(**half, **kw)
        elif ev.get("how") == "get":
            d = code.get_distance(bound=2, **half, **kw)
        elif ev.get("how") == "cutoff":
            d = code.get_distance_bound(3, cutoff=ev["cutoff"], **half, **kw)
        elif ev.get("how") == "params" and pauli is None:
            d = code.get_code_params(bound=True, **kw)[2]
        else:
            d = code.get_distance_bound(2, **half, **kw)
        return {"d": num(d), "half": pauli is not None}
    if op == "conj":
        Q = [x - 1 for x in ev["Q"]]
        arg = {"list": lambda: Q, "tuple": lambda: list(Q), "array": lambda: np.array(Q, dtype=int),
               "slice": lambda: slice(Q[0], Q[-1] + 1) if Q and Q == list(range(Q[0], Q[-1] + 1)) else Q}[ev["how"]]()
        return s.add(code.conjugated(arg))
    if op == "deform":
        txt = "\n".join(f"{g['g']} " + " ".join(str(t - 1) for t in g["t"]) for g in ev["ops"])
        new = code.deformed(txt if len(ev["ops"]) % 2 else stim.Circuit(txt), preserve_logicals=ev["preserve"])
        res = s.add(new)
        if ev["preserve"]:
            res["L"] = mat(code.get_logical_ops())
        return res
    if op == "sform":
        return standard_form(code, css and ev["xz"])
    if op == "dual":
        new = code.get_dual_subsystem_code()
        res = s.add(new)
        res["L"] = mat(code.get_logical_ops())
        return res
    if op == "canon":
        return s.add(code.canonicalized)
    if op == "trip":
        if ev["via"] == "graph":
            new = QuditCode(QuditCode.graph_to_matrix(code.graph if not css else QuditCode.matrix_to_graph(code.matrix)))
        elif ev["via"] == "strings":
            if code.num_checks == 0:
                return {"skip": True}  # no strings, hence no way to know the number of qudits
            new = QuditCode.from_strings(*code.get_strings(), field=code.field.order)
        else:
            new = QuditCode(code) if not css else CSSCode(code.code_x, code.code_z)
        return {"m": mat(new.matrix), "n": len(new), "q": int(new.field.order)}
    if op == "setl":
        L0 = code.get_logical_ops()
        before = mat(L0)
        L = apply_moves(L0, ev["moves"], ev["spoil"], code, code.get_stabilizer_ops())
        L = np.array(L, dtype=np.int64)
        if css and len(L) == len(before) and (np.any(L[: len(L) // 2, len(code):])
                                               or np.any(L[len(L) // 2:, :len(code)])):
            return {"skip": True}  # not operators of a CSS code
        res = {"before": before, "new": mat(L)}
        n = len(code)
        try:
            k = len(L) // 2
            if css and ev["via"] == "xz" and not np.any(L[:k, n:]) and not np.any(L[k:, :n]):
                code.set_logical_ops_xz(L[:k, :n].copy(), L[k:, n:].copy())
            else:
                s.keep(o, "given", L)
                code.set_logical_ops(L)
            res["ok"] = True
        except ValueError as err:
            res["ok"] = False
        return res
    if op == "reduce":
        before = mat(code.get_logical_ops())
        seed_all(7)
        kw = {"with_ILP": True} if ev["dec"] == "ilp" else {}
        res = {}
        if ev.get("all") == 1:
            code.reduce_logical_ops(PAULI[ev["pauli"]], **kw)
            res["idx"] = 0
        elif ev.get("all") == 2:
            code.reduce_logical_ops(**kw)
            res["pauli"] = ""
        else:
            code.reduce_logical_op(PAULI[ev["pauli"]], ev["idx"] - 1, **kw)
        return {**res, "before": before, "after": mat(code.get_logical_ops())}
    raise KeyError(op)


def fresh_ok(s: Session, ev: dict) -> bool:
    """Would the same call succeed on a fresh code with the same parity checks?"""
    if "o" not in ev or ev["op"] in ("setl", "concat") or ev.get("preserve"):
        return False
    try:
        code = s.codes[ev["o"] - 1]
        if isinstance(code, CSSCode):
            fresh: QuditCode = CSSCode(code.matrix_x, code.matrix_z)
        else:
            fresh = QuditCode(code.matrix)
        t = Session()
        t.add(fresh)
        do(t, {**ev, "o": 1})
        return True
    except Exception:  # noqa: BLE001
        return False


def run(case) -> dict:
    script = case["script"] if isinstance(case, dict) else case
    s = Session()
    out = []
    for ev in script:
        rec = dict(ev)
        makes = ev["op"] in ("new", "newcss", "stack", "concat", "conj", "deform", "dual", "canon")
        n0 = len(s.codes)
        try:
            rec.update(res := {"exc": "", "skip": False, **do(s, ev)})
        except Exception as err:  # noqa: BLE001 - what the code raises is an observation
            rec.update({"exc": exc_name(err), "skip": False})
            rec["msg"] = str(err)[:200]
            rec["freshok"] = fresh_ok(s, ev)
        if makes and len(s.codes) == n0:
            s.codes.append(None)
            s.mats.append(None)
        rec["mut"] = s.mutations()
        out.append(rec)
    return {"key": case.get("key") if isinstance(case, dict) else None, "ev": out}
