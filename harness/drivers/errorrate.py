"""Replay of RateSession scripts: sampling of decoding failures, and the error rates derived from them."""
from __future__ import annotations

import itertools
import warnings

import galois
import numpy as np

from qldpc import codes, decoders
from qldpc.objects import Pauli

from .common import exc_name, mat, seed_all

warnings.simplefilter("ignore")


class Leaders:
    """Decode to the coset leader of a syndrome, by brute force and without the library's help."""

    def __init__(self, matrix, q, twist=0):
        self.field = galois.GF(q)
        self.matrix = np.array(matrix, dtype=int).reshape(-1, np.shape(matrix)[1]).view(self.field)
        n = self.matrix.shape[1]
        self.leader = {}
        for word in sorted(itertools.product(range(q), repeat=n), key=lambda w: (sum(map(bool, w)), w)):
            self.leader.setdefault(self.syndrome(np.array(word, dtype=int)), word)
        null = self.matrix.null_space() if len(self.matrix) else self.field.Identity(n)
        self.twist = null[twist % len(null)] if twist and len(null) else None

    def syndrome(self, word):
        return tuple(int(s) for s in self.matrix @ np.array(word, dtype=int).view(self.field)) if len(self.matrix) else ()

    def residual(self, word):
        syndrome = self.syndrome(word)
        out = np.array(word, dtype=int).view(self.field) - np.array(self.leader[syndrome], dtype=int).view(self.field)
        return out if self.twist is None or sum(syndrome) % 2 else out + self.twist


class Recorder(decoders.DirectDecoder):
    def __init__(self, side, residual, calls):
        self.side, self.residual, self.calls = side, residual, calls

    def decode(self, corrupted_word):
        word = np.asarray(corrupted_word, dtype=int).copy()
        out = np.array(np.asarray(self.residual(word.copy())), dtype=int)
        self.calls.append([self.side, [int(v) for v in word], [int(v) for v in out]])
        return out


class Handle:
    pass


def reduced(matrix, q):
    rows = np.array(matrix, dtype=int).view(galois.GF(q)).row_reduce() if len(matrix) else []
    return [r.tolist() for r in np.array(rows) if np.any(r)]


def residual_func(kind, matrix, q, kw):
    if kind == "perfect":
        return lambda word: np.zeros(len(word), dtype=int)
    if kind == "library" and len(matrix) and np.any(matrix):
        dec = decoders.get_decoder(matrix, **kw)
        lead = Leaders(matrix, q)

        def func(word):
            field = galois.GF(q)
            syndrome = np.array(lead.syndrome(word), dtype=int)
            guess = dec.decode(syndrome.view(field) if q > 2 else syndrome)
            out = np.array(word).view(field) - np.array(np.asarray(guess), dtype=int).view(field)
            return out if not any(lead.syndrome(out)) else lead.residual(word)

        return func
    return Leaders(matrix, q, 1 if kind == "twisted" else 0).residual


def open_(ev, handles):
    q = ev["q"]
    calls = []
    h = Handle()
    h.calls = calls
    handles.append(h)
    lib = {} if q > 2 or ev["lib"] == 0 else {"with_lookup": True, "max_weight": 2} if ev["lib"] == 1 else {"with_GUF": True} if ev["lib"] == 2 else {}
    h.args = {}
    seed_all(ev["seed"])
    if ev["kind"] == "classical":
        code = codes.ClassicalCode(ev["h"], field=q)
        h.args["decoder_constructor"] = lambda matrix, **kw: Recorder("c", residual_func(ev["dx"], matrix, q, lib), calls)
        rest = {}
    else:
        code = codes.CSSCode(ev["hx"], ev["hz"], field=q)
        if ev["known"]:
            code.get_logical_ops()
        want = {s: reduced(code.get_stabilizer_ops(p), q) for s, p in (("x", Pauli.Z), ("z", Pauli.X))}
        if want["x"] == want["z"]:
            return {"skip": True}

        def constructor(matrix, **kw):
            got = reduced(matrix, q)
            side = next((s for s in "xz" if got == want[s]), "?")
            return Recorder(side, residual_func(ev["dx" if side == "x" else "dz"], matrix, q, lib), calls)

        h.args["decoder_constructor"] = constructor
        rest = {"pauli_bias": tuple(ev["bias"])} if ev["bias"] else {}
    h.code = code
    rec = {"k": int(code.dimension)}
    h.func = code.get_logical_error_rate_func(ev["num"], ev["top"][0] / ev["top"][1], **rest, **h.args)
    rec["calls"] = [list(c) for c in calls]
    return rec


def scaled(v, by):
    v = float(v)
    return int(round(v * by)) if np.isfinite(v) and abs(v) < 100 else -7


def rate(ev, handles):
    h = handles[ev["h"] - 1]
    if not hasattr(h, "func"):
        return {"skip": True}
    before = len(h.calls)
    ps = [a / m for a, m in ev["ps"]]
    vals, errs = h.func(ps if ev["many"] else ps[0])
    if ev["many"]:
        one = [h.func(p) for p in ps]
        same = bool(np.all(np.array([v for v, _ in one]) == vals) and np.all(np.array([e for _, e in one]) == errs))
    else:
        vals, errs, same = [vals], [errs], True
    return {"vals": [scaled(v, 1e6) for v in vals], "errs": [scaled(float(e) ** 2, 1e8) for e in errs], "same": same, "fresh": len(h.calls) - before,
            "exact0": bool(all(v == 0 and e == 0 for v, e, p in zip(vals, errs, ps) if p == 0))}


def exact(ev, handles):
    """A perfect code, with a decoder of the library's choice."""
    q = 2
    code = codes.HammingCode(ev["r"]) if ev["name"] == "hamming" else codes.RepetitionCode(ev["r"])
    if ev["how"] == "quantum":
        # X errors are decoded like a classical code
        code = codes.CSSCode(np.zeros((1, len(code)), dtype=int), code.matrix)
    # BP+OSD (the default) finds errors of minimal weight for repetition codes, but not necessarily for others
    lib = ev["lib"] or (1 if ev["name"] == "hamming" else 0)
    kw = {} if lib == 0 else {"with_lookup": True, "max_weight": len(code) // 2 if ev["name"] != "hamming" else 1} if lib == 1 else {"with_ILP": True}
    if ev["how"] == "quantum":
        kw["pauli_bias"] = (ev["bias"], 0, 0)
    seed_all(ev["seed"])
    func = code.get_logical_error_rate_func(ev["num"], ev["top"][0] / ev["top"][1], **kw)
    vals, errs = func([a / m for a, m in ev["ps"]])
    return {"vals": [scaled(v, 1e6) for v in vals], "errs": [scaled(float(e) ** 2, 1e8) for e in errs]}


def run(case) -> dict:
    out = []
    handles: list = []
    for ev in case["script"]:
        rec = {**ev, "skip": False, "exc": ""}
        try:
            rec.update({"open": open_, "rate": rate, "exact": exact}[ev["op"]](ev, handles))
        except Exception as err:  # noqa: BLE001
            rec["exc"] = exc_name(err)
            rec["msg"] = str(err)[:200]
        out.append(rec)
    return {"ev": out}
