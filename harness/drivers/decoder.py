"""Replay of DecoderSession scripts into qldpc.decoders."""
from __future__ import annotations

import warnings

import galois
import numpy as np

from qldpc import decoders

from .common import exc_name, mat, seed_all

warnings.simplefilter("ignore")
FLAGS = {"ilp": {"with_ILP": True}, "lookup": {"with_lookup": True}, "guf": {"with_GUF": True}, "osd": {},
         "lsd": {"with_BP_LSD": True}, "bf": {"with_BF": True}, "mwpm": {"with_MWPM": True}, "default": {}}


class Custom:
    def __init__(self, matrix, **kwargs) -> None:
        self.matrix = matrix
        self.kwargs = kwargs

    def decode(self, syndrome):
        return ("decoded", self.kwargs.get("tag"), id(self.matrix), tuple(syndrome))


class Made:
    def __init__(self, ev) -> None:
        self.ev = ev
        q = ev["q"]
        H = np.array(ev["H"], dtype=int).reshape(len(ev["H"]), -1)
        if ev["arr"] == "field" and ev["kind"] != "mwpm":
            H = galois.GF(q)(H)
        elif ev["arr"] == "uint8":
            H = H.astype(np.uint8)
        self.matrix = H
        self.given = np.array(H, dtype=np.int64).copy()
        self.kw = dict(FLAGS[ev["kind"]])
        if ev["symp"]:
            self.kw["symplectic"] = True
        if ev["w"] != -1:
            self.kw["max_weight"] = ev["w"]
        if ev["kind"] == "bf":
            self.kw["uf_method"] = "inversion"  # the peeling of the ldpc package serves few matrices, and fails on some
        self.decoder = None
        if ev["via"] != "decode":
            cls = {"ilp": decoders.ILPDecoder, "lookup": decoders.LookupDecoder, "guf": decoders.GUFDecoder}.get(ev["kind"])
            if ev["via"] == "class" and cls is not None:
                kw = {k: v for k, v in self.kw.items() if not k.startswith("with_")}
                self.decoder = cls(H, **kw)
            else:
                self.decoder = decoders.get_decoder(H, **self.kw)

    def get(self):
        return self.decoder if self.decoder is not None else decoders.get_decoder(self.matrix, **self.kw)

    def decode(self, s):
        if self.decoder is not None:
            return self.decoder.decode(s)
        return decoders.decode(self.matrix, s, **self.kw)


def flat(r):
    return mat(np.asarray(r).reshape(1, -1))[0]


class Session:
    def __init__(self) -> None:
        self.made: list = []
        self.saved: list = []

    def mutations(self):
        bad = [f"matrix {n + 1}" for n, m in enumerate(self.made)
               if m is not None and not np.array_equal(np.asarray(m.matrix, dtype=np.int64), m.given)]
        bad += [w for w, a, old in self.saved if not np.array_equal(np.asarray(a, dtype=np.int64), old)]
        return sorted(set(bad))

    def keep(self, what, a):
        self.saved.append((what, a, np.array(a, dtype=np.int64).copy()))


def do(s: Session, ev):
    op = ev["op"]
    if op == "make":
        H = np.array(ev["H"])
        if ev["kind"] in ("osd", "lsd", "bf") or (ev["kind"] == "default" and ev["q"] == 2):
            if not np.all(H.any(axis=0)) or not np.all(H.any(axis=1)):
                return {"skip": True}  # not supported by the ldpc package
        if ev["kind"] == "mwpm" and not np.all(H.any(axis=0)):
            return {"skip": True}
        s.made.append(Made(ev))
        return {}
    if op == "custom":
        matrix = np.eye(ev["n"], dtype=int)
        syn = np.zeros(ev["n"], dtype=int)
        if ev["how"] == "constructor":
            r = decoders.decode(matrix, syn, decoder_constructor=Custom, tag=3)
            return {"same": r == ("decoded", 3, id(matrix), tuple(syn))}
        d = Custom(matrix, tag=4)
        return {"same": decoders.get_decoder(matrix, static_decoder=d) is d
                and decoders.decode(np.zeros((1, 1)), syn, static_decoder=d) == d.decode(syn)}
    m = s.made[ev["d"] - 1]
    if m is None:
        return {"skip": True}
    q = m.ev["q"]
    bp = m.ev["kind"] in ("osd", "lsd", "bf", "mwpm") or (m.ev["kind"] == "default" and q == 2)
    if op == "decode":
        syn = np.array(ev["s"], dtype=np.uint8 if bp or ev["arr"] == "uint8" else int)
        if ev["arr"] == "field" and not bp:
            syn = galois.GF(q)(syn)
        s.keep("syndrome", syn)
        r = m.decode(syn)
        res = {"r": flat(r)}
        if ev["spoil"]:
            r = np.asarray(r).view(np.ndarray)
            if r.flags.writeable:
                r[...] = 1 - (r != 0)
        else:
            s.keep("answer", r)
        return res
    if op == "block":
        syn = np.array(ev["ss"], dtype=np.uint8 if bp else int).reshape(-1)
        dec = decoders.BlockDecoder(len(m.given), m.get())
        return {"r": flat(dec.decode(syn))}
    if op == "direct":
        direct = decoders.DirectDecoder.from_indirect(m.get(), m.matrix)
        word = np.array(ev["word"], dtype=np.uint8 if m.ev["kind"] == "mwpm" else int)
        s.keep("word", word)
        return {"r": flat(direct.decode(word))}
    raise KeyError(op)


def run(case) -> dict:
    s = Session()
    out = []
    seed_all(1)
    for ev in case["script"]:
        rec = dict(ev)
        n0 = len(s.made)
        try:
            rec.update({"exc": "", "skip": False, **do(s, ev)})
        except Exception as err:  # noqa: BLE001
            rec.update({"exc": exc_name(err), "skip": False, "msg": str(err)[:200]})
        if ev["op"] == "make" and len(s.made) == n0:
            s.made.append(None)
        rec["mut"] = s.mutations()
        out.append(rec)
    return {"key": case.get("key"), "ev": out}
