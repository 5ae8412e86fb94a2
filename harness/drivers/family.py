"""Construction of members of named code families (scripts of Families.tla)."""
from __future__ import annotations

import warnings

from qldpc import codes
from qldpc.objects import Pauli

from .common import exc_name, mat, num, seed_all

warnings.simplefilter("ignore")


def build(ev):
    f, p, q = ev["fam"], ev["p"], ev["q"]
    kw = {} if q == 2 else {"field": q}
    other = () if len(p) < 2 or p[1] == -1 else (p[1],)
    if f == "repetition":
        return codes.RepetitionCode(p[0], **kw)
    if f == "ring":
        return codes.RingCode(p[0], **kw)
    if f == "hamming":
        return codes.HammingCode(p[0], **kw)
    if f == "extended-hamming":
        return codes.ExtendedHammingCode(p[0])
    if f == "reed-solomon":
        return codes.ReedSolomonCode(*p)
    if f == "bch":
        return codes.BCHCode(*p, **kw)
    if f == "reed-muller":
        return codes.ReedMullerCode(*p, **kw)
    if f == "simplex":
        return codes.SimplexCode(p[0])
    if f == "five-qubit":
        return codes.FiveQubitCode()
    if f == "steane":
        return codes.SteaneCode()
    if f == "c4":
        return codes.C4Code()
    if f == "c6":
        return codes.C6Code()
    if f == "iceberg":
        return codes.IcebergCode(p[0], alternative_logicals=bool(p[1]))
    if f == "surface":
        return codes.SurfaceCode(p[0], *other, **kw, rotated=bool(p[2]))
    if f == "toric":
        return codes.ToricCode(p[0], *other, **kw, rotated=bool(p[2]))
    if f == "generalized-surface":
        return codes.GeneralizedSurfaceCode(p[0], p[1], **kw, periodic=bool(p[2]))
    if f == "bacon-shor":
        return codes.BaconShorCode(p[0], *other, **kw, set_logicals=bool(p[2]))
    if f == "shyps":
        return codes.SHYPSCode(p[0], *other)
    raise KeyError(f)


def distance(code):
    """The reported distance; -9 if finding it would take too long."""
    if getattr(code, "_distance", None) is None and code.field.order ** code.dimension > 40000:
        return -9
    return num(code.get_distance())


def do(ev) -> dict:
    code = build(ev)
    res = {"n_": len(code), "q_": int(code.field.order)}
    if isinstance(code, codes.ClassicalCode):
        return {**res, "H": mat(code.matrix), "k_": num(code.dimension), "rank": num(code.rank), "d_": distance(code)}
    css = isinstance(code, codes.CSSCode)
    res.update(M=mat(code.matrix), k_=num(code.dimension), g_=num(code.gauge_dimension), r_=num(code.rank), sub=bool(code.is_subsystem_code),
               L=mat(code.get_logical_ops()), S=mat(code.get_stabilizer_ops()), G_=mat(code.get_gauge_ops()), d_=num(code.get_distance()))
    if css:
        res.update(dx=num(code.get_distance(Pauli.X)), dz=num(code.get_distance(Pauli.Z)))
    return res


def run(case) -> dict:
    out = []
    seed_all(1)
    for ev in case["script"]:
        rec = dict(ev)
        try:
            rec.update({"exc": "", **do(rec)})
        except Exception as err:  # noqa: BLE001
            rec.update({"exc": exc_name(err), "msg": str(err)[:300]})
        out.append(rec)
    return {"key": case.get("key"), "ev": out}
