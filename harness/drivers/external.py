"""Replay of ExternalSession scripts: lookups in a world of stand-ins for GAP and GroupNames.org.

The stand-in for GAP is an executable (harness/fakebin/gap) that answers from a file; the stand-in for the web
replaces urllib's urlopen.  Every process of a script is a real process, and all share one disk cache.
"""
from __future__ import annotations

import io
import json
import os
import re
import shutil
import tempfile
import urllib.error
import urllib.request
import warnings

WORLD = {"pages": None}


def fake_urlopen(url, *args, **kw):
    url = getattr(url, "full_url", url)
    if WORLD["pages"] is None:
        raise urllib.error.URLError("no network")
    page = WORLD["pages"](url)
    if isinstance(page, Exception):
        raise page
    return io.BytesIO(page.encode())


urllib.request.urlopen = fake_urlopen  # before the library gets to see it

import galois  # noqa: E402
import numpy as np  # noqa: E402

from qldpc import abstract, codes, external  # noqa: E402

from .common import exc_name, mat  # noqa: E402

warnings.simplefilter("ignore")
FAKEGIT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fakegit")
FAKEBIN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fakebin")
URL = "https://people.maths.bris.ac.uk/~matyd/GroupNames/"
KNOWN = json.loads(json.dumps(external.groups.KNOWN_GROUPS))
CODES = ["HammingCode(3,GF(2))", "RepetitionCode(4,GF(3))", "BestKnownLinearCode(5,2,GF(2))", "ExtendedCode(X)"]
HTTP = urllib.error.HTTPError(URL, 404, "Not Found", {}, None)  # type: ignore[arg-type]


def name_of(nm):
    small = f"SmallGroup({nm['order']},{nm['index']})"
    return {"small": small, "quotient": small + "/Center(G)", "power": small + "^2", "prefixed": f"Opposite({small})",
            "known": list(KNOWN)[nm.get("known", 0) - 1], "symmetric": f"SymmetricGroup({nm['order']})"}[nm["form"]]


def spaced(name, yes):
    return (" " + name.replace(",", ", ").replace("(", "( ")) if yes else name


def cycles(images, sep=",", pad=False):
    """The cycles of a permutation, as GAP or GroupNames print them."""
    width = len(str(max([i + 1 for i, j in enumerate(images) if i != j], default=1))) if pad else 0
    seen, out = set(), ""
    for i in range(len(images)):
        c = []
        while i not in seen:
            seen.add(i)
            c.append(f"{i + 1:{width}d}" if pad else str(i + 1))
            i = images[i]
        if len(c) > 1:
            out += "(" + sep.join(c) + ")"
    return out or "()"


def images(cyc, degree):
    """A permutation of range(degree), from its cycles, or a complaint."""
    out = list(range(degree))
    for c in cyc:
        assert isinstance(c, tuple) and all(type(i) is int and 0 <= i < degree for i in c), cyc
        for i, j in zip(c, c[1:] + c[:1]):
            assert out[i] == i
            out[i] = j
    return out


def gens_text(ev):
    text = "".join(cycles(g, pad=ev["w"]["pad"]) + "\n" for g in ev["gens"])
    return faulty(ev, text, "<permutation group of size 6>\n", text[:-2] if text else "(")


def faulty(ev, text, garbage, cut):
    return {"": text, "empty": "", "garbage": garbage, "trunc": cut, "stderr": ""}[ev["w"]["fault"]]


def code_text(ev):
    q = ev["q"]
    p = next(p for p in (2, 3, 5) if q % p == 0)
    k = round(np.log(q) / np.log(p))
    text = f"GF({p})\n" if k == 1 else f"GF({p}^{k})\n"
    text += "".join("[ " + ", ".join(map(str, r)) + " ]\n" for r in ev["checks"])
    return faulty(ev, text, "fail\n", text[:-3])


def idem_text(ev):
    q, n, b = ev["q"], ev["n"], ev["b"]
    p = next(p for p in (2, 3, 5, 7) if q % p == 0)

    def term(e, k, m):
        base = f"Z({p})" if k == 1 else f"Z({p}^{k})"
        g = [(i + e) % n for i in range(n)] + [n + (i + e // n) % b for i in range(b)]
        return f"({base}{'' if m == 1 else f'^{m}'})*{cycles(g, pad=ev['w']['pad'])}"

    text = "[ " + ", ".join("+".join(term(*t) for t in mem) for mem in ev["members"]) + " ]"
    return faulty(ev, text, f"[ (Z({p})^0)*<identity> of ...+(Z({p})^0)*f1 ]", text[:-3])


def group_of(ev):
    return abstract.AbelianGroup(ev["n"], ev["b"]) if ev["b"] else abstract.CyclicGroup(ev["n"])


def answer(ev, proc, path):
    """What GAP and the web would answer to this lookup."""
    err = "Error, something is wrong\n" if ev["w"]["fault"] == "stderr" else ""
    here = cloned(os.path.dirname(path), ok=True)
    rows = [[["GAPInfo\\.Version"], proc["gap"] + "\n", ""]] + [
        [[f"TestPackageAvailability\\(\"{name}\"\\)"], "true" if proc[name] or name in here else "fail", ""]
        for name in ("guava", "wedderga")]
    op = ev["op"]
    if op in ("gens", "small"):
        name = name_of(ev["name"] if op == "gens" else {"form": "small", **ev})
        rows.append([[re.escape(name.replace(" ", "")) + ";", "GeneratorsOfGroup"], gens_text(ev), err])
    if op in ("number", "small"):
        rows.append([[f"NumberSmallGroups\\({ev['order']}\\)"], faulty(ev, f"{ev['num']}", "fail", ""), err])
    if op == "structure":
        rows.append([[f"StructureDescription\\(SmallGroup\\({ev['order']},{ev['index']}\\)\\)"], faulty(ev, ev["text"], ev["text"], ev["text"]), err])
    if op == "code":
        rows.append([[re.escape(CODES[ev["ix"] - 1]) + ";", "CheckMat\\("], code_text(ev), err])
    if op == "idem":
        rows.append([[re.escape(group_of(ev).to_gap_group() + ";"), f"GF\\({ev['q']}\\)", "PrimitiveCentralIdempotents"], idem_text(ev), err])
    with open(path, "w") as f:
        json.dump(rows, f)

    web = ev["w"]["web"]
    order = ev.get("order") or (ev["name"]["order"] if op == "gens" else 0)
    index = ev.get("index") or (ev["name"]["index"] if op == "gens" else 0)
    gens = ev.get("gens", [])

    def pages(url):
        if web == "down" or (op == "gens" and not gens) or (op == "small" and not gens):
            return urllib.error.URLError("unreachable")
        if web == "http":
            return HTTP
        if url in (URL, URL + "index500.html"):
            rows = []
            for o in sorted({2, 3, 6, 16, order, int(f"1{order}"), int(f"3{order}")}):  # (some look alike)
                if o > (60 if url == URL else 500):
                    continue
                top = (ev["num"] if "num" in ev else 4) if o == order else 14
                for i in range(1, top + 1):
                    if web == "missing" and o == order and (op == "number" or i == index):
                        continue
                    rows.append(f'<tr><td id="g{o}_{i}"><a href="1/G{o}_{i}.html">G<sub>{o}</sub></a></td><td><a href="cyclic.html">Some</a> group</td>'
                                f'<td><a href="T15.html#g{o}">2</a></td><td><a href="R.html#dim1+">1+</a></td><td>G{o}</td><td>{o},{i}</td></tr>')
            head = ("<html><table class=\"gptable\" columns=\"6\" style='width: 70%;'>\n<tr><th width=\"12%\"></th><th width=\"5%\"><a href='T.html'>d</a></th>"
                    "<th width=\"12%\">Label</th><th width=\"7%\">ID</th></tr>")
            return head + "\n".join(rows) + "\n</table></html>\n"
        if url == URL + f"1/G{order}_{index}.html":
            if web == "page-down":
                return urllib.error.URLError("unreachable")
            if web == "no-generators":
                return "<html><b>Permutation representations of G</b><br>none known</html>"
            text = "<br>\n".join(cycles(g, " ") for g in gens)
            return ("<html><b>Series</b> <pre class='pre'>(1 2)</pre> <button class='copytext'>Copy</button>\n"
                    "<b><a href='https://en.wikipedia.org/wiki/Group actions' title='See wikipedia' class='wiki'>Permutation representations of G</a></b><br>"
                    "<a id='shl1' class='shl' href=\"javascript:showhide('shs1','shl1','Regular action');\"><span class=\"nsgpn\">&#x25ba;</span>Regular action</a>"
                    f"<div id='shs1' class='shs'>Generators in S<sub>2</sub><br><pre class='pre' id='textgn1'>{text}</pre>&emsp;<button class='copytext' id='copygn1'>Copy</button><br>"
                    "<div>Generators in S<sub>3</sub><br><pre class='pre' id='textgn2'>(1 2 3)</pre>&emsp;<button class='copytext' id='copygn2'>Copy</button></html>")
        if url.startswith(URL + "1/G"):
            return ("<html><b>Permutation representations of G</b><div>Generators in S<sub>11</sub><br><pre class='pre' id='textgn1'>"
                    "(1 2 3 4 5 6 7 8 9 10 11)</pre>&emsp;<button class='copytext'>Copy</button></html>")
        return HTTP

    WORLD["pages"] = pages


def degree_of(ev, *found):
    """Enough points for all permutations involved."""
    return max([len(g) for g in ev["gens"]] + [i + 1 for gen in found for c in gen for i in c] + [1])


def group_record(group, ev):
    gens = [[int(i) for i in g.array_form] for g in group.generators]
    rec = {"result": gens, "form": "images"}
    rec["members"] = sorted([int(i) for i in m.array_form] for m in group.generate()) if len(gens) and len(gens[0]) <= 4 else []
    return rec


def lookup(ev):
    op, w = ev["op"], ev["w"]
    if op == "gens":
        name = name_of(ev["name"])
        if ev["how"] == "raw":
            got = external.groups.get_generators(name)
            assert isinstance(got, list) and all(isinstance(g, list) for g in got), got
            deg = degree_of(ev, *got)
            rec = {"result": [images(g, deg) for g in got], "form": "images"}
            if w["mut"] and got:
                got[0].append((0, 1))
                got.append([(0, 1)])
            return rec
        return group_record(abstract.Group.from_name(spaced(name, w["spaces"])), ev)
    if op == "small":
        return group_record(abstract.SmallGroup(ev["order"], ev["index"]), ev)
    if op == "number":
        return {"result": int(external.groups.get_small_group_number(ev["order"]))}
    if op == "structure":
        func = external.groups.get_small_group_structure if ev["how"] == 1 else abstract.SmallGroup.get_structure
        got = func(ev["order"], ev["index"])
        assert isinstance(got, str)
        return {"result": got, "named": got == f"SmallGroup({ev['order']},{ev['index']})"}
    if op == "code":
        name = CODES[ev["ix"] - 1]
        if ev["how"] == "raw":
            checks, field = external.codes.get_code(name)
            rec = {"result": mat(checks), "q_": int(field)}
            if w["mut"]:
                checks[0][0] = 7
                checks.append([])
            return rec
        code = codes.ClassicalCode.from_name(spaced(name, w["spaces"]))
        return {"result": mat(code.matrix), "q_": int(code.field.order)}
    if op == "idem":
        n, q = ev["n"], ev["q"]
        if ev["how"] == "raw":
            got = external.groups.get_primitive_central_idempotents(group_of(ev).to_gap_group(), q)
            return {"result": [[[int(c), images([x for x in g if x], n + ev["b"])] for c, g in mem] for mem in got]}
        ring = abstract.GroupRing(group_of(ev), q)
        got = ring.get_primitive_central_idempotents()
        assert all(m.group == ring.group for m in got)
        return {"result": [[[int(c), [int(i) for i in g.array_form]] for c, g in mem] for mem in got]}
    raise AssertionError(op)


def cloned(base, ok=False):
    """The packages that git was asked for (successfully)."""
    try:
        with open(os.path.join(base, "git.log")) as f:
            done = [json.loads(line) for line in f]
    except FileNotFoundError:
        return []
    out = []
    for d in done:
        where = [a for a in d["args"] if a.startswith("https://github.com/gap-packages/")]
        name = where[0].rpartition("/")[2].removesuffix(".git") if len(where) == 1 else "?"
        dest = [a for a in d["args"] if a == os.path.join(external.gap.GAP_ROOT, "pkg", name)]
        if d["ok"] or not ok:
            out.append(name if "clone" in d["args"] and dest else "?")
    return out


def process(events, proc, base, send):
    """One process: a run of lookups in which GAP and its packages stay what they are."""
    os.environ["XDG_CACHE_HOME"] = os.path.join(base, "cache")
    os.environ["FAKEGAP"] = path = os.path.join(base, "answers.json")
    os.environ["PATH"] = FAKEGIT + ":" + (FAKEBIN + ":" if proc["gap"] else "") + "/usr/bin:/bin"
    os.environ["FAKEGIT"] = os.path.join(base, "git.log")
    os.environ["FAKEGIT_OK"] = "1" if proc["git"] else "0"
    asked = []
    import builtins
    builtins.input = lambda *args: asked.append(args) or proc["user"]
    for ev in events:
        rec = {**ev, "exc": "", "known": []}
        del asked[:]
        before = len(cloned(base))
        try:
            answer(ev, proc, path)
            rec.update(lookup(ev))
        except Exception as err:  # noqa: BLE001
            rec["exc"] = exc_name(err)
            rec["msg"] = str(err)[:200]
        rec["asked"] = len(asked)
        rec["cloned"] = cloned(base)[before:]
        if ev["op"] == "gens" and ev["name"]["form"] == "known":
            table = [[tuple(c) for c in g] for g in KNOWN[name_of(ev["name"])]]
            deg = 1 + max(i for g in table for c in g for i in c)
            rec["known"] = [images(g, deg) for g in table]
        send(rec)


def run(case) -> dict:
    out = []
    base = tempfile.mkdtemp()
    runs: list = []
    for ev in case["script"]:
        if ev["op"] == "proc":
            runs.append((ev, []))
        else:
            runs[-1][1].append(ev)
    try:
        for proc, events in runs:
            out.append(dict(proc))
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    with os.fdopen(w, "w") as f:
                        process(events, proc, base, lambda rec: (f.write(json.dumps(rec) + "\n"), f.flush()))
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                got = [json.loads(line) for line in f]
            os.waitpid(pid, 0)
            assert len(got) == len(events), (len(got), len(events), events[len(got):][:1])
            out.extend(got)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return {"ev": out}
