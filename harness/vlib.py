"""Orchestration shared by all checks: run TLC, replay scripts into the real code, validate traces.

A check is: (1) `design` - TLC checks the specification's own invariants; (2) `generate` - TLC
enumerates or simulates behaviours of the specification and prints them as JSON scripts; (3)
`replay` - the scripts are executed against the code in /repo, in worker processes, and every
observation is recorded; (4) `validate` - TLC replays the recorded observations against the
specification and prints the name of every clause that an observation breaks.
"""
from __future__ import annotations

import importlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("QLDPC_REPO", "/repo")
PY = "/opt/venv/bin/python"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 1)
FINDINGS = os.path.join(VERIF, "known_findings.json")


def clean(x):
    """JSON that TLC can read: no null, no floats, no integers beyond 32 bits."""
    if x is None:
        return "null"
    if isinstance(x, float):
        return int(x) if x == int(x) else str(x)
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clean(v) for v in x]
    return x


class MachineryError(Exception):
    """The check itself failed (not a verdict about the code)."""


class Check:
    def __init__(self, prop: str, tier: str | None = None, seed: int | None = None) -> None:
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = seed if seed is not None else int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.thorough = self.tier == "thorough"
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = 0
        self.transitions = 0
        self.n_traces = 0
        self.n_events = 0
        self.samples: list = []
        self.op_counts: dict[str, int] = {}
        self.exc_counts: dict[str, int] = {}
        self.bounds: dict = {}
        self.model_runs: list = []
        self.violations: list[dict] = []
        self.trace_cases: list[dict] = []
        self.notes: list[str] = []

    # ------------------------------------------------------------------ TLC
    def tlc(self, module: str, cfg: str, *, args: list[str] = (), env: dict | None = None,
            workers: int = NPROC, timeout: int = 600, heap: str = "6g") -> str:
        """Run TLC on spec/<module>.tla with the given configuration text; return its output."""
        work = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        cfg_path = os.path.join(work, module + ".cfg")
        with open(cfg_path, "w") as f:
            f.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss16m", f"-DTLA-Library={SPEC}",
               "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-config", cfg_path,
               "-metadir", os.path.join(work, "states"), "-noGenerateSpecTE",
               "-lncheck", "final", *args, os.path.join(SPEC, module + ".tla")]
        full_env = dict(os.environ, **(env or {}))
        try:
            res = subprocess.run(cmd, cwd=work, env=full_env, stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, timeout=timeout)
            out = res.stdout.decode(errors="replace")
            self.last_rc = res.returncode
        except subprocess.TimeoutExpired as err:
            out = (err.stdout or b"").decode(errors="replace")
            self.last_rc = None
        shutil.rmtree(os.path.join(work, "states"), ignore_errors=True)
        return out

    @staticmethod
    def json_lines(out: str) -> list:
        """Values printed by PrintT(ToJson(...))."""
        vals = []
        for line in out.splitlines():
            if line.startswith('"') and line.rstrip().endswith('"'):
                try:
                    vals.append(json.loads(json.loads(line)))
                except ValueError:
                    continue
        return vals

    def _count(self, out: str) -> tuple[int, int]:
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
            return gen, dist
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            n = int(m[-1].replace(",", ""))
            return n, n
        return 0, 0

    def design(self, module: str, cfg: str, *, simulate: tuple[int, int] | None = None,
               timeout: int = 600, must_find: bool = True) -> None:
        """Check the specification's own invariants; the specification must be sound."""
        args = []
        workers = NPROC
        if simulate:
            args = ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]),
                    "-seed", str(self.seed)]
            workers = 1
        t = time.time()
        out = self.tlc(module, cfg, args=args, workers=workers, timeout=timeout)
        gen, dist = self._count(out)
        if "Error:" in out or self.last_rc != 0 or (must_find and not gen):
            raise MachineryError(f"specification {module} fails its own invariants:\n" + "\n".join([x for x in out.splitlines() if "rror" in x or "ttempted" in x or "verflow" in x][:20]) + "\n...\n" + out[-2000:])
        self.states += dist
        self.transitions += gen
        self.model_runs.append({"module": module, "generated": gen, "distinct": dist,
                                "wall_s": round(time.time() - t, 1)})

    def generate(self, module: str, cfg: str, *, num: int = 0, depth: int = 100,
                 timeout: int = 600, limit: int | None = None, seed: int | None = None) -> list:
        """Behaviours printed by a generator specification (simulation if num > 0, else BFS)."""
        args = []
        if num:
            args = ["-simulate", f"num={num}", "-depth", str(depth),
                    "-seed", str(self.seed if seed is None else seed)]
        t = time.time()
        out = self.tlc(module, cfg, args=args, workers=1, timeout=timeout)
        vals = self.json_lines(out)
        if "Error:" in out or self.last_rc != 0 or not vals:
            raise MachineryError(f"generator {module} failed:\n" + "\n".join([x for x in out.splitlines() if "rror" in x or "ttempted" in x or "verflow" in x][:20]) + "\n...\n" + out[-2000:])
        gen, dist = self._count(out)
        self.states += dist
        self.transitions += gen
        self.model_runs.append({"module": module, "generated": gen, "distinct": dist,
                                "scripts": len(vals), "wall_s": round(time.time() - t, 1)})
        if limit is not None:
            vals = vals[:limit]
        return vals

    # --------------------------------------------------------------- replay
    def replay(self, driver: str, cases: list, *, timeout: float = 60, jobs: int = NPROC,
               env: dict | None = None) -> list[dict]:
        """Run harness/drivers/<driver>.py:run(case) on every case, in worker processes.

        A worker that uses more than `timeout` seconds of processor time on one case (or three times
        as many of real time) is killed and the case is recorded as
        timed out; a worker that dies is recorded likewise.
        """
        work = tempfile.mkdtemp(prefix="replay-", dir=self.scratch)
        inp = os.path.join(work, "in.json")
        with open(inp, "w") as f:
            json.dump(cases, f)
        outp = os.path.join(work, "out.json")
        e = dict(os.environ)
        e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=f"{REPO}:{VERIF}/harness",
                 HOME=work, XDG_CACHE_HOME=os.path.join(work, "cache"), TMPDIR=work,
                 OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                 NUMBA_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
        e.update(env or {})
        t = time.time()
        try:
            res = subprocess.run([PY, os.path.join(VERIF, "harness", "replay.py"), driver, inp, outp,
                                  str(timeout), str(jobs), str(self.seed)], cwd=work, env=e,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 timeout=3600 * 6)
        except subprocess.TimeoutExpired as err:
            raise MachineryError("replay timed out") from err
        if res.returncode != 0 or not os.path.exists(outp):
            raise MachineryError("replay failed:\n" + res.stdout.decode(errors="replace")[-3000:])
        with open(outp) as f:
            traces = json.load(f)
        shutil.rmtree(work, ignore_errors=True)
        slow = re.search(rb"slowest case: ([0-9.]+)", res.stdout)
        self.model_runs.append({"replay": driver, "cases": len(cases),
                                "slowest_case_s": float(slow.group(1)) if slow else -1,
                                "wall_s": round(time.time() - t, 1)})
        return traces

    # ------------------------------------------------------------- validate
    def validate(self, module: str, traces: list[dict], *, only: str | None = None,
                 timeout: int = 800, consts: str = "", spec: str = "Spec") -> list[dict]:
        """Check recorded traces (records with fields id, ev) against spec/<module>.tla."""
        if not traces:
            raise MachineryError("no traces recorded")
        only = self.prop if only is None else only
        t = time.time()
        work = tempfile.mkdtemp(prefix="val-", dir=self.scratch)
        path = os.path.join(work, "trace.ndjson")
        # a replay that hung or crashed the interpreter is a verdict by itself
        aborted = [tr for tr in traces if tr["ev"] and tr["ev"][-1].get("op") == "abort"]
        remaining = [tr for tr in traces if not any(tr is a for a in aborted)]
        verdicts: list[dict] = [
            {"id": tr["id"], "ix": len(tr["ev"]), "op": tr["ev"][-1]["exc"],
             "bad": [f"{only}.no-answer"]} for tr in aborted]
        rounds = 0
        total_states = 0
        while remaining:
            rounds += 1
            with open(path, "w") as f:
                for tr in remaining:
                    f.write(json.dumps(clean({k: v for k, v in tr.items() if k != "key"}),
                                       separators=(",", ":")) + "\n")
            lanes = min(4 * NPROC, len(remaining))
            cfg = f"SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\nCONSTANTS Lanes = {lanes}\n" + consts
            out = self.tlc(module, cfg, env={"TRACE": path}, timeout=timeout, heap="12g")
            gen, dist = self._count(out)
            expect = sum(len(tr["ev"]) + 1 for tr in remaining)
            verdicts += [v for v in self.json_lines(out) if isinstance(v, dict) and "bad" in v]
            if "Error:" not in out and self.last_rc == 0:
                if dist != expect:
                    raise MachineryError(
                        f"{module}: {dist} states for {expect} recorded steps\n" + out[-2000:])
                total_states += dist
                break
            # TLC could not evaluate some event (a malformed observation).  Find the case.
            m = re.findall(r"^/\\ cs = (\d+)", out, re.M)
            k = re.findall(r"^/\\ ix = (\d+)", out, re.M)
            if not m or rounds > 6:
                raise MachineryError(f"{module}: TLC failed\n" + out[:1500] + "\n...\n" + out[-2500:])
            bad_case = remaining[int(m[-1]) - 1]
            verdicts.append({"id": bad_case["id"], "ix": int(k[-1]) + 1 if k else 0,
                             "op": "?", "bad": [f"{only}.unevaluable-observation"],
                             "detail": out[-1500:]})
            remaining = [tr for tr in remaining if tr is not bad_case]
        # de-duplicate (a case may be re-validated after a malformed one was removed)
        by_id = {tr["id"]: tr for tr in traces}
        seen = set()
        result = []
        for v in verdicts:
            for clause in v["bad"]:
                if only and not clause.startswith(only + "."):
                    continue
                key = (v["id"], v["ix"], clause)
                if key in seen:
                    continue
                seen.add(key)
                result.append({"case": by_id.get(v["id"]), "id": v["id"], "ix": v["ix"],
                               "op": v.get("op"), "clause": clause, "module": module})
        self.n_traces += len(traces)
        self.states += total_states
        self.transitions += total_states
        for tr in traces:
            for ev in tr["ev"]:
                self.n_events += 1
                op = str(ev.get("op", "?"))
                self.op_counts[op] = self.op_counts.get(op, 0) + 1
                if ev.get("exc"):
                    k2 = f"{op}:{ev['exc']}"
                    self.exc_counts[k2] = self.exc_counts.get(k2, 0) + 1
        if len(self.samples) < 3:
            for tr in sorted(traces, key=lambda x: len(json.dumps(x)))[len(traces) // 2:][:1]:
                if len(json.dumps(tr)) < 6000:
                    self.samples.append(tr)
        self.violations += result
        self.model_runs.append({"validate": module, "traces": len(traces),
                                "states": total_states, "wall_s": round(time.time() - t, 1)})
        return result

    # --------------------------------------------------------------- finish
    def finish(self, level: str = "model_checking", assumptions: list[str] = ()) -> int:
        findings = []
        if os.path.exists(FINDINGS):
            with open(FINDINGS) as f:
                findings = [x for x in json.load(f)["known"] if x["property"] == self.prop]
        new = []
        hit: dict[str, int] = {}
        for v in self.violations:
            key = (v["case"] or {}).get("key")
            match = [x for x in findings if key is not None and key == x["key"]
                     and v["clause"] in x["clauses"]]
            if match:
                hit[match[0]["key"]] = hit.get(match[0]["key"], 0) + 1
            else:
                new.append(v)
        for x in findings:
            if x["key"] in hit:
                print(f"KNOWN-FINDING: property={self.prop} {x['what']}")
            else:
                print(f"note: known finding {x['key']} did not reproduce in this run")
        replay_dir = os.path.join(VERIF, "evidence", "replays", self.prop)
        shutil.rmtree(replay_dir, ignore_errors=True)
        shown = {}
        for v in new:
            shown.setdefault((v["clause"], v["op"]), v)
        for n, ((clause, op), v) in enumerate(shown.items()):
            os.makedirs(replay_dir, exist_ok=True)
            path = os.path.join(replay_dir, f"{n}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            if n < 20:
                print(f"VIOLATION property={self.prop} replay={path}")
                print(f"  clause {clause} broken by step {v['ix']} ({op}) of case {v['id']}")
        ev = {
            "property": self.prop, "tier": "thorough" if self.tier == "thorough" else "quick",
            "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.n_traces,
                "events_validated": self.n_events,
                "operations": dict(sorted(self.op_counts.items())),
                "exceptions_observed": dict(sorted(self.exc_counts.items())),
                "runs": self.model_runs, "bounds": self.bounds,
                "known_findings_reproduced": hit,
                "samples": self.samples or ["(none small enough to print)"],
            },
            "assumptions": list(assumptions),
            "wall_s": round(time.time() - self.t0, 2), "violations": len(new),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{self.prop}: {self.n_traces} traces, {self.n_events} events, {self.states} states, "
              f"{len(new)} violations, {time.time() - self.t0:.1f}s")
        return 1 if new else 0

    def close(self) -> None:
        shutil.rmtree(self.scratch, ignore_errors=True)


def main(prop: str) -> int:
    mod = importlib.import_module(f"checks.{prop}")
    chk = Check(prop)
    try:
        mod.run(chk)
        return chk.finish(assumptions=getattr(mod, "ASSUMPTIONS", []))
    except MachineryError as err:
        print(f"machinery error in {prop}: {err}")
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            chk.close()
        else:
            print("scratch:", chk.scratch)
