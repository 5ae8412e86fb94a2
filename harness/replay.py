"""Run a driver on every case, in forked workers with a hard per-case timeout."""
import importlib
import json
import os
import pickle
import select
import signal
import sys
import time


def main() -> None:
    driver, inp, outp, timeout, jobs, seed = sys.argv[1:7]
    timeout, jobs = float(timeout), int(jobs)
    with open(inp) as f:
        cases = json.load(f)
    mod = importlib.import_module(f"drivers.{driver}")  # imports the code under test, once
    results: list = [None] * len(cases)
    pending = list(range(len(cases)))[::-1]
    workers: dict[int, dict] = {}
    slowest = 0.0

    def cpu(pid: int) -> float:
        """Processor time used by a worker so far: a slow machine is no reason to give up on a case."""
        try:
            with open(f"/proc/{pid}/stat") as f:
                fields = f.read().rpartition(")")[2].split()
            return (int(fields[11]) + int(fields[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return 0.0

    def spawn() -> None:
        r_in, w_in = os.pipe()
        r_out, w_out = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w_in)
            os.close(r_out)
            for other in workers.values():
                os.close(other["w"])
                os.close(other["r"])
            os.setpgid(0, 0)
            scratch = os.path.join(os.getcwd(), f"w{os.getpid()}")
            os.mkdir(scratch)
            os.chdir(scratch)
            rd = os.fdopen(r_in, "r")
            wr = os.fdopen(w_out, "w")
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            for line in rd:
                n = int(line)
                try:
                    res = mod.run(cases[n])
                    text = json.dumps(res)
                except BaseException as err:  # noqa: BLE001 - harness failure, reported as such
                    import traceback
                    text = json.dumps({"harness_error": traceback.format_exc()[-2500:]})
                wr.write(text + "\n")
                wr.flush()
            os._exit(0)
        os.close(r_in)
        os.close(w_out)
        workers[pid] = {"w": w_in, "r": r_out, "case": None, "t": 0.0, "cpu": 0.0, "buf": b""}

    def feed(pid: int) -> None:
        wk = workers[pid]
        if pending:
            wk["case"] = pending.pop()
            wk["t"] = time.time()
            wk["cpu"] = cpu(pid)
            os.write(wk["w"], f"{wk['case']}\n".encode())
        else:
            wk["case"] = None

    def drop(pid: int) -> None:
        wk = workers.pop(pid)
        os.close(wk["w"])
        os.close(wk["r"])
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        os.waitpid(pid, 0)

    for _ in range(min(jobs, len(cases))):
        spawn()
    for pid in list(workers):
        feed(pid)
    while any(w["case"] is not None for w in workers.values()):
        fds = {w["r"]: p for p, w in workers.items() if w["case"] is not None}
        ready, _, _ = select.select(list(fds), [], [], 0.5)
        for fd in ready:
            pid = fds[fd]
            data = os.read(fd, 1 << 20)
            wk = workers[pid]
            if not data:
                results[wk["case"]] = {"died": True}
                drop(pid)
                if pending:
                    spawn()
                    feed(list(workers)[-1])
                continue
            wk["buf"] += data
            if wk["buf"].endswith(b"\n"):
                results[wk["case"]] = json.loads(wk["buf"])
                slowest = max(slowest, time.time() - wk["t"])
                wk["buf"] = b""
                feed(pid)
        now = time.time()
        for pid in list(workers):
            wk = workers[pid]
            if wk["case"] is not None and now - wk["t"] > timeout and (
                    cpu(pid) - wk["cpu"] > timeout or now - wk["t"] > 3 * timeout):
                results[wk["case"]] = {"timeout": True}
                drop(pid)
                if pending:
                    spawn()
                    feed(list(workers)[-1])
    for pid in list(workers):
        drop(pid)
    errors = [r["harness_error"] for r in results if isinstance(r, dict) and "harness_error" in r]
    if errors:
        print(f"{len(errors)} harness errors; first:\n{errors[0]}")
        sys.exit(3)
    # a case that hung or crashed the interpreter is an observation about the code
    for n, r in enumerate(results):
        if r is None or r.get("timeout") or r.get("died"):
            what = "Timeout" if (r or {}).get("timeout") else "Crash"
            make = getattr(mod, "on_abort", None)
            results[n] = make(cases[n], what) if make else {
                "id": n, "key": cases[n].get("key") if isinstance(cases[n], dict) else None,
                "ev": [{"op": "abort", "exc": what}]}
    for n, r in enumerate(results):
        r["id"] = n
    with open(outp, "w") as f:
        json.dump(results, f)
    print(f"slowest case: {slowest:.1f}")


main()
