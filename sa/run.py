"""Decide one property: `python3 -m sa.run C01 [--tier quick|thorough]`."""

from __future__ import annotations

import json
import os
import pickle
import select
import signal
import sys
import threading
import time
import traceback
from typing import Any
from typing import Dict
from typing import List
from typing import Tuple

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STACK = 512 * 1024 * 1024


def in_thread(f: Any) -> Any:
    """Call _f_ with a big stack."""
    box: List[Any] = []

    def go() -> None:
        try:
            box.append((True, f()))
        except BaseException as e:  # noqa: BLE001
            box.append((False, (e, traceback.format_exc())))

    threading.stack_size(STACK)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    ok, v = box[0]
    if not ok:
        raise v[0]
    return v


def failed(name: str, msg: str) -> Any:
    from .check import Result

    r = Result(name, "")
    r.undecided[msg] = 1
    return r


def internal() -> str:
    lines = traceback.format_exc().strip().splitlines()
    at = [x.strip() for x in lines if x.strip().startswith("File")]
    return f"{lines[-1][:300]} {' < '.join(at[-1:-6:-1])}"


def run_job(job: Any) -> List[Any]:
    from .scen import Anchor
    from .state import Undecided
    from .values import Raised

    from .values import S

    name, f = job
    # Until the first scenario starts.
    S.deadline = time.time() + 300
    S.steps = 0
    S.max_steps = 10**7
    try:
        return list(f())
    except Anchor as e:
        return [failed(name, f"not found: {e}")]
    except Undecided as e:
        return [failed(name, f"setup: {e}")]
    except Raised as e:
        return [failed(name, f"setup raises {e.exc.cls.name}")]
    except RecursionError:
        return [failed(name, "setup: too deep")]
    except Exception:  # noqa: BLE001
        return [failed(name, "internal: " + internal())]


def spawn(job: Any) -> Tuple[int, int]:
    r, w = os.pipe()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    os.close(r)
    os.setpgid(0, 0)
    try:
        res = in_thread(lambda: run_job(job))
        data = pickle.dumps(res)
    except BaseException:  # noqa: BLE001
        data = pickle.dumps([failed(job[0], "internal: " + internal())])
    n = 0
    while n < len(data):
        n += os.write(w, data[n : n + 65536])
    os.close(w)
    os._exit(0)


def run_jobs(jobs: List[Any], total: float, each: float) -> List[Any]:
    """Run the jobs in processes of their own, a few at a time."""
    t0 = time.time()
    cpus = min(8, os.cpu_count() or 2)
    todo = list(enumerate(jobs))
    live: Dict[int, Any] = {}
    out: Dict[int, List[Any]] = {}
    while todo or live:
        while todo and len(live) < cpus:
            i, job = todo.pop(0)
            if time.time() - t0 > total:
                out[i] = [failed(job[0], "budget: total time")]
                continue
            pid, fd = spawn(job)
            live[fd] = [i, job, pid, time.time(), b""]
        if not live:
            continue
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            ent = live[fd]
            data = os.read(fd, 1 << 20)
            if data:
                ent[4] += data
                continue
            os.close(fd)
            os.waitpid(ent[2], 0)
            del live[fd]
            try:
                out[ent[0]] = pickle.loads(ent[4])
            except Exception:  # noqa: BLE001
                out[ent[0]] = [failed(ent[1][0], "internal: the job ended without a result")]
        now = time.time()
        for fd, ent in list(live.items()):
            if now - ent[3] > each or now - t0 > total + 30:
                try:
                    os.killpg(ent[2], signal.SIGKILL)
                except OSError:
                    os.kill(ent[2], signal.SIGKILL)
                os.waitpid(ent[2], 0)
                os.close(fd)
                del live[fd]
                out[ent[0]] = [failed(ent[1][0], "budget: time")]
    return [r for i in sorted(out) for r in out[i]]


def known_findings(prop: str) -> List[Tuple[str, str]]:
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8") as f:
            for line in f:
                if line.startswith("finding: ") and " :: " in line:
                    head, what = line[9:].rstrip("\n").split(" :: ", 1)
                    p, key = head.split(" ", 1)
                    if p == f"property={prop}":
                        out.append((key.strip(), what))
    except OSError:
        pass
    return out


def main(argv: List[str]) -> int:
    import argparse

    sys.stdout.reconfigure(errors="backslashreplace")  # type: ignore
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--only", default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    prop = a.property
    t0 = time.time()
    sys.setrecursionlimit(60000)

    from . import props
    from . import scen

    def prepare() -> List[Any]:
        from .groups import equality

        scen.start()
        first = equality.establish()
        scen.env()
        return first

    try:
        base = in_thread(prepare)
        jobs = in_thread(lambda: props.jobs(prop, a.tier))
    except Exception as e:  # noqa: BLE001
        print(f"error: the package could not be analysed: {e!r}")
        if a.v:
            traceback.print_exc()
        return 2
    if a.only:
        jobs = [j for j in jobs if a.only in j[0]]
    total, each = (420.0, 240.0) if a.tier == "quick" else (3000.0, 1500.0)
    results = run_jobs(jobs, total, each)
    uses = [r for r in base if r.differ == []]

    known = known_findings(prop)
    shown = [r for r in results if r.verdict == "shown"]
    partly = [r for r in results if r.verdict == "partly"]
    undecided = [r for r in results if r.verdict in ("undecided", "vacuous")]
    violated = [r for r in results if r.differ]
    new: List[Any] = []
    old: List[Any] = []
    for r in violated:
        for key, what in known:
            if r.name == key:
                old.append((r, what))
                break
        else:
            new.append(r)

    if a.v:
        for r in results:
            if r.verdict != "shown":
                print(r)

    funcs = sorted({f for r in results for f in r.functions})
    ev = {
        "property": prop,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED") or 0),
        "level": "other",
        "coverage": {
            "explanation": props.EXPLAIN[prop],
            "obligations": len(results),
            "shown": len(shown),
            "partly_decided": len(partly),
            "undecided": len(undecided),
            "violated": len(new),
            "known_findings": [{"obligation": r.name, "what": what} for r, what in old],
            "trace_partitions": sum(r.partitions for r in results),
            "partitions_agreeing": sum(r.agree for r in results),
            "lemmas": [repr(r).splitlines()[0] for r in uses],
            "functions_analysed": funcs[:400],
            "rules": [
                {
                    "name": r.name,
                    "what": r.what,
                    "verdict": r.verdict,
                    "partitions": r.partitions,
                    "wall_s": round(r.wall, 2),
                    "undecided": dict(list(r.undecided.items())[:3]),
                }
                for r in results
            ],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"obligation": r.name, "differ": r.differ[:3]} for r in new],
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, default=str)

    print(
        f"{prop}: {len(results)} obligations: {len(shown)} shown, {len(partly)} partly decided, "
        f"{len(undecided)} undecided, {len(new)} violated, {len(old)} known "
        f"({sum(r.partitions for r in results)} partitions, {time.time() - t0:.1f}s)"
    )
    for r, what in old:
        print(f"KNOWN-FINDING: property={prop} {what}")
    if new:
        path = os.path.join(HERE, "evidence", f"{prop}.violation.txt")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
            for r in new:
                f.write(f"{r.name}: {r.what}\n")
                for d in r.differ:
                    f.write(f"  {d}\n")
        for r in new[:10]:
            print(f"  {r.name}: {r.what}")
            for d in r.differ[:2]:
                print("    " + "".join(c if c.isprintable() else repr(c)[1:-1] for c in d[:700]))
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if len(shown) + len(partly) < max(1, len(results) // 10):
        print("error: too little could be decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
