"""Runs scenarios in the real code, and has TLC decide about the recorded traces."""

import concurrent.futures
import json
import os
import shutil
import subprocess
import tempfile
import time

import tlc

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")

# What is shown of a scenario as an example
SAMPLE = ("id", "steps", "walk", "source")

# .cgx files are UTF-8, like Python files, whatever the locale is
ENV = {name: {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
       for name in ("importing.py", "packing.py")}  # fmt: skip


class MachineryError(Exception):
    """Something is wrong with the check itself."""


class Result:
    def __init__(self):
        self.traces = 0
        self.states = 0
        self.segments = 0
        self.elements = 0
        self.bad = []  # (job, segment, clauses, error)
        self.samples = []


def drive(jobs, driver="rt.py", shards=8, timeout=420):
    """Runs the jobs in several processes: list of (job, trace, crash)."""
    work = tempfile.mkdtemp(prefix="drive-")
    end = time.monotonic() + timeout
    try:
        parts = [(os.path.join(work, str(i)), jobs[i::shards]) for i in range(shards)]
        with concurrent.futures.ThreadPoolExecutor(shards) as pool:
            done = pool.map(lambda p: drive_part(*p, driver, end), parts)
            return [entry for entries in done for entry in entries]
    finally:
        shutil.rmtree(work, ignore_errors=True)


def drive_part(base, part, driver, end):
    """Runs jobs in one process, or more of them when they die."""
    result = []
    while part:
        traces, died = run_process(base, part, driver, end)
        for job in part:
            if job["id"] in traces:
                result.append((job, traces[job["id"]], None))
        if died is None:
            break
        # A process that dies does so again, when it is given the same
        number, reason = died
        again = run_process(base, part[: number + 1], driver, end)[1]
        if time.monotonic() > end:
            break
        if again is not None:
            result.append((part[again[0]], None, reason))
            if again[0] != number:
                result.append((part[number], None, reason))
        part = part[number + 1 :]
    return result


def run_process(base, part, driver, end):
    """The traces of the jobs, and which one died for what reason."""
    with open(base + ".json", "w") as fh:
        json.dump(part, fh)
    for suffix in (".out", ".mark"):
        if os.path.exists(base + suffix):
            os.unlink(base + suffix)
    with open(base + ".err", "w") as err:
        process = subprocess.Popen(
            [PYTHON, os.path.join(HERE, driver), base + ".json", base + ".out",
             base + ".mark"],
            stdout=err, stderr=err, cwd=os.path.dirname(base),
            env={**os.environ, **ENV.get(driver, {}), "QT_QPA_PLATFORM": "offscreen",
                 "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"},
        )  # fmt: skip
        try:
            process.wait(max(1, end - time.monotonic()))
        except subprocess.TimeoutExpired:
            process.kill()
            process.wait()
    late = time.monotonic() > end
    traces = {}
    if os.path.exists(base + ".out"):
        with open(base + ".out") as fh:
            for line in fh:
                if line.endswith("\n"):
                    trace = json.loads(line)
                    traces[trace["id"]] = trace
    with open(base + ".err") as fh:
        text = fh.read()
    if not os.path.exists(base + ".mark"):
        raise MachineryError("driver: " + text[-2000:])
    with open(base + ".mark") as fh:
        mark = fh.read()
    for number, job in enumerate(part):
        if str(job["id"]) == mark and job["id"] not in traces and not late:
            return traces, (number, f"process died: {process.returncode}\n{text[-1500:]}")
    return traces, None


def judge(traces, module="Trace", workers=8):
    """Has TLC consume the traces: ({index: [(segment, clauses)]}, undecided, stats)."""
    work = tempfile.mkdtemp(prefix="judge-")
    try:
        path = os.path.join(work, "traces.json")
        with open(path, "w") as fh:
            json.dump([{k: v for k, v in t.items() if k != "error"} for t in traces], fh)
        out, stats = tlc.run(module, env={"TRACES": path}, workers=workers)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    bad, done = {}, {}
    for line in tlc.strings(out):
        kind, ti, si, *rest = line.split("|")
        if kind == "BAD":
            clauses = [c.strip().strip('"') for c in rest[0].strip("{}").split(",")]
            bad.setdefault(int(ti) - 1, []).append((int(si), clauses))
        elif kind == "DONE":
            done[int(ti) - 1] = (int(si), rest)
    undecided = [i for i in range(len(traces)) if i not in done and i not in bad]
    if undecided and "Error" not in out:
        raise MachineryError("TLC: " + out[-2000:])
    stats["output"] = out
    stats["elements"] = sum(int(r[1]) for _, r in done.values())
    return bad, undecided, stats


def run(jobs, driver="rt.py", module="Trace"):
    """All of it. `jobs` have unique ids."""
    result = Result()
    driven = drive(jobs, driver)
    result.traces = sum(1 for _, t, _ in driven if t)
    for job, trace, crash in driven:
        if trace is None:
            result.bad.append((job, 0, ["exc.crash"], crash))
    good = [(j, t) for j, t, _ in driven if t]
    todo = list(range(len(good)))
    rounds = 0
    while todo:
        bad, undecided, stats = judge([good[i][1] for i in todo], module)
        result.states += stats["distinct"]
        result.elements += stats["elements"]
        for i, found in bad.items():
            job, trace = good[todo[i]]
            for segment, clauses in sorted(found):
                result.bad.append((job, segment, clauses, trace.get("error", "")))
        if not undecided:
            break
        # The evaluation of one of the traces fails, for instance because values of
        # different types are compared: find out which one
        rest = [todo[i] for i in undecided]
        rounds += 1
        if rounds > 3 or len(rest) == len(todo):
            for i in rest[:24]:
                b, u, s = judge([good[i][1]], module, workers=1)
                if u:
                    last = [x for x in s["output"].splitlines() if x.strip()][-25:]
                    if not any("TLC" in x or "evaluat" in x.lower() for x in last):
                        raise MachineryError("\n".join(last))
                    result.bad.append(
                        (good[i][0], 0, ["exc.incomparable"], "\n".join(last))
                    )
                for si, clauses in b.get(0, []):
                    result.bad.append((good[i][0], si, clauses, good[i][1]["error"]))
                if result.bad:
                    break
            break
        todo = rest
    if len(driven) < len(jobs) and not result.bad:
        raise MachineryError(f"only {len(driven)} of {len(jobs)} jobs were run in time")
    result.segments = sum(len(t["segs"]) for _, t in good)
    for job, trace in good[:1]:
        result.samples.append(
            {
                "scenario": {k: str(v)[:400] for k, v in job.items() if k in SAMPLE},
                "recorded": [str(s)[:600] for s in trace["segs"][-2:]],
            }
        )
    return result
