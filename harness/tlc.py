"""Running TLC."""

import os
import re
import shutil
import subprocess
import tempfile

JARS = (
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
)
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    pass


def run(module, cfg=None, env=None, args=(), workers=8, timeout=600, heap="6g"):
    """Runs TLC on a module of /verif/spec, returns (output, stats)."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    command = [
        "java", "-XX:+UseParallelGC", "-Xss64m", f"-Xmx{heap}", "-cp", JARS,
        "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noTE",
        "-config", cfg or f"{module}.cfg", *args, f"{module}.tla",
    ]  # fmt: skip
    try:
        result = subprocess.run(
            command,
            cwd=SPEC,
            env={**os.environ, **(env or {})},
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            text=True,
            timeout=timeout,
        )
    except subprocess.TimeoutExpired as e:
        raise TlcError(f"TLC timed out on {module}: {(e.stdout or b'')[-2000:]}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = result.stdout
    stats = {"states": 0, "distinct": 0, "depth": 0}
    if m := re.search(r"(\d+) states generated, (\d+) distinct states found", out):
        stats["states"], stats["distinct"] = int(m[1]), int(m[2])
    if m := re.search(r"depth of the complete state graph search is (\d+)", out):
        stats["depth"] = int(m[1])
    stats["rc"] = result.returncode
    return out, stats


def strings(out):
    """The strings that are printed with PrintT."""
    return [
        line[1:-1].replace('\\"', '"')
        for line in out.splitlines()
        if line.startswith('"') and line.endswith('"')
    ]
