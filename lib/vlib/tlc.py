"""Runs TLC on the modules in /verif/spec."""
import os
import re
import shutil
import subprocess
import tempfile
import time

from .build import BUILD, VERIF

SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


class TlcResult:
    def __init__(self):
        self.ok = False
        self.violated = None      # name of the violated invariant / property
        self.states = 0           # distinct states
        self.transitions = 0      # states generated
        self.out = ""
        self.trace = []           # list of {var: text} of the error trace
        self.wall = 0.0


def _parse_trace(out):
    trace = []
    cur = None
    key = None
    for line in out.splitlines():
        m = re.match(r"^State (\d+): ", line)
        if m:
            cur = {}
            trace.append(cur)
            key = None
            continue
        if cur is None:
            continue
        m = re.match(r"^(?:/\\ )?([A-Za-z_][A-Za-z0-9_]*) = (.*)$", line)
        if m:
            key = m.group(1)
            cur[key] = m.group(2)
        elif line.strip() == "":
            cur = None
        elif key is not None:
            cur[key] += " " + line.strip()
    return trace


def run(module, cfg=None, env=None, workers="auto", heap="6g", timeout=800, extra=(), deadlock=False,
        dfs=None):
    """Runs TLC on spec/<module>.tla with spec/<cfg or module>.cfg."""
    os.makedirs(os.path.join(BUILD, "tlc"), exist_ok=True)
    meta = tempfile.mkdtemp(prefix=module + "-", dir=os.path.join(BUILD, "tlc"))
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta,
           "-cp", CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, (cfg or module) + ".cfg")]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra)
    cmd.append(os.path.join(SPEC, module + ".tla"))
    t0 = time.time()
    try:
        r = subprocess.run(cmd, env=e, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult()
    res.wall = time.time() - t0
    res.out = r.stdout.decode(errors="replace")
    m = None
    for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found",
                         res.out):
        pass
    if m:
        res.transitions = int(m.group(1).replace(",", ""))
        res.states = int(m.group(2).replace(",", ""))
    if r.returncode == 0:
        res.ok = True
        return res
    m = re.search(r"Error: (?:Invariant|Action property|Temporal properties were|Property) ?(\S*)? ?.*violated",
                  res.out)
    if m or r.returncode in (11, 12, 13):
        mm = re.search(r"Error: (?:Invariant|Action property|Property) (\S+)", res.out)
        res.violated = mm.group(1) if mm else ("deadlock" if r.returncode == 11 else "property")
        res.trace = _parse_trace(res.out)
        return res
    if "Deadlock reached" in res.out:
        res.violated = "deadlock"
        res.trace = _parse_trace(res.out)
        return res
    raise TlcError("TLC failed on %s (exit %d):\n%s" % (module, r.returncode, res.out[-3500:]))
