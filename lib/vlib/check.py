"""The life of one check: build, drive, validate, report, evidence."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import build, tlc
from .build import BUILD, VERIF

KNOWN = os.path.join(VERIF, "known-findings.txt")


class Violation(Exception):
    def __init__(self, what, replay=None):
        Exception.__init__(self, what)
        self.what = what
        self.replay = replay


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(self.seed)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.known = []
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", pid)
        os.makedirs(self.work, exist_ok=True)
        self.replays = os.path.join(VERIF, "evidence", "replay")

    # -- budget ------------------------------------------------------------
    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, msg), flush=True)

    # -- model checking of the spec ------------------------------------------
    def model(self, module, cfg=None, **kw):
        r = tlc.run(module, cfg, **kw)
        if not r.ok:
            # the specification itself does not satisfy its property: an error of the check
            raise CheckError("model %s/%s violates %s\n%s" % (module, cfg, r.violated, r.out[-3000:]))
        self.states += r.states
        self.transitions += r.transitions
        self.log("model %s: %d distinct states, %d generated, %.1fs" %
                 (cfg or module, r.states, r.transitions, r.wall))
        return r

    def flawed(self, module, cfg):
        """A variant with a known flaw: the specification has to notice it."""
        r = tlc.run(module, cfg)
        if r.ok:
            raise CheckError("model %s: the flaw goes unnoticed" % cfg)
        self.log("model %s: flaw noticed by %s" % (cfg, r.violated))

    # -- drivers -------------------------------------------------------------
    def drive(self, binary, args, timeout=600, env=None, ok=(0,)):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:" \
                            "detect_stack_use_after_return=0:symbolize=0:handle_abort=0:malloc_context_size=2"
        e.update(env or {})
        try:
            r = subprocess.run([binary] + [str(a) for a in args], env=e, cwd=self.work,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("driver timed out: %s %s" % (binary, args))
        if r.returncode not in ok:
            raise CheckError("driver %s failed (%s): %s" % (
                binary, r.returncode, r.stderr.decode(errors="replace")[-3000:]))
        return r

    def drive_many(self, binary, out, count, args, jobs=8, **kw):
        """Records traces 1..count with several processes of the driver."""
        jobs = max(1, min(jobs, count))
        cuts = [count * k // jobs for k in range(jobs + 1)]
        parts = ["%s.%d" % (out, k) for k in range(jobs)]
        with ThreadPoolExecutor(jobs) as pool:
            fs = [pool.submit(self.drive, binary,
                              [parts[k], "--from", cuts[k] + 1, "--count", cuts[k + 1]] + list(args), **kw)
                  for k in range(jobs)]
            for f in fs:
                f.result()
        with open(out, "wb") as f:
            for p in parts:
                with open(p, "rb") as g:
                    shutil.copyfileobj(g, f)
                os.unlink(p)

    # -- trace validation ------------------------------------------------------
    def validate(self, module, trace_file, cfg=None, label=None, regen=None, env=None, **kw):
        """Validates a file of traces (one JSON object per line).

        `regen(index)` re-runs the driver for that single trace and returns a file with
        it; a rejection is reported only if the regenerated trace is rejected as well.
        """
        n = 0
        nev = 0
        with open(trace_file) as f:
            for line in f:
                n += 1
                if len(self.samples) < 3 and n in (1, 7, 23):
                    self.samples.append(shorten(line))
        if n == 0:
            raise CheckError("no traces recorded in " + trace_file)
        e = dict(env or {})
        e["TRACE"] = trace_file
        r = tlc.run(module, cfg, env=e, **kw)
        self.states += r.states
        self.transitions += r.transitions
        if r.ok:
            self.traces += n
            nev = r.states - n
            self.events += max(nev, 0)
            self.log("validated %s: %d traces, %d steps, %.1fs" % (label or module, n, nev, r.wall))
            return r
        last = r.trace[-1] if r.trace else {}
        try:
            tid = int(last.get("tid", "1"))
        except ValueError:
            tid = 1
        with open(trace_file) as f:
            line = f.read().splitlines()[tid - 1]
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, "%s-%s-%d.json" % (self.pid, label or module, tid))
        with open(path, "w") as f:
            f.write(line + "\n")
        step = last.get("i", "?")
        ev = None
        try:
            obj = json.loads(line)
            k = int(step) - 2
            ev = obj["ev"][k] if 0 <= k < len(obj["ev"]) else None
        except Exception:
            pass
        what = "%s: trace %d rejected at step %s (%s): %s" % (
            label or module, tid, step, r.violated, shorten(json.dumps(ev)))
        self.log(what)
        # repeat
        try:
            index = int(json.loads(line).get("id", tid))
        except ValueError:
            index = tid
        again = regen(index) if regen else path
        e["TRACE"] = again
        r2 = tlc.run(module, cfg, env=e, **kw)
        if r2.ok:
            raise CheckError("rejection did not repeat: " + what)
        raise Violation(what, path)

    def simple(self, drv, module, count, cfg="trace", label=None, args=(), batch=4000, env=None, jobs=1, **kw):
        """Records `count` random traces with the driver and validates them."""
        done = 0
        seed = self.seed
        while done < count:
            n = min(batch, count - done)
            out = os.path.join(self.work, "%s-%d.ndjson" % (label or module, done))
            if jobs > 1:
                self.drive_many(drv, out, n, ["--seed", seed] + list(args), jobs, timeout=700, env=env)
            else:
                self.drive(drv, [out, "--seed", seed, "--count", n] + list(args), timeout=700, env=env)

            def regen(k, seed=seed):
                again = out + ".again"
                self.drive(drv, [again, "--seed", seed, "--count", n, "--only", k] + list(args), env=env)
                return again
            self.validate(module, out, cfg, label=label, regen=regen, **kw)
            os.unlink(out)
            done += n
            seed += 7919

    def concurrent(self, name, sources, lib, module, count, memory=(True, False), batch=4000, args=(), tag="", **kw):
        """Records traces of concurrent code under the deterministic scheduler and validates them."""
        for mem in memory:
            label = module + ("-" + tag if tag else "") + ("-mem" if mem else "")
            try:
                drv = build.build_sched_driver("%s%d" % (name, mem), sources, lib, memory=mem, **kw)
            except build.BuildError as e:
                self.log("scheduler build failed, falling back to ordinary threads: %s" % str(e)[-600:])
                nkw = dict(kw, extra=("-DVS_NATIVE",) + tuple(kw.get("extra", ())))
                drv = build.build_base_driver(name + "n", sources, **nkw)
                out = os.path.join(self.work, label + ".ndjson")
                self.drive(drv, [out, "--seed", self.seed, "--count", count] + list(args))
                self.validate(module, out, "trace", label=label)
                self.assumptions.append("ordinary threads instead of the deterministic scheduler")
                continue
            self.simple(drv, module, count, label=label, batch=batch, args=args)

    def known_finding(self, key):
        """True if `key` identifies a recorded finding of this property."""
        for k in load_known():
            if k.get("property") == self.pid and k.get("key") == key:
                if key not in self.known:
                    self.known.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return True
        return False

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(self.cov)
        if self.level == "model_checking":
            cov.setdefault("states", self.states)
            cov.setdefault("transitions", self.transitions)
            cov.setdefault("traces_validated_against_impl", self.traces)
        cov.setdefault("trace_steps", self.events)
        cov.setdefault("samples", self.samples[:3])
        obj = {"property": self.pid, "tier": "quick" if self.quick else "thorough",
               "seed": self.seed, "level": self.level, "coverage": cov,
               "wall_s": round(time.time() - self.t0, 3), "violations": violations,
               "assumptions": self.assumptions}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(obj, f, indent=1)
            f.write("\n")


def load_known():
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m:
                    out.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
    except FileNotFoundError:
        pass
    return out


def shorten(s, n=600):
    s = s.strip()
    return s if len(s) <= n else s[:n] + " ..."


def main(pid, mod):
    ctx = Ctx(pid, getattr(mod, "LEVEL", "model_checking"))
    try:
        ctx.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
        mod.run(ctx)
    except Violation as v:
        ctx.evidence(1)
        replay = v.replay or os.path.join(ctx.replays, pid + ".txt")
        if not v.replay:
            os.makedirs(ctx.replays, exist_ok=True)
            with open(replay, "w") as f:
                f.write(v.what + "\n")
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (pid, replay), flush=True)
        return 1
    except (CheckError, build.BuildError, tlc.TlcError) as ex:
        print("ERROR: " + str(ex), flush=True)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    ctx.evidence(0)
    ctx.log("held: %d traces, %d steps, %d states" % (ctx.traces, ctx.events, ctx.states))
    return 0
