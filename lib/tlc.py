"""Runs TLC on a generated module; returns a structured result."""
import os
import re
import shutil
import subprocess
import tempfile
import time

JAR = "/opt/veriftools/tla/tla2tools.jar"
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


class TlcError(Exception):
    """TLC could not decide (parse error, evaluation error, resources)."""


class TlcTimeout(TlcError):
    """The exploration did not end in the time allowed."""


CAP = [None]        # on every timeout


class Result:
    def __init__(self):
        self.violated = None      # name of the violated invariant
        self.violations = []      # all of them (with -continue)
        self.trace = ""
        self.states = self.distinct = 0
        self.out = ""
        self.wall = 0.0


def classpath():
    import glob
    cm = glob.glob("/opt/veriftools/tla/*.jar")
    return ":".join([JAR] + [c for c in cm if c != JAR])


def run(name, module_text, cfg_text, extra=(), workers=1, heap="2g", timeout=800, cont=False, simulate=None, keep=None, files=None):
    d = tempfile.mkdtemp(prefix="tlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for k, v in (files or {}).items():
            open(os.path.join(d, k), "w").write(v)
        if module_text is not None:
            open(os.path.join(d, name + ".tla"), "w").write(module_text)
        open(os.path.join(d, name + ".cfg"), "w").write(cfg_text)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-XX:TieredStopAtLevel=4", "-cp", classpath(), "tlc2.TLC", "-metadir", os.path.join(d, "meta"),
               "-workers", str(workers), "-noGenerateSpecTE", "-config", name + ".cfg"]
        if cont:
            cmd.append("-continue")
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra) + ["-deadlock", name + ".tla"]
        t0 = time.time()
        timeout = min(timeout, CAP[0] or timeout)
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as e:
            raise TlcTimeout("%s: TLC timed out after %ds" % (name, timeout))
        r = Result()
        r.wall = time.time() - t0
        r.out = out = p.stdout
        if keep:
            os.makedirs(keep, exist_ok=True)
            for f in os.listdir(d):
                if f.endswith((".tla", ".cfg")):
                    shutil.copy(os.path.join(d, f), keep)
            open(os.path.join(keep, name + ".out"), "w").write(out)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            r.states, r.distinct = int(m[-1][0]), int(m[-1][1])
        r.violations = list(dict.fromkeys(re.findall(r"Error: (?:Invariant|Action property|Property) (\S+) is violated", out)))
        if "Temporal properties were violated" in out:
            r.violations.append("temporal")
        m = re.search(r"Error: (?:Invariant|Action property|Property) (\S+) is violated(.*)", out, re.S)
        if m:
            r.violated = m.group(1)
            t = m.group(2)
            j = t.find("\n\nError:", 1)
            r.trace = t[:6000]
        elif r.violations:
            r.violated = r.violations[0]
            r.trace = out[-6000:]
        if not r.violations:
            if "Model checking completed. No error has been found" not in out and not (simulate and p.returncode == 0):
                raise TlcError("%s: TLC failed (rc=%s): %s" % (name, p.returncode, out[-3000:]))
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
