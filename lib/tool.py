"""Building and running the tool under test, from /repo's working tree."""
import os
import resource
import subprocess
import tempfile
import shutil

REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.environ.get("VERIF_TARGET", os.path.join(REPO, "target"))
BIN = os.path.join(TARGET, "release", "cryptovampire")
Z3 = "/opt/vp/z3/bin/z3"


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/root/.cargo/bin:" + e.get("PATH", ""),
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=TARGET, CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    for k in ("RUST_BACKTRACE", "RUST_LOG", "RUSTFLAGS"):
        e.pop(k, None)
    return e


def build():
    """Rebuilds from the working tree.  Cargo trusts modification times; the crate roots are touched
    so that a tree put there with old times is compiled all the same (incremental: a few seconds)."""
    for b, ds, fs in os.walk(os.path.join(REPO, "crates")):
        for f in fs:
            if f in ("lib.rs", "main.rs") and b.endswith("/src"):
                os.utime(os.path.join(b, f))
            elif f.endswith(".pest"):
                os.utime(os.path.join(b, f))
    p = subprocess.run(["cargo", "build", "--release", "--workspace", "--locked", "--offline"], cwd=REPO, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("build failed:\n" + p.stdout[-4000:])


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Run:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err


def run(args, stdin=None, timeout=120, cwd=None, extra_env=None):
    e = env()
    if extra_env:
        e.update(extra_env)
    try:
        p = subprocess.run([BIN] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, input=stdin, timeout=timeout,
                           env=e, cwd=cwd, text=True, errors="replace", preexec_fn=_limits)
    except subprocess.TimeoutExpired:
        return Run(None, "", "timeout")
    return Run(p.returncode, p.stdout, p.stderr[:4000])


class Emission:
    """files: list of (relative name, text), sorted"""

    def __init__(self, run, files):
        self.run, self.files = run, files
        self.rc, self.err = run.rc, run.err


def emit(text, glob=(), sub=("--cvc5",), lemmas=False, name="p.ptcl", timeout=120, squirrel=False):
    """squirrel: text is a dump, of which one problem per system is made"""
    d = tempfile.mkdtemp(prefix="emit_")
    try:
        src = os.path.join(d, name)
        open(src, "w").write(text)
        out = os.path.join(d, "out")
        args = [src] + (["--input-format", "squirrel-json"] if squirrel else []) + list(glob) + ["to-file"] + list(sub)
        if squirrel:
            args += ["-o", out]
        elif lemmas:
            os.mkdir(out)
            args += ["--lemmas", "-o", out]
        else:
            args += ["-o", out + ".smt"]
        r = run(args, timeout=timeout)
        fs = []
        if lemmas or squirrel:
            for b, _, ff in os.walk(out):
                for f in ff:
                    pth = os.path.join(b, f)
                    fs.append((os.path.relpath(pth, out), open(pth, errors="replace").read()))
        elif os.path.exists(out + ".smt"):
            fs.append(("out.smt", open(out + ".smt", errors="replace").read()))
        return Emission(r, sorted(fs))
    finally:
        shutil.rmtree(d, ignore_errors=True)
