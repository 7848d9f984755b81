"""Runs the harness and TLC; everything here is plumbing.  The verdicts come
from the TLA+ modules in /verif/spec."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(V, "spec")
CORES = 8
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Tool(Exception):
    """the machinery itself failed (exit status 2)"""


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=os.path.join(V, ".build", "target"))
    e.pop("RUSTFLAGS", None)
    return e


def build(crate, bins=None, timeout=800):
    """cargo build of a harness crate against /repo's working tree"""
    cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(V, crate, "Cargo.toml")]
    for b in bins or []:
        cmd += ["--bin", b]
    t = time.time()
    r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode:
        raise Tool("build of %s failed:\n%s" % (crate, r.stdout[-6000:]))
    return time.time() - t


def binary(name):
    return os.path.join(V, ".build", "target", "debug", name)


class Work:
    """scratch directory of one run"""
    def __init__(self, tag):
        os.makedirs(os.path.join(V, ".build"), exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="%s-" % tag, dir=os.path.join(V, ".build"))

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def chunks(xs, n):
    n = max(1, min(n, len(xs)))
    out = [[] for _ in range(n)]
    for i, x in enumerate(xs):
        out[i % n].append(x)
    return out


def run_bin(name, lines, timeout=600, args=()):
    """feed lines to a harness binary in parallel; returns the output lines"""
    def one(part):
        r = subprocess.run([binary(name)] + list(args), input="\n".join(part) + "\n", stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=timeout)
        if r.returncode:
            raise Tool("%s exited %d: %s" % (name, r.returncode, r.stderr[-3000:]))
        o = [l for l in r.stdout.split("\n") if l.startswith("{")]   # special-fun prints warnings
        if len(o) != len(part):
            raise Tool("%s answered %d of %d lines: %s" % (name, len(o), len(part), r.stderr[-2000:]))
        return o
    with ThreadPoolExecutor(CORES) as ex:
        return [l for o in ex.map(one, chunks(lines, CORES)) for l in o]


def tlc(work, module, cfg=None, extra_env=None, workers=1, timeout=800, heap="3g", opts=(), simulate=None):
    """one TLC run; returns (stdout, generated, distinct)"""
    meta = tempfile.mkdtemp(prefix="meta-", dir=work.dir)
    e = dict(os.environ)
    e.update(extra_env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xss128m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg"] + list(opts) + [module + ".tla"]
    r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", r.stdout, re.M)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return r, gen, dist


BAD = re.compile(r'<<\s*"BAD",\s*(-?\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', re.S)


def judge(work, module, lines, heap="3g", timeout=800, cores=CORES, cfg=None, extra_env=None):
    """check recorded lines with TLC against `module` (which reads IOEnv.TRACE,
    prints BAD tuples and finally DONE).  Returns ({(id, event): tags}, gen, distinct)"""
    def one(ix_part):
        ix, part = ix_part
        f = work.path("trace-%s-%d.ndjson" % (module, ix))
        with open(f, "w") as h:
            h.write("\n".join(part) + "\n")
        e = {"TRACE": f}
        e.update(extra_env or {})
        r, g, d = tlc(work, module, cfg=cfg, extra_env=e, heap=heap, timeout=timeout)
        if "No error has been found" not in r.stdout or '"DONE"' not in r.stdout:
            keep = os.path.join(V, ".build", "tool-error-%s.log" % module)
            with open(keep, "w") as h:
                h.write(r.stdout)
            raise Tool("TLC failed on %s (log %s):\n%s" % (module, keep, r.stdout[-3000:]))
        bad = {}
        for m in BAD.finditer(r.stdout):
            bad[(int(m.group(1)), int(m.group(2)))] = set(re.findall(r'"([^"]+)"', m.group(3)))
        return bad, g, d
    bad, gen, dist = {}, 0, 0
    with ThreadPoolExecutor(cores) as ex:
        for b, g, d in ex.map(one, list(enumerate(chunks(lines, cores)))):
            bad.update(b)
            gen += g - 1     # transitions: generated states other than the initial one
            dist += d
    return bad, gen, dist
