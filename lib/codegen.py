"""Programs written out as Rust, compiled against the library and run."""
import json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import run
from run import Tool, V

BINS = run.CORES


class Crate:
    """a crate of BINS binaries under .build; item k lives in binary k % BINS"""
    def __init__(self, name, prefix, head, main):
        self.dir, self.name, self.prefix, self.head, self.main = os.path.join(V, ".build", name), name, prefix, head, main

    def build(self, items, log, describe=lambda k: str(k), may_drop=0.5):
        """items: {number: Rust text}.  Returns the numbers that do compile: an item
        whose types the library (as it is now) does not accept is left out."""
        os.makedirs(os.path.join(self.dir, "src", "bin"), exist_ok=True)
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as h:
            h.write('[package]\nname = "aegir-%s"\nversion = "0.1.0"\nedition = "2018"\n\n[workspace]\n\n[dependencies]\n'
                    'aegir = { path = "/repo/aegir" }\naegir-vh = { path = "%s/harness" }\nserde_json = "1.0"\npaste = "1.0"\n\n'
                    '[profile.dev]\ndebug = 0\nopt-level = 0\nincremental = false\n' % (self.name, V))
        lock = os.path.join(self.dir, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(V, "harness", "Cargo.lock"), lock)
        alive = sorted(items)
        for attempt in range(4):
            where = {}
            for b in range(BINS):
                lines = self.head.rstrip("\n").split("\n")
                mine = [k for k in alive if k % BINS == b]
                for k in mine:
                    src = items[k].rstrip("\n").split("\n")
                    for i in range(len(src)):
                        where[("%s%d.rs" % (self.prefix, b), len(lines) + 1 + i)] = k
                    lines += src
                lines.append(self.main(mine))
                with open(os.path.join(self.dir, "src", "bin", "%s%d.rs" % (self.prefix, b)), "w") as h:
                    h.write("\n".join(lines) + "\n")
            r = subprocess.run(["cargo", "build", "--offline", "-q", "--keep-going", "--manifest-path", os.path.join(self.dir, "Cargo.toml")],
                               env=run.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            if r.returncode == 0:
                return alive
            bad = set()
            for m in re.finditer(r"^error.*?\n(?:.*\n)*?\s*--> src/bin/(\w+\.rs):(\d+):", r.stdout, re.M):
                k = where.get((m.group(1), int(m.group(2))))
                if k is not None:
                    bad.add(k)
            if not bad or len(bad) > len(alive) * may_drop:
                raise Tool("build of the enumerated programs failed (%d):\n%s" % (len(bad), r.stdout[-6000:]))
            log("%d programs are not accepted by the library as it is and left out, e.g. %s" % (len(bad), describe(min(bad))))
            alive = [k for k in alive if k not in bad]
        raise Tool("build of the enumerated programs failed:\n%s" % r.stdout[-6000:])

    def run(self, requests, timeout=600):
        """requests name their item as "prog" """
        def one(b):
            mine = [s for s in requests if s["prog"] % BINS == b]
            if not mine:
                return []
            r = subprocess.run([run.binary("%s%d" % (self.prefix, b))], input="\n".join(map(json.dumps, mine)) + "\n",
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
            o = [l for l in r.stdout.split("\n") if l.startswith("{")]
            if r.returncode or len(o) != len(mine):
                raise Tool("%s%d exited %d after %d of %d: %s" % (self.prefix, b, r.returncode, len(o), len(mine), r.stderr[-3000:]))
            return o
        with ThreadPoolExecutor(BINS) as ex:
            return [l for o in ex.map(one, range(BINS)) for l in o]
