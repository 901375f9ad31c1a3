"""What every check shares: building, running, reporting."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
MC = os.path.join(VERIF, "mc")
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, "out")
GCC = shutil.which("g++") or "/usr/bin/g++"
CLANG = shutil.which("clang++") or "/usr/bin/clang++"
NPROC = max(2, min(16, os.cpu_count() or 4))
HEADERS = ["indirect.h", "indirect_cxx14.h", "polymorphic.h", "polymorphic_cxx14.h"]


class CheckError(Exception):
    """The check itself failed: neither held nor violated."""


class Check:
    def __init__(self, pid):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.thorough = self.tier == "thorough"
        self.violations = []
        self.known = []
        self.lock = threading.Lock()
        self.coverage = {"states": 0, "transitions": 0,
                         "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        os.makedirs(OUT, exist_ok=True)
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="%s-" % pid, dir=BUILD)
        self.known_list = load_known(pid)

    # ---- results ----
    def add(self, key, n):
        with self.lock:
            self.coverage[key] = self.coverage.get(key, 0) + n

    def sample(self, s, limit=12):
        with self.lock:
            if len(self.coverage["samples"]) < limit:
                self.coverage["samples"].append(s)

    def violation(self, text, replay=None):
        """replay: anything that lets the violation be seen again."""
        with self.lock:
            self.violations.append((text, replay))

    def finding(self, key, text, replay=None):
        """A violation identified by key: known or new."""
        with self.lock:
            if key in self.known_list:
                if key not in self.known:
                    self.known.append(key)
                return
        self.violation(text, replay)

    def finish(self):
        path = os.path.join(OUT, "%s.replay.json" % self.id)
        for k in sorted(self.known):
            print("KNOWN-FINDING: property=%s %s" % (self.id, k))
        if self.violations:
            with open(path, "w") as f:
                json.dump([{"property": self.id, "what": t, "replay": r}
                           for t, r in self.violations], f, indent=1)
                f.write("\n")
            for t, r in self.violations[:8]:
                print("  %s" % t)
            print("VIOLATION property=%s replay=%s" % (self.id, path))
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed,
              "level": "model_checking", "coverage": self.coverage,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", "%s.json" % self.id)
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        os.replace(p + ".tmp", p)
        c = self.coverage
        print("%s %s: states=%d transitions=%d executions=%d violations=%d %.1fs" %
              (self.id, self.tier, c["states"], c["transitions"],
               c["traces_validated_against_impl"], len(self.violations),
               time.time() - self.t0))
        self.cleanup()
        return 1 if self.violations else 0

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def load_known(pid):
    keys = set()
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) (.*\S)", line)
                if m and m.group(1) == pid:
                    keys.add(m.group(2))
    except OSError:
        pass
    return keys


# ---- building ---------------------------------------------------------------
_hash_cache = {}


def file_hash(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def tree_hash():
    """Everything a harness may include."""
    if "t" not in _hash_cache:
        h = hashlib.sha256()
        for base in (REPO, os.path.join(REPO, "exploration"), MC):
            for n in sorted(os.listdir(base)):
                if n.endswith((".h", ".hpp")):
                    h.update(n.encode())
                    h.update(file_hash(os.path.join(base, n)).encode())
        _hash_cache["t"] = h.hexdigest()
    return _hash_cache["t"]


def run(cmd, timeout=600, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                              text=True, errors="replace", timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, -99, e.stdout or "", "timeout")


class Unit:
    """One translation unit and its compiler command."""

    def __init__(self, src, flags, cc=None, header=None):
        self.src = src if os.path.isabs(src) else os.path.join(MC, src)
        self.flags = flags
        self.cc = cc or CLANG
        self.header = header  # the header under test, for telling who is wrong
        self.err = None
        self.ok = None

    def key(self):
        h = hashlib.sha256()
        h.update((self.cc + " " + " ".join(self.flags)).encode())
        h.update(file_hash(self.src).encode())
        h.update(tree_hash().encode())
        return h.hexdigest()[:32]

    def build(self, cache=True):
        cdir = os.path.join(BUILD, "cache")
        os.makedirs(cdir, exist_ok=True)
        self.obj = os.path.join(cdir, self.key() + ".o")
        if os.path.exists(self.obj):
            self.ok = True
            return self
        tmp = "%s.%d.%d.o" % (self.obj, os.getpid(), threading.get_ident())
        cmd = [self.cc] + self.flags + ["-I" + REPO, "-I" + MC, "-c", self.src, "-o", tmp]
        r = run(cmd, timeout=800)
        if r.returncode != 0:
            r = run(cmd, timeout=800)  # once more: memory may have been short
        self.ok = r.returncode == 0
        self.err = r.stderr
        if self.ok:
            os.replace(tmp, self.obj)
        else:
            try:
                os.unlink(tmp)
            except OSError:
                pass
        return self


def prune_cache(limit=1500):
    cdir = os.path.join(BUILD, "cache")
    try:
        fs = [os.path.join(cdir, n) for n in os.listdir(cdir)]
        fs.sort(key=os.path.getmtime)
        for f in fs[:-limit]:
            os.unlink(f)
    except OSError:
        pass


def pmap(fn, items, n=NPROC):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def first_error(err):
    for line in (err or "").splitlines():
        if "error:" in line:
            return line.strip()[:300]
    return (err or "").strip()[:300]


def header_alone_compiles(cc, flags, headers):
    d = tempfile.mkdtemp(prefix="hdr-", dir=BUILD)
    try:
        src = os.path.join(d, "h.cc")
        with open(src, "w") as f:
            for h in headers:
                f.write('#include "%s"\n' % h)
            f.write("int main() { return 0; }\n")
        r = run([cc] + flags + ["-I" + REPO, "-fsyntax-only", src])
        return r.returncode == 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def compile_units(chk, units, what):
    """Compile all; a unit that stopped compiling although the header by itself
    does is a violation (the interface the property speaks of is gone)."""
    pmap(lambda u: u.build(), units)
    bad = [u for u in units if not u.ok]
    for u in bad:
        if u.header is None:
            raise CheckError("cannot compile %s: %s" % (u.src, first_error(u.err)))
        std = [f for f in u.flags if f.startswith("-std")]
        hs = u.header if isinstance(u.header, list) else [u.header]
        # where the header compiles somewhere else it is this configuration that fails
        if not header_alone_compiles(u.cc, std, hs) and not any(
                header_alone_compiles(cc, ["-std=c++%d" % n], hs)
                for cc in (GCC, CLANG) for n in (14, 17, 20, 23)):
            raise CheckError("%s does not compile by itself: %s" %
                             (u.header, first_error(u.err)))
        cmd = " ".join([os.path.basename(u.cc)] + u.flags +
                       ["-I" + REPO, "-I" + MC, "-c", u.src])
        chk.violation("%s: uses of %s that are part of its interface no longer compile: %s"
                      % (what, u.header, first_error(u.err)), {"compile": cmd})
    return [u for u in units if u.ok]


def link(chk, name, cc, flags, objs, libs=()):
    exe = os.path.join(chk.dir, name)
    r = run([cc] + flags + list(objs) + ["-o", exe] + list(libs))
    if r.returncode != 0:
        raise CheckError("link of %s failed: %s" % (name, first_error(r.stderr)))
    return exe
