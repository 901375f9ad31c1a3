"""C19: every small compilation database through scripts/reduce_compile_commands.py,
run as a script inside this process, against a reference."""
import contextlib
import io
import itertools
import json
import multiprocessing
import os
import sys
import tempfile

from common import *

SCRIPT = os.path.join(REPO, "scripts", "reduce_compile_commands.py")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(SCRIPT)))

# paths relative to the project root (or absolute, outside it)
FILES = ["a.cc", "s/a.cc", "s/b.cc", "sx/a.cc", "s/d/a.cc", "x/s/a.cc", "s.cc"]
ODD = ["/elsewhere/s/a.cc", "s/d e/\u00e9.cc", "s-/a.cc", "S/a.cc", "a.cc.cc", "../s/a.cc",
       "s/s/a.cc", "build-old/moc.cc", "s/d/../b.cc", "s/a.c", "s/a", "s/A.cc",
       "s/d e/e\u0301.cc", "s/ a.cc", "s/a.cc~", "s/%61.cc", "s/a-cc", "t/a.cc"]
DIRS = ["s", "s/d", "sx", "x", "x/s", "nowhere"]
DIRFORMS = ["s/", "./s", "s/d/", "x/../s", "s//d", "../" + os.path.basename(ROOT) + "/s",
            os.path.join(ROOT, "s"), "/elsewhere", "/elsewhere/s", "..", ".", "/", "S", "s/d/..",
            "a.cc/x", "s*", "s/d e", "s-"]


def absolute(f):
    return f if f.startswith("/") else os.path.normpath(os.path.join(ROOT, f))


def entry(f, variant):
    """Variants: another command, another directory, arguments instead of command."""
    e = {"directory": os.path.join(ROOT, "build%d" % variant),
         "command": "c++ -DV=%d \"-I a\" -c %s -o out%d.o" % (variant, f, variant),
         "file": absolute(f)}
    if variant == 2:
        e["arguments"] = e.pop("command").split(" ") + ["\u00fc", "\\", "\""]
        e["output"] = "o"
        e = dict(reversed(list(e.items())))
    return e


def inside(f, d):
    d = os.path.normpath(os.path.join(ROOT, d))
    f = os.path.normpath(f)
    if d == "/":
        return True
    return f.startswith(d.rstrip("/") + "/")


def reference(db, dirs):
    seen = set()
    out = []
    for e in db:
        if any(inside(e["file"], d) for d in dirs) or e["file"] in seen:
            continue
        seen.add(e["file"])
        out.append(e)
    return out


class Runner:
    def __init__(self, tmp):
        with open(SCRIPT) as f:
            self.code = compile(f.read(), SCRIPT, "exec")
        self.path = os.path.join(tmp, "db-%d.json" % os.getpid())
        self.n = 0
        self.steps = 0
        self.bad = []
        sys.path.insert(0, os.path.dirname(SCRIPT))

    def write(self, db):
        with open(self.path, "w", encoding="utf-8") as f:
            json.dump(db, f)
        with open(self.path, "rb") as f:
            self.bytes = f.read()

    def call(self, argv):
        old = sys.argv
        out, err = io.StringIO(), io.StringIO()
        sys.argv = [SCRIPT] + argv
        code = None
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                try:
                    exec(self.code, {"__name__": "__main__", "__file__": SCRIPT,
                                     "__builtins__": __builtins__})
                except SystemExit as e:
                    code = e.code
        except Exception as e:  # the script's own failure
            return None, "raises %s: %s" % (type(e).__name__, e)
        finally:
            sys.argv = old
        if code not in (None, 0):
            return None, "exits with %r: %s" % (code, err.getvalue()[-200:])
        return out.getvalue(), None

    def case(self, db, dirs, names):
        want = reference(db, dirs)
        argv = [self.path]
        if names:
            argv.append("--names-only")
        if dirs:
            argv += ["--exclude_dirs"] + list(dirs)
        self.n += 1
        self.steps += len(db)
        out, err = self.call(argv)
        if err is None:
            if names:
                exp = " ".join(os.path.relpath(e["file"], ROOT) for e in want)
                if out.rstrip("\n") != exp:
                    err = "prints %r, should be %r" % (out[:300], exp)
            else:
                try:
                    got = json.loads(out)
                except ValueError:
                    got = "no JSON: %r" % out[:200]
                if got != want:
                    err = "outputs %s, should be %s" % (brief(got), brief(want))
        if err is None:
            with open(self.path, "rb") as f:
                if f.read() != self.bytes:
                    err = "the input file was modified"
        if err and len(self.bad) < 5:
            self.bad.append(("files %s, --exclude_dirs %s%s: %s" %
                             ([(rel(e["file"]), variant_of(e)) for e in db], list(dirs),
                              ", --names-only" if names else "", err),
                             {"database": db, "exclude_dirs": list(dirs), "names_only": names}))


def rel(p):
    return p[len(ROOT) + 1:] if p.startswith(ROOT + "/") else p


def variant_of(e):
    return e.get("directory", "?")[-1:]


def brief(x):
    if isinstance(x, list):
        return "[%s]" % ", ".join("%s#%s" % (rel(e.get("file", "?")), variant_of(e))
                                  if isinstance(e, dict) else str(e)[:40] for e in x)
    return str(x)[:200]


def subsets(ds, n):
    for k in range(n + 1):
        yield from itertools.permutations(ds, k) if k < 2 else itertools.combinations(ds, k)


def job(args):
    kind, arg, tmp = args
    r = Runner(tmp)
    if kind == "main":  # all databases starting with this entry
        first, length, nfiles, ndirs, nvar = arg
        alphabet = [entry(f, v) for f in FILES[:nfiles] for v in range(nvar)]
        for rest in itertools.product(alphabet, repeat=length - 1):
            db = [alphabet[first]] + list(rest)
            r.write(db)
            for dirs in subsets(DIRS, ndirs):
                for names in (False, True):
                    r.case(db, dirs, names)
    elif kind == "odd":  # unusual paths and ways to write directories
        db = [entry(f, v) for f in FILES[:3] + ODD + FILES[3:] for v in (0, 2)]
        for d in DIRFORMS + DIRS:
            if d == arg or arg == "":
                pass
            dirs = [d] if not arg else [d, arg]
            if "/" in dirs and arg:
                continue
            r.write(db)
            r.case(db, dirs, False)
            r.case(db, dirs, True)
        for perm in itertools.permutations(db[:5]):
            r.write(list(perm))
            r.case(list(perm), [arg] if arg else [], False)
    elif kind == "empty":
        r.write([])
        for dirs in subsets(DIRS, 2):
            r.case([], dirs, False)
            r.case([], dirs, True)
    return r.n, r.steps, r.bad


def script_runs(chk):
    """The same through the command line, from several working directories."""
    db = [entry(f, v) for f in FILES for v in (1, 0)]
    p = os.path.join(chk.dir, "compile_commands.json")
    with open(p, "w") as f:
        json.dump(db, f)
    before = file_hash(p)
    cases = [(cwd, dirs, names, order) for cwd in (ROOT, chk.dir, "/") for dirs in
             ((), ("s",), ("x", "s/d")) for names in (False, True) for order in (0, 1)]

    def one(c):
        cwd, dirs, names, order = c
        argv = [p] if order == 0 else []
        if dirs:
            argv += ["--exclude_dirs"] + list(dirs)
        if names:
            argv.append("--names-only")
        if order == 1:
            argv += ([] if names or not dirs else ["--"]) + [p]
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
        r = run([sys.executable, SCRIPT] + argv, cwd=cwd, env=env)
        want = reference(db, dirs)
        if r.returncode:
            return c, "exits with %d: %s" % (r.returncode, r.stderr[-200:])
        if names:
            exp = " ".join(rel(e["file"]) for e in want)
            return c, None if r.stdout.strip() == exp else "prints %r, should be %r" % (
                r.stdout, exp)
        try:
            ok = json.loads(r.stdout) == want
        except ValueError:
            ok = False
        return c, None if ok else "outputs %r" % r.stdout[:300]
    for c, err in pmap(one, cases):
        chk.add("traces_validated_against_impl", 1)
        if err:
            chk.violation("in %s, --exclude_dirs %s, names only %s: %s" % (c[0], c[1], c[2], err),
                          {"cwd": c[0], "exclude_dirs": c[1], "names_only": c[2]})
    if file_hash(p) != before:
        chk.violation("the input file was modified", None)


def c19(chk):
    if not os.path.exists(SCRIPT):
        raise CheckError("no %s" % SCRIPT)
    sys.dont_write_bytecode = True
    jobs = [("empty", None, chk.dir)] + [("odd", d, chk.dir) for d in [""] + DIRFORMS + DIRS]
    plans = [(1, 7, 2, 3), (2, 7, 2, 3), (3, 6, 2, 2), (4, 4, 1, 2)]
    if chk.thorough:
        plans = [(1, 7, 3, 3), (2, 7, 3, 3), (3, 7, 2, 3), (4, 6, 2, 2)]
    for length, nfiles, ndirs, nvar in plans:
        for first in range(nfiles * nvar):
            jobs.append(("main", (first, length, nfiles, ndirs, nvar), chk.dir))
    jobs.reverse()
    with multiprocessing.get_context("fork").Pool(NPROC) as pool:
        for n, steps, bad in pool.imap_unordered(job, jobs):
            chk.add("states", n)
            chk.add("transitions", steps)
            chk.add("traces_validated_against_impl", n)
            for text, rep in bad:
                chk.violation(text, rep)
    script_runs(chk)
    chk.sample({"script": "reduce_compile_commands.py", "files": FILES, "dirs": DIRS})
    chk.assumptions += ["compilation databases have absolute, normalised file paths",
                        "databases of up to four entries over the listed files stand for all"]
