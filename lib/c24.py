"""C24: the shell scripts under scripts/, run in a scratch folder with stand-ins for the
tools they call, along every sequence of outcomes of those calls; ignore_edits_to.sh with
the real git, along every short history of calls."""
import itertools
import os
import re
import shutil

from common import *

SCRIPTS = os.path.join(REPO, "scripts")
TOOLS = ["env", "bash", "sh", "cat", "tail", "head", "printf", "echo", "grep", "sed", "mkdir",
         "dirname", "basename", "tr", "sort", "uniq", "test", "true", "false", "pwd", "touch",
         "wc", "cut", "awk", "ls", "readlink", "realpath", "git", "expr"]
STANDIN = r"""#!/bin/bash
n=0
[ -e "$VT_LOG.n" ] && read -r n < "$VT_LOG.n"
n=$((n + 1))
echo $n > "$VT_LOG.n"
printf '%s\037' "${VIRTUAL_ENV-}" "${0##*/}" "$@" >> "$VT_LOG"
printf '\036' >> "$VT_LOG"
s=$(echo $VT_PLAN | cut -d' ' -f$n)
s=${s:-0}
if [ "$s" = 0 ] && [ "${0##*/} $1 $2" = "python3 -m venv" ]; then
  mkdir -p "$3/bin"
  printf 'VIRTUAL_ENV=%s\nexport VIRTUAL_ENV\n' "'$PWD/$3'" > "$3/bin/activate"
fi
exit $s
"""


class Box:
    """A scratch folder with a PATH of its own."""

    def __init__(self, d):
        self.d = d
        self.bin = os.path.join(d, "bin")
        self.cwd = os.path.join(d, "the project")
        os.makedirs(self.bin)
        os.makedirs(self.cwd)
        for t in TOOLS:
            p = shutil.which(t)
            if p:
                os.symlink(os.path.realpath(p) if t != "sh" else p, os.path.join(self.bin, t))

    def stand_ins(self, names):
        for n in names:
            p = os.path.join(self.bin, n)
            with open(p, "w") as f:
                f.write(STANDIN)
            os.chmod(p, 0o755)

    def run(self, script, args, plan=(), env=()):
        with open(os.path.join(SCRIPTS, script), "rb") as f:
            first = f.readline().decode("utf-8", "replace")
        m = re.match(r"#!\s*(\S+)\s*(.*?)\s*$", first)
        if not m:
            return None, [], "names no interpreter"
        cmd = [m.group(1)] + ([m.group(2)] if m.group(2) else [])
        log = os.path.join(self.d, "log")
        for p in (log, log + ".n"):
            if os.path.exists(p):
                os.unlink(p)
        e = {"PATH": self.bin, "HOME": self.d, "VT_LOG": log, "LC_ALL": "C.UTF-8",
             "VT_PLAN": " ".join(str(s) for s in plan), "GIT_CONFIG_NOSYSTEM": "1"}
        e.update(env)
        r = subprocess.run(cmd + [os.path.join(SCRIPTS, script)] + list(args), cwd=self.cwd,
                           env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=60)
        calls = []
        if os.path.exists(log):
            with open(log, encoding="utf-8") as f:
                for rec in f.read().split("\036")[:-1]:
                    w = rec.split("\037")[:-1]
                    calls.append((w[0], w[1:]))
        return r.returncode, calls, r.stderr.decode("utf-8", "replace")


def flat(call):
    """--a=b is --a b"""
    out = []
    for w in call:
        m = re.match(r"(--[\w-]+)=(.*)$", w, re.S)
        out += [m.group(1), m.group(2)] if m else [w]
    return out


def outcomes(box, script, args, env, statuses, judge):
    """Every sequence of outcomes; judge(plan, rc, calls, err) -> complaint."""
    stack = [()]
    n = 0
    while stack:
        plan = stack.pop()
        if os.path.isdir(os.path.join(box.cwd, ".venv")):
            shutil.rmtree(os.path.join(box.cwd, ".venv"))
        rc, calls, err = box.run(script, args, plan, env)
        n += 1
        bad = judge(plan, rc, calls, err)
        if bad:
            yield n, plan, calls, "%s (exit status %s, calls %s)%s" % (
                bad, rc, [c for _, c in calls],
                ": " + err.strip().splitlines()[-1] if err.strip() and not calls else "")
            continue
        yield n, plan, calls, None
        if all(s == 0 for s in plan):
            for k in range(len(plan), len(calls)):
                if k >= 12:
                    break
                for s in statuses:
                    stack.append(plan + (0,) * (k - len(plan)) + (s,))


def sequence(want):
    def judge(plan, rc, calls, err):
        got = [flat(c) for _, c in calls]
        stop = next((i for i, s in enumerate(plan) if s), None)
        expect = [flat(c) for c in (want if stop is None else want[:stop + 1])]
        if got != expect:
            return "should call %s" % expect
        if (rc == 0) != (stop is None):
            return "should report %s" % ("success" if stop is None else "failure")
        return None
    return judge


def hooks(plan, rc, calls, err):
    stop = next((i for i, s in enumerate(plan) if s), None)
    cs = [c for _, c in calls]
    if stop is not None:
        if len(cs) != stop + 1:
            return "should stop at the call that failed"
        return None if rc else "should report failure"
    if rc:
        return "should report success"
    if not cs or cs[0][0] != "python3" or cs[0][1:3] != ["-m", "venv"]:
        return "should make a virtual environment first"
    venv = cs[0][-1]
    if any(not v.endswith("/" + venv) for v, _ in calls[1:]):
        return "should work in the virtual environment"
    req = [i for i, c in enumerate(cs) if "install" in c and any(
        a == "-r" and b == "requirements.txt" for a, b in zip(flat(c), flat(c)[1:]))]
    if not req:
        return "should install the requirements"
    pc = [i for i, c in enumerate(cs) if "pre-commit" in c]
    if not pc or pc[0] < req[0]:
        return "should install the hooks after the requirements"
    if not any("install" in cs[i] for i in pc):
        return "should install the hooks"
    if not any("install-hooks" in cs[i] or "--install-hooks" in cs[i] for i in pc):
        return "should install the hooks' environments"
    return None


def pdf(plan, rc, calls, err):
    if len(calls) != 1 or calls[0][1][0] != "pandoc":
        return "should call pandoc once"
    c = calls[0][1]
    if "DRAFT.md" not in c or not any(
            flat(c)[i] in ("-o", "--output") and flat(c)[i + 1] == "DRAFT.pdf"
            for i in range(len(flat(c)) - 1)):
        return "should make DRAFT.pdf of DRAFT.md"
    if (rc == 0) != (not any(plan)):
        return "should report %s" % ("failure" if any(plan) else "success")
    return None


def c24(chk):
    box = Box(os.path.join(chk.dir, "a"))
    box.stand_ins(["cmake", "ctest", "bazel", "python3", "python", "pip", "pip3", "pre-commit",
                   "pandoc"])
    statuses = (1, 2, 77, 126, 127, 130, 255) if chk.thorough else (1, 2, 255)
    presets = [((), "Release"), (("",), "Release"), (("Debug",), "Debug"),
               (("Release",), "Release"), (("ninja",), "ninja"), (("a b",), "a b"),
               (("*",), "*"), (("$HOME",), "$HOME"), (("\u00e4'\"",), "\u00e4'\""),
               (("--x",), "--x")]
    envs = [{}, {"PRESET": "Debug"}]
    if chk.thorough:
        envs += [{"PRESET": ""}, {"CDPATH": "/"}, {"POSIXLY_CORRECT": "1"}]
    jobs = []
    for args, p in presets:
        for env in envs:
            jobs.append(("cmake.sh", args, env, sequence(
                [["cmake", "--preset", p], ["cmake", "--build", "--preset", p],
                 ["ctest", "--preset", p]])))
    for env in envs:
        jobs += [("bazel.sh", (), env, sequence([["bazel", "test", "//..."]])),
                 ("setup-git-hooks.sh", (), env, hooks), ("to_pdf.sh", (), env, pdf)]
    for script, args, env, judge in jobs:
        if not os.path.exists(os.path.join(SCRIPTS, script)):
            chk.violation("scripts/%s is missing" % script)
            continue
        for n, plan, calls, bad in outcomes(box, script, args, env, statuses, judge):
            chk.add("states", 1)
            chk.add("transitions", len(calls))
            chk.add("traces_validated_against_impl", 1)
            if bad:
                chk.violation("%s %s, outcomes %s%s: %s" %
                              (script, list(args), list(plan), " with %s" % env if env else "",
                               bad), {"script": script, "args": list(args),
                                      "outcomes": list(plan), "environment": env})
            elif n == 2:
                chk.sample({"script": script, "arguments": list(args), "outcomes": list(plan)})
    ignoring(chk)
    chk.assumptions += [
        "the tools the scripts call do what their manuals say; they are replaced by stand-ins "
        "that record their arguments (git is not)",
        "file names are without characters special to git's patterns"]


NAMES = ["a.txt", "d/b.txt", "with space.txt", "-n", ".vscode/settings.json", "a"]
EXCLUDES = [None, "", "# a comment\n*.o\n", "*.o\nkept.txt", "\n\n*.o\n\n"]


def ignoring(chk):
    script = "ignore_edits_to.sh"
    if not os.path.exists(os.path.join(SCRIPTS, script)):
        chk.violation("scripts/%s is missing" % script)
        return
    argss = [a for n in range(0, 3) for a in itertools.product(NAMES, repeat=n)]
    if chk.thorough:
        argss += list(itertools.permutations(NAMES, 3))
    short = [(), (NAMES[0],), (NAMES[2], NAMES[1])]
    hists = [(a,) for a in argss] + [(a, b) for a in (argss if chk.thorough else short)
                                     for b in short]

    def work(k):
        box = Box(os.path.join(chk.dir, "g%d" % k))
        for f in NAMES + ["kept.txt", "x.o", "other.txt"]:
            p = os.path.join(box.cwd, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").close()
        e = {"PATH": box.bin, "HOME": box.d, "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C.UTF-8"}

        def git(*a):
            r = subprocess.run(["git"] + list(a), cwd=box.cwd, env=e, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            if r.returncode:
                raise CheckError("git %s: %s" % (a, r.stderr.decode()))
            return r.stdout.decode()

        def untracked():
            return {x[3:] for x in git("status", "--porcelain", "-z", "-uall").split("\0") if x}
        git("init", "-q", "-b", "main")
        exclude = os.path.join(box.cwd, ".git", "info", "exclude")
        os.makedirs(os.path.dirname(exclude), exist_ok=True)
        for x, h in itertools.islice(itertools.product(EXCLUDES, hists), k, None, NPROC):
            if os.path.exists(exclude):
                os.unlink(exclude)
            if x is not None:
                with open(exclude, "w") as f:
                    f.write(x)
            want = set(untracked())
            what = "ignore_edits_to.sh, exclude file %r, calls %s" % (x, [list(a) for a in h])
            chk.add("states", 1)
            for a in h:
                rc, _, err = box.run(script, a)
                chk.add("transitions", 1)
                chk.add("traces_validated_against_impl", 1)
                # a pattern without a slash matches at any depth, and folders too
                want -= {f for f in want for n in a
                         if f == n or ("/" not in n and n in f.split("/"))}
                got = untracked()
                bad = None
                if rc:
                    bad = "exit status %s: %s" % (rc, err.strip()[-200:])
                elif got != want:
                    bad = "git still sees %s, should see %s" % (sorted(got), sorted(want))
                else:
                    text = ""
                    if os.path.exists(exclude):
                        with open(exclude) as f:
                            text = f.read()
                    if x and text.splitlines()[:len(x.splitlines())] != x.splitlines():
                        bad = "what was in the exclude file is lost: %r" % text
                if bad:
                    chk.violation("%s: %s" % (what, bad), {"exclude": x, "calls": h})
                    break
        # without a repository there is nothing to add to
        shutil.rmtree(os.path.join(box.cwd, ".git"))
        rc, _, err = box.run(script, ("a.txt",))
        chk.add("traces_validated_against_impl", 1)
        if rc == 0:
            chk.violation("ignore_edits_to.sh outside a repository reports success",
                          {"calls": ["a.txt"]})
    pmap(work, range(NPROC))
