"""C16: the compiler's constant evaluator explores the handles."""
import re

from common import *

LIMITS = {
    CLANG: ["-fconstexpr-steps=4294967295", "-fconstexpr-depth=2048"],
    GCC: ["-fconstexpr-ops-limit=4000000000000", "-fconstexpr-loop-limit=100000000",
          "-fconstexpr-cache-depth=1"],
}
SAN = ["-O1", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
# messages that say the compiler gave up, not that the code is wrong
GAVE_UP = re.compile(r"maximum step limit|exceeds limit|exceeds maximum depth|Killed|"
                     r"internal compiler error|virtual memory exhausted|out of memory|"
                     r"PLEASE submit|cannot allocate", re.I)


class Config:
    def __init__(self, fam, cfg, depth):
        self.fam, self.cfg, self.depth = fam, cfg, depth
        self.defs = ["-DMC_CFG=%d" % cfg, "-DMC_DEPTH=%d" % depth]
        self.header = "indirect.h"
        if fam == "poly":
            self.defs.append("-DH_POLY")
            self.header = "polymorphic.h"
        self.name = "%s-%d-depth%d" % (fam, cfg, depth)


def ndebug(conf, cc):
    """With gcc, half of the configurations go without assertions."""
    return ["-DNDEBUG"] if cc == GCC and conf.cfg % 4 in (0, 3) else []


def c16(chk):
    confs = []
    if chk.thorough:
        stds = (20, 23)
        for c in range(10):
            confs.append(Config("indirect", c, 2))
        for c in (0, 2, 4, 5, 6, 7, 8, 9):
            confs.append(Config("poly", c, 1))
        confs += [Config("poly", 0, 2), Config("poly", 6, 2)]
        limit = 6000
    else:
        stds = (20,)
        for c in range(10):
            confs.append(Config("indirect", c, 1))
        for c in (0, 2, 4, 5, 6, 7, 8, 9):
            confs.append(Config("poly", c, 1))
        confs += [Config("indirect", 0, 2), Config("indirect", 1, 2)]
        limit = 5000

    # at run time first
    units = []
    for c in confs:
        for std in stds:
            for cc, fl in ((CLANG, SAN), (GCC, ["-O2"] + ndebug(c, GCC))):
                u = Unit("h_constexpr.cc", ["-std=c++%d" % std, "-DMC_RUNTIME"] + fl + c.defs,
                         cc, c.header)
                u.conf, u.std, u.fl = c, std, fl
                units.append(u)
    good = compile_units(chk, units, "C16")

    def start(u):
        exe = link(chk, "rt-%s-%d-%s" % (u.conf.name, u.std, os.path.basename(u.cc)), u.cc,
                   [f for f in u.fl if f.startswith("-fsan")], [u.obj])
        r = run([exe, "cases"])
        if r.returncode:
            raise CheckError("%s cases: %s" % (exe, r.stderr[-300:]))
        u.cases, u.states = [int(x) for x in r.stdout.split()]
        return u, exe

    jobs = []
    for u, exe in pmap(start, good):
        if u.cc == CLANG:
            chk.add("states", u.states)
        for f in range(0, u.cases, limit):
            jobs.append((u, exe, f, min(u.cases, f + limit)))

    def where(exe, case):
        r = run([exe, "describe", str(case)])
        return r.stdout.strip() or "case %s" % case

    def compile_(u, f, t, out):
        cmd = ([u.cc, "-std=c++%d" % u.std, "-O0", "-g0"] + LIMITS[u.cc] + u.conf.defs +
               ndebug(u.conf, u.cc) +
               ["-DMC_FROM=%d" % f, "-DMC_TO=%d" % t, "-I" + REPO, "-I" + MC,
                os.path.join(MC, "h_constexpr.cc"), "-o", out])
        r = run(cmd, timeout=800)
        if r.returncode and GAVE_UP.search(r.stderr):
            r = run(cmd, timeout=800)
            if r.returncode and GAVE_UP.search(r.stderr):
                raise CheckError("%s gave up: %s" % (" ".join(cmd), first_error(r.stderr)))
        if r.returncode == -99:
            raise CheckError("%s: timeout" % " ".join(cmd))
        return cmd, r

    located = []

    def one(j):
        u, exe, f, t = j
        r0 = run([exe, str(f), str(t)])
        tag = "%s, %s, c++%d" % (u.conf.name, os.path.basename(u.cc), u.std)
        if r0.returncode:
            chk.violation("[%s] cases %d to %d at run time: status %d: %s" %
                          (tag, f, t, r0.returncode, r0.stderr.strip()[:300]),
                          {"config": tag, "from": f, "to": t})
            return
        got = r0.stdout.split(None, 4)
        if got[0] != "-1":
            chk.violation("[%s] %s: wrong %s at run time" %
                          (tag, where(exe, got[0]), got[4].strip()),
                          {"config": tag, "case": got[0]})
            return
        chk.add("transitions", int(got[3]))
        out = os.path.join(chk.dir, "ct-%s-%d-%s-%d" %
                           (u.conf.name, u.std, os.path.basename(u.cc), f))
        cmd, r = compile_(u, f, t, out)
        if r.returncode:
            with chk.lock:
                n = len(located)
                located.append(j)
            what = "cases %d to %d" % (f, t)
            if n < 3:  # find the case
                a, b = f, t
                last = r
                while b - a > 1:
                    m = (a + b) // 2
                    c2, r2 = compile_(u, a, m, out)
                    if r2.returncode:
                        b, cmd, last = m, c2, r2
                    else:
                        a = m
                cmd, last = compile_(u, a, b, out)
                what = where(exe, a)
                r = last
            notes = [l.strip() for l in r.stderr.splitlines()
                     if (" note: " in l or "error:" in l) and "must be initialized" not in l]
            chk.violation("[%s] %s: not a constant expression: %s" %
                          (tag, what, (notes or [first_error(r.stderr)])[0][:300]),
                          {"compile": " ".join(cmd)})
            return
        r1 = run([out])
        os.unlink(out)
        if r1.returncode or not r1.stdout:
            raise CheckError("%s: %s" % (out, r1.stderr[-300:]))
        now = r1.stdout.split(None, 4)
        chk.add("traces_validated_against_impl", 2 * int(now[3]))
        if now[0] != "-1":
            chk.violation("[%s] %s: wrong %s in constant evaluation" %
                          (tag, where(exe, now[0]), now[4].strip()),
                          {"compile": " ".join(cmd), "case": now[0]})
        elif now[:4] != got[:4]:
            chk.violation("[%s] cases %d to %d: constant evaluation gives %s, run time %s" %
                          (tag, f, t, now[:4], got[:4]), {"compile": " ".join(cmd)})

    jobs.sort(key=lambda j: (j[2] - j[3], j[2]))
    pmap(one, jobs)
    for u, exe, f, t in jobs[:: max(1, len(jobs) // 6)]:
        chk.sample({"config": u.conf.name, "compiler": os.path.basename(u.cc), "std": u.std,
                    "cases": [f, t], "first": where(exe, f)})
    chk.assumptions += [
        "two handles; values, types and allocators of mc/h_constexpr.cc",
        "the constant evaluators of gcc 13 and clang 18, which reject undefined behaviour, use "
        "of dead objects and storage not released",
    ]
