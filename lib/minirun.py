"""Runs the small exhaustive harnesses (mc/mini.hpp)."""
from common import *

SAN = ["-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]


class Build:
    def __init__(self, src, std, header, cc=None, opt=None, defs=(), extra=(), tag=""):
        self.src, self.std, self.header = src, std, header
        self.cc = cc or CLANG
        self.opt = opt if opt is not None else ["-O0"] + SAN
        self.defs = list(defs)
        self.extra = list(extra)  # further sources
        self.tag = tag
        self.name = "%s-c++%d-%s%s" % (src.split(".")[0], std,
                                       os.path.basename(self.cc).replace("+", ""), tag)


def builds20(src, header, **kw):
    return [Build(src, 20, header, defs=["-DMC_CXX20"], **kw)]


def builds14(src, header, **kw):
    return [Build(src, 14, header, **kw)]


def mini(chk, builds, timeout=700):
    units = {}
    allu = []
    for b in builds:
        fl = ["-std=c++%d" % b.std] + b.opt + b.defs
        us = [Unit(b.src, fl, b.cc, b.header)]
        o = [x for x in b.opt if not x.startswith("-O")]
        for s in ["mini.cc"] + b.extra:
            us.append(Unit(s, ["-std=c++20", "-O1"] + o, b.cc))
        units[b] = us
        allu += us
    uniq = {}
    for u in allu:
        uniq.setdefault(u.key(), []).append(u)
    firsts = [us[0] for us in uniq.values()]
    compile_units(chk, firsts, chk.id)
    for us in uniq.values():
        for u in us[1:]:
            u.ok, u.obj, u.err = us[0].ok, us[0].obj, us[0].err
    jobs = []
    for b in builds:
        if not all(u.ok for u in units[b]):
            continue
        exe = link(chk, b.name, b.cc, [f for f in b.opt if f.startswith("-fsan")],
                   [u.obj for u in units[b]])
        r = run([exe, "--list"])
        if r.returncode:
            raise CheckError("%s --list: %s" % (exe, r.stderr[-300:]))
        jobs += [(b, exe, p) for p in r.stdout.split("\n") if p]

    def one(j):
        b, exe, p = j
        return b, exe, p, run([exe, "--part", p], timeout=timeout)

    for b, exe, p, r in pmap(one, jobs):
        if r.returncode not in (0, 1):
            raise CheckError("%s --part '%s': status %s: %s %s" %
                             (b.name, p, r.returncode, r.stdout[-400:], r.stderr[-400:]))
        for line in r.stdout.splitlines():
            f = line.split("\t")
            if f[0] == "S":
                chk.add("states", int(f[2]))
                chk.add("transitions", int(f[3]))
                chk.add("traces_validated_against_impl", int(f[4]))
                chk.add("harness_parts", 1)
            elif f[0] == "V":
                chk.violation("[%s] %s: %s" % (b.name, f[1], f[2]),
                              {"build": b.name, "part": f[1], "case": f[2],
                               "compile": " ".join([os.path.basename(b.cc),
                                                    "-std=c++%d" % b.std] + b.opt + b.defs +
                                                   ["-I" + REPO, "-I" + MC, b.src, "mini.cc"]
                                                   + b.extra)})
    for b, exe, p in jobs[:: max(1, len(jobs) // 6)]:
        chk.sample({"harness": b.name, "part": p})
