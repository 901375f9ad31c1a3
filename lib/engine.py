"""Runs the handle explorer (mc/engine.cc) and reads its report."""
import os
import subprocess

from common import *

SAN = ["-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
GROUPS = [1, 2, 3, 4, 5, 6, 7, 8]


class Variant:
    """One way to build the explorer: header, language standard, compiler."""

    def __init__(self, fam, dialect, std, cc=None, opt=None, tag=None, groups=GROUPS):
        self.fam, self.dialect, self.std, self.groups = fam, dialect, std, groups
        self.cc = cc or CLANG
        self.opt = opt if opt is not None else ["-O0"] + SAN
        self.name = "%s%d-c++%d-%s" % (fam, dialect, std, tag or "san")
        self.header = {"indirect": {20: "indirect.h", 14: "indirect_cxx14.h"},
                       "poly": {20: "polymorphic.h", 14: "polymorphic_cxx14.h"}}[fam][dialect]

    def units(self):
        fl = ["-std=c++%d" % self.std] + self.opt
        if self.dialect == 20:
            fl = fl + ["-DMC_CXX20"]
        return [Unit("h_%s.cc" % self.fam, fl + ["-DMC_GROUP=%d" % g], self.cc, self.header)
                for g in self.groups]

    def core(self):
        o = [x for x in self.opt if not x.startswith("-O")]
        return [Unit(s, ["-std=c++20", "-O2"] + o, self.cc) for s in ("engine.cc", "world.cc")]


def default_variants(fams=("indirect", "poly")):
    r = []
    for f in fams:
        r += [Variant(f, 20, 20), Variant(f, 14, 14)]
        # without assertions, for part of the configurations
        r += [Variant(f, d, s, opt=["-O0", "-g0", "-DNDEBUG"], tag="ndebug",
                      groups=[1 if f == "indirect" else 2, 7])
              for d, s in ((20, 20), (14, 14))]
    return r


def more_variants(fams=("indirect", "poly")):
    """Further builds, for the thorough tier."""
    r = []
    for f in fams:
        r += [Variant(f, 20, 20, GCC, ["-O1"] + SAN, "gcc"),
              Variant(f, 14, 14, GCC, ["-O1"] + SAN, "gcc"),
              Variant(f, 20, 23, CLANG, ["-O2", "-DNDEBUG"], "rel"),
              Variant(f, 14, 17, CLANG, ["-O2", "-DNDEBUG"], "rel")]
    return r


def build(chk, variants):
    """-> {variant: executable}"""
    alls = []
    per = {}
    core = {}
    for v in variants:
        per[v] = v.units()
        core[v] = v.core()
        alls += per[v] + core[v]
    uniq = {}
    for u in alls:
        uniq.setdefault(u.key(), []).append(u)
    firsts = [us[0] for us in uniq.values()]
    # longest first
    firsts.sort(key=lambda u: ("poly" not in u.src, "h_" not in u.src))
    compile_units(chk, firsts, chk.id)
    for us in uniq.values():
        for u in us[1:]:
            u.ok = us[0].ok
            u.obj = us[0].obj
            u.err = us[0].err

    def do(v):
        objs = [u.obj for u in per[v] if u.ok] + [u.obj for u in core[v]]
        if len(objs) == len(core[v]):
            return v, None
        fl = [f for f in v.opt if f.startswith("-fsan")]
        return v, link(chk, v.name, v.cc, fl, objs)

    return {v: e for v, e in pmap(do, variants) if e}


def list_cfgs(exe):
    r = run([exe, "--list"])
    if r.returncode != 0:
        raise CheckError("%s --list: %s" % (exe, r.stderr[-300:]))
    return r.stdout.splitlines()


def weight(cfg):
    """Rough cost, to start the expensive ones first."""
    w = 1
    if "polymorphic" in cfg:
        w *= 4
    if "std" in cfg or "EMPTY" in cfg:
        w /= 10
    if "_AE" in cfg:
        w /= 3
    return w


def explore(chk, exes, opts, mask, cfg_filter=None, timeout=1200, dump=None):
    """Runs every configuration of every executable; files what concerns the
    properties in mask (a bit set)."""
    jobs = []
    for v, exe in exes.items():
        for c in list_cfgs(exe):
            if cfg_filter is None or cfg_filter(v, c):
                jobs.append((v, exe, c))
    jobs.sort(key=lambda j: -weight(j[2]))

    def one(job):
        v, exe, c = job
        cmd = [exe, "--cfg", c] + (opts(v, c) if callable(opts) else opts)
        if dump:
            cmd += ["--dump", dump(v, c)]
        r = run(cmd, timeout=timeout)
        return v, exe, c, r

    ops = {}
    for v, exe, c, r in pmap(one, jobs):
        if r.returncode not in (0, 1):
            raise CheckError("%s --cfg '%s': status %s: %s %s" %
                             (v.name, c, r.returncode, r.stdout[-400:], r.stderr[-400:]))
        for line in r.stdout.splitlines():
            f = line.split("\t")
            if f[0] == "S":
                chk.add("states", int(f[2]))
                chk.add("nodes", int(f[3]))
                chk.add("transitions", int(f[4]))
                chk.add("traces_validated_against_impl", int(f[5]))
                chk.add("fault_executions", int(f[6]))
                chk.add("states_alike_but_for_their_memory", int(f[8]))
                chk.add("configurations", 1)
            elif f[0] == "O":
                ops[f[2]] = ops.get(f[2], 0) + int(f[3])
            elif f[0] in "VN" and int(f[1]) & mask:
                spec = "|".join([f[2], f[3], f[4], f[5], f[6]])
                rep = {"build": v.name, "configuration": f[2], "history": f[3],
                       "operation": f[4], "fault": f[5], "spec": spec,
                       "run": "python3 check.py %s --replay-spec '%s' '%s'" %
                       (chk.id, v.name, spec)}
                text = "[%s] %s: after (%s), %s%s: %s" % (
                    v.name, f[2], f[3], f[4],
                    " with event %s throwing" % f[5] if f[5] != "0" else "", f[7])
                if f[0] == "N":
                    chk.finding(f[7], text, rep)
                else:
                    chk.violation(text, rep)
    chk.coverage["operations"] = {
        k: chk.coverage.get("operations", {}).get(k, 0) + n for k, n in ops.items()}
    for v, exe, c in jobs[:: max(1, len(jobs) // 6)]:
        chk.sample({"build": v.name, "configuration": c})
    return jobs
