"""Which exploration decides which property."""
import os
import shutil

import c16 as c16_
import c17 as c17_
import c19 as c19_
import c22 as c22_
import c23 as c23_
import c24 as c24_
import engine
import minirun
from common import *
from minirun import Build, mini


def P(*ns):
    m = 0
    for n in ns:
        m |= 1 << n
    return m


ENGINE_ASSUME = [
    "two handles (three in part of the thorough tier) and the value alphabet {0,1,2,3,7}"
    " stand for all histories",
    "value types and allocators are those of mc/types.hpp",
]


def handles(chk, n, fams=("indirect", "poly"), faults=True):
    """Every operation from every reachable state of two handles."""
    vs = engine.default_variants(fams)
    if chk.thorough:
        vs += engine.more_variants(fams)
    exes = engine.build(chk, vs)
    base = ["--slots", "2", "--hist", "0"] + ([] if faults else ["--nofaults"])
    if not chk.thorough:
        def opts(v, c):
            return base
        engine.explore(chk, exes, opts, P(n))
    else:
        def opts(v, c):
            small = v.name.endswith("-san")
            return ["--slots", "2", "--hist", "1" if small else "0", "--thorough"]
        engine.explore(chk, exes, opts, P(n), timeout=800)
        small = {v: e for v, e in exes.items() if v.name.endswith("-san")}

        def three(v, c):
            if v.fam == "indirect":
                return "TFull" in c or "TMoveOnly" in c
            return "std" in c or "EMPTY" in c
        engine.explore(chk, small, ["--slots", "3", "--hist", "0"], P(n), three, timeout=800)
    chk.assumptions += ENGINE_ASSUME


def both(src, fams, extra=(), defs=()):
    """Builds of a small harness for each header of the families."""
    r = []
    for f in fams:
        d = list(defs) + (["-DH_POLY"] if f == "poly" else [])
        hs = {"indirect": ("indirect.h", "indirect_cxx14.h"),
              "poly": ("polymorphic.h", "polymorphic_cxx14.h")}[f]
        tag = "-" + f
        r += [Build(src, 20, hs[0], defs=d + ["-DMC_CXX20"], extra=list(extra), tag=tag),
              Build(src, 14, hs[1], defs=d, extra=list(extra), tag=tag)]
    return r


def more_stds(src, fams, thorough, extra=(), defs=()):
    """The same with further standards and compilers."""
    r = both(src, fams, extra, defs)
    for b in list(r):
        c20 = "-DMC_CXX20" in b.defs
        stds = ([20, 23] if c20 else [17, 20, 23]) if thorough else ([] if c20 else [17])
        for s in stds:
            if s != b.std:
                r.append(Build(src, s, b.header, defs=b.defs, extra=b.extra, tag=b.tag))
        if not thorough:  # without assertions
            r.append(Build(src, b.std, b.header, opt=["-O0", "-g0"], defs=b.defs + ["-DNDEBUG"],
                           extra=b.extra, tag=b.tag + "-ndebug"))
        if thorough:
            for s in ([20, 23] if c20 else [14, 17, 20, 23]):
                r.append(Build(src, s, b.header, GCC, ["-O2"], b.defs + ["-DNDEBUG"] * (s == b.std),
                               b.extra, b.tag))
    return r


FAMS = ("indirect", "poly")


def copies(chk, n):
    mini(chk, more_stds("h_copies.cc", FAMS, chk.thorough, ["world.cc"]))
    handles(chk, n)


def c09(chk):
    t = chk.thorough
    mini(chk, more_stds("h_nest.cc", ("indirect",), t, ["world.cc"],
                        ["-DMC_LEN=%d" % (5 if t else 4)]) +
         more_stds("h_nest.cc", ("poly",), t, ["world.cc"], ["-DMC_LEN=%d" % (4 if t else 3)]))
    handles(chk, 9)


def c11(chk):
    mini(chk, more_stds("h_compare.cc", ("indirect",), chk.thorough))
    handles(chk, 11, ("indirect",), faults=False)


def c12(chk):
    d = ["-DMC_DEPTH=4"] if chk.thorough else []
    mini(chk, more_stds("h_hash.cc", ("indirect",), chk.thorough, defs=d))
    handles(chk, 12, ("indirect",), faults=False)


def c13(chk):
    d = ["-DMC_DEPTH=5"] if chk.thorough else []
    mini(chk, more_stds("h_access.cc", FAMS, chk.thorough, ["world.cc"], d))
    handles(chk, 13, faults=False)


def c14(chk):
    mini(chk, more_stds("h_args.cc", FAMS, chk.thorough, ["world.cc"]))
    handles(chk, 14, faults=False)


def c15(chk):
    """The same exploration with every header and standard; the logs must agree."""
    fl = ["-O0", "-g0"]
    vs = []
    for f in FAMS:
        vs += [engine.Variant(f, 20, 20, opt=fl, tag="plain"),
               engine.Variant(f, 14, 14, opt=fl, tag="plain"),
               engine.Variant(f, 14, 20, opt=fl + ["-DNDEBUG"], tag="ndebug"),
               engine.Variant(f, 20, 23, opt=fl + ["-DNDEBUG"], tag="ndebug")]
        if chk.thorough:
            vs += [engine.Variant(f, 14, 17, opt=["-O2", "-g0", "-DNDEBUG"], tag="O2"),
                   engine.Variant(f, 14, 23, opt=fl, tag="plain"),
                   engine.Variant(f, 20, 20, GCC, ["-O2", "-g0"], "gcc"),
                   engine.Variant(f, 14, 14, GCC, ["-O2", "-g0"], "gcc"),
                   engine.Variant(f, 14, 20, GCC, ["-O2", "-g0"], "gcc")]
    exes = engine.build(chk, vs)
    d = os.path.join(chk.dir, "dump")
    os.makedirs(d)

    def fname(v, c):
        return os.path.join(d, "%s..%s" % (v.name, c.replace("/", "~")))
    jobs = engine.explore(chk, exes, ["--slots", "2", "--hist", "0"], 0, dump=fname)
    groups = {}
    for v, exe, c in jobs:
        fam, rest = c.split("/", 1)
        fam = fam.rstrip("0123456789")
        groups.setdefault((fam, rest), []).append((v, fname(v, c)))

    def read(p):
        lines = {}
        try:
            with open(p) as f:
                for line in f:
                    k, _, o = line.rstrip("\n").partition(" -> ")
                    lines.setdefault(k, o)
        except OSError:
            pass
        return lines

    def compare(item):
        (fam, rest), members = item
        if len(members) < 2:
            return
        hs = {}
        for v, p in members:
            hs.setdefault(file_hash(p) if os.path.exists(p) else "none", []).append((v, p))
        chk.add("compared_logs", len(members))
        if len(hs) == 1:
            with open(members[0][1], "rb") as f:
                chk.add("compared_steps", sum(b.count(b"\n") for b in
                                              iter(lambda: f.read(1 << 20), b"")) *
                        (len(members) - 1))
            return
        reps = [m[0] for m in hs.values()]
        base = read(reps[0][1])
        bops = {k.split(" ")[1].split(":")[0] for k in base}
        for v, p in reps[1:]:
            other = read(p)
            oops = {k.split(" ")[1].split(":")[0] for k in other}
            chk.add("compared_steps", len(base))
            n = 0
            for k in list(base) + [x for x in other if x not in base]:
                a, b = base.get(k), other.get(k)
                if a == b:
                    continue
                op = k.split(" ")[1].split(":")[0]
                if op not in bops or op not in oops:
                    continue  # an operation only one of them has
                if n < 3:
                    chk.violation(
                        "%s/%s: %s: with %s: %s; with %s: %s" %
                        (fam, rest, k, reps[0][0].name, a, v.name, b),
                        {"step": k, reps[0][0].name: a, v.name: b})
                n += 1
    pmap(compare, sorted(groups.items()))
    shutil.rmtree(d, ignore_errors=True)
    chk.assumptions += ENGINE_ASSUME


def c18(chk):
    d = ["-DMC_EXTRA=1"] if chk.thorough else []
    mini(chk, more_stds("h_composite.cc", FAMS, chk.thorough, defs=d), timeout=850)
    chk.assumptions += [
        "the worlds of mc/h_composite.cc (containers of up to four handles, aggregates, trees of"
        " up to seven nodes) stand for all composites",
        "the standard library's containers and algorithms are correct"]


def c20(chk):
    # (these headers include nothing by themselves)
    hdr = ["memory", "utility", "tagged_allocator.h", "tracking_allocator.h"]
    hs = [Build("h_allocators.cc", 20, hdr,
                defs=["-DMC_CXX20"] + (["-DMC_DEPTH=5"] if chk.thorough else [])),
          Build("h_allocators.cc", 14, hdr)]
    if chk.thorough:
        for s in (17, 23):
            hs.append(Build("h_allocators.cc", s, hdr, defs=["-DMC_CXX20"] * (s > 17)))
            hs.append(Build("h_allocators.cc", s, hdr, GCC, ["-O2"],
                            ["-DMC_CXX20"] * (s > 17)))
        hs.append(Build("h_allocators.cc", 14, hdr, GCC, ["-O2"]))
    mini(chk, hs)


def c21(chk):
    d = ["-DMC_DEPTH=6" if chk.thorough else "-DMC_DEPTH=5"]
    hs = [Build("h_wrapper.cc", 20, "exploration/wrapper.h", opt=["-O1"] + minirun.SAN, defs=d)]
    inc = "exploration/incomplete_types.cc"
    hs += [Build("h_incomplete.cc", 20, inc, cc, ["-O1"] + minirun.SAN, d) for cc in (CLANG, GCC)]
    if chk.thorough:
        hs += [Build("h_wrapper.cc", 23, "exploration/wrapper.h", GCC, ["-O2"], d),
               Build("h_wrapper.cc", 20, "exploration/wrapper.h", GCC, ["-O2"], d)]
    mini(chk, hs)


CHECKS = {
    "C01": lambda c: copies(c, 1),
    "C02": lambda c: handles(c, 2),
    "C03": lambda c: copies(c, 3),
    "C04": lambda c: handles(c, 4),
    "C05": lambda c: handles(c, 5, faults=False),
    "C06": lambda c: handles(c, 6),
    "C07": lambda c: handles(c, 7),
    "C08": lambda c: handles(c, 8),
    "C09": c09,
    "C10": lambda c: handles(c, 10, ("poly",)),
    "C11": c11,
    "C12": c12,
    "C13": c13,
    "C14": c14,
    "C15": c15,
    "C16": lambda c: c16_.c16(c),
    "C17": lambda c: c17_.c17(c),
    "C18": c18,
    "C19": lambda c: c19_.c19(c),
    "C20": c20,
    "C21": c21,
    "C22": lambda c: c22_.c22(c),
    "C23": lambda c: c23_.c23(c),
    "C24": lambda c: c24_.c24(c),
}


def replay(pid, build, spec):
    chk = Check(pid)
    try:
        for v in engine.default_variants() + engine.more_variants():
            if v.name == build:
                exe = engine.build(chk, [v])[v]
                r = run([exe, "--replay", spec])
                print(r.stdout, r.stderr)
                return r.returncode
        print("no such build: %s" % build)
        return 2
    finally:
        chk.cleanup()
