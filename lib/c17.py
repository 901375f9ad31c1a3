"""C17: threads under a controlled scheduler (mc/threads.cc)."""
from common import *

WRAP = ["-Wl,-Bsymbolic,-z,now", "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,"
        "--wrap=aligned_alloc"]


def c17(chk):
    rt = Unit("threads.cc", ["-std=c++20", "-O2", "-g0"])
    units = []
    for fam, c20, h in (("indirect", 1, "indirect.h"), ("indirect", 0, "indirect_cxx14.h"),
                        ("poly", 1, "polymorphic.h"), ("poly", 0, "polymorphic_cxx14.h")):
        stds = [20] if c20 else [14]
        if chk.thorough:
            stds = [20, 23] if c20 else [14, 17]
        for std in stds:
            for opt in (["-O1"], ["-O0"])[:2 if chk.thorough and std in (14, 20) else 1]:
                fl = ["-std=c++%d" % std] + opt + ["-g0", "-fPIC", "-fsanitize=thread"]
                if c20:
                    fl.append("-DMC_CXX20")
                if fam == "poly":
                    fl.append("-DH_POLY")
                u = Unit("h_threads.cc", fl, CLANG, h)
                u.tag = "%s-%s-c++%d%s" % (fam, h.split(".")[0], std, opt[0])
                units.append(u)
    good = compile_units(chk, [rt] + units, "C17")
    if rt not in good:
        raise CheckError("threads.cc")
    sched = link(chk, "threads", CLANG, ["-rdynamic", "-pthread"], [rt.obj], ["-ldl"])
    jobs = []
    for u in good:
        if u is rt:
            continue
        so = os.path.join(chk.dir, u.tag + ".so")
        r = run([CLANG, "-shared"] + WRAP + [u.obj, "-o", so])
        if r.returncode:
            raise CheckError("link of %s failed: %s" % (so, first_error(r.stderr)))
        r = run([sched, "--program", so, "--list"])
        if r.returncode:
            raise CheckError("%s --list: %s" % (so, r.stderr[-300:]))
        for c in r.stdout.splitlines():
            def job(*opts):
                jobs.append((u, so, c, [str(o) for o in opts]))
            few = c in ("constructing, propagating on copy", "stateful, cold")
            first = u.tag.endswith(("c++20-O1", "c++14-O1"))
            if not chk.thorough:
                job("--bound", 2)
                if few:
                    job("--bound", 1, "--len", 2, 1)
            elif not first:
                job("--bound", 2)
            else:
                job("--bound", 3)
                job("--bound", 2, "--private")
                job("--bound", 1, "--len", 2, 1)
                job("--bound", 1, "--threads", 3)
                if c in ("std::allocator", "stateful, cold"):
                    job("--bound", 0, "--len", 2, 2)

    def one(j):
        u, so, c, opts = j
        return j, run([sched, "--program", so, "--config", c] + opts, timeout=850)

    # the long ones first
    jobs.sort(key=lambda j: (j[3][:2] != ["--bound", "3"], "--threads" not in j[3],
                             "--len" not in j[3]))
    for (u, so, c, opts), r in pmap(one, jobs):
        if r.returncode not in (0, 1, 4):
            raise CheckError("%s %s %s: status %s: %s %s" %
                             (u.tag, c, opts, r.returncode, r.stdout[-300:], r.stderr[-300:]))
        if r.returncode == 4:
            chk.violation("[%s, %s] deadlock" % (u.tag, c), {"options": opts})
        for line in r.stdout.splitlines():
            f = line.split("\t")
            if f[0] == "S":
                chk.add("states", int(f[2]))
                chk.add("programs", int(f[2]))
                chk.add("transitions", int(f[3]))
                chk.add("schedules", int(f[4]))
                chk.add("traces_validated_against_impl", int(f[4]))
            elif f[0] == "V":
                chk.violation("[%s] %s: %s" % (u.tag, f[1], f[2]),
                              {"build": u.tag, "config": c, "options": opts, "what": f[2],
                               "compile": " ".join(u.flags)})
    for u, so, c, opts in jobs[:: max(1, len(jobs) // 6)]:
        chk.sample({"build": u.tag, "config": c, "options": opts})
    chk.assumptions += [
        "sequentially consistent memory (a program without data races has no other behaviour)",
        "a scheduling point before every access to memory that another thread may reach; "
        "preemptions bounded as the samples' options say",
        "standard library code inside libstdc++.so is not instrumented",
    ]
