"""C22: every ordered selection of the public headers, compiled, linked from two
translation units and run under every supported standard with both compilers;
every feature macro against what the configuration really offers."""
import itertools

from common import *

H14 = ["indirect_cxx14.h", "polymorphic_cxx14.h", "feature_check.h"]
H20 = ["indirect.h", "polymorphic.h", "feature_check.h", "indirect_cxx14.h",
       "polymorphic_cxx14.h"]

EXPECT = {
    "indirect": "I 3 4 011;01 4;111;111;1;9 4;5 5 001 1 4;4;110;0;",
    "poly": "P 9 25;01 25;1 25;1;25 25 001 1 4;110;0;",
}

FACILITIES = {
    "XYZ_HAS_STD_OPTIONAL":
        "#include <optional>\nstd::optional<int> o(3);\nint main() { return *o - 3; }\n",
    "XYZ_HAS_STD_IN_PLACE_TYPE_T":
        "#include <utility>\nstd::in_place_type_t<int> o;\nint main() {}\n",
    "XYZ_HAS_STD_IN_PLACE_T":
        "#include <utility>\nstd::in_place_t o;\nint main() {}\n",
    "XYZ_HAS_TEMPLATE_ARGUMENT_DEDUCTION":
        "template <class T>\nstruct S { S(T) {} };\nint main() { S s(1); (void)s; }\n",
    "XYZ_HAS_STD_MEMORY_RESOURCE":
        "#include <memory_resource>\n"
        "int main() { std::pmr::monotonic_buffer_resource r; std::pmr::polymorphic_allocator<int>"
        " a(&r); a.deallocate(a.allocate(1), 1); }\n",
    "XYZ_HAS_STD_THREE_WAY_COMPARISON":
        "#include <compare>\nstruct S { int i; auto operator<=>(const S&) const = default; };\n"
        "int main() { return (S{1} <=> S{1}) != 0; }\n",
}


def fam(h):
    return "indirect" if h.startswith("indirect") else "poly" if h.startswith("poly") else None


def partner(order):
    """The same headers, the families interleaved the other way round."""
    groups = {}
    for h in order:
        groups.setdefault(fam(h), []).append(h)
    return [h for g in reversed(list(groups.values())) for h in g]


def selections(headers, longest):
    for k in range(1, longest + 1):
        yield from itertools.permutations(headers, k)


def name_of(cc):
    return os.path.basename(cc)


def one_order(chk, cc, std, order, opt):
    fams = sorted({fam(h) for h in order} - {None})
    want = "".join(EXPECT[f] for f in fams)
    tag = "%s -std=%s: %s" % (name_of(cc), std, ", ".join(order))
    d = tempfile.mkdtemp(prefix="inc-", dir=chk.dir)
    flags = ["-std=" + std] + opt + ["-DUSE_" + f.upper() for f in fams]
    try:
        objs = []
        for fn, o in (("f1", list(order)), ("f2", partner(order))):
            src = os.path.join(d, fn + ".cc")
            with open(src, "w") as f:
                for h in o + o:
                    f.write('#include "%s"\n' % h)
                f.write("#define FN %s\n" % fn)
                if fams:
                    f.write('#include "%s/h_include.hpp"\n' % MC)
                else:
                    f.write("int %s(char*, int) { return 0; }\n" % fn)
            cmd = [cc] + flags + ["-I" + REPO, "-c", src, "-o", src + ".o"]
            r = run(cmd, timeout=300)
            if r.returncode:
                r = run(cmd, timeout=300)
            if r.returncode:
                return tag, "does not compile (in the order %s): %s" % (
                    ", ".join(o), first_error(r.stderr))
            objs.append(src + ".o")
        with open(os.path.join(d, "main.cc"), "w") as f:
            f.write("#include <cstdio>\nint f1(char*, int); int f2(char*, int);\n"
                    "int main() { static char a[4000], b[4000]; f1(a, 4000); f2(b, 4000);\n"
                    "std::printf(\"%s\\n%s\\n\", a, b); }\n")
        exe = os.path.join(d, "exe")
        r = run([cc] + flags + [os.path.join(d, "main.cc")] + objs + ["-o", exe])
        if r.returncode:
            return tag, "two translation units do not link: %s" % r.stderr.strip()[-250:]
        r = run([exe], timeout=60)
        if r.returncode:
            return tag, "the program fails with status %d" % r.returncode
        for i, line in enumerate(r.stdout.split("\n")[:2]):
            if line != want:
                return tag, "observes %r in unit %d, should be %r" % (line, i + 1, want)
        return tag, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def macros(chk, cc, std):
    """What each header that knows the macros defines, and what is available."""
    bad = []
    n = 0
    truth = {}
    for m, prog in FACILITIES.items():
        src = os.path.join(chk.dir, "fac-%s-%s-%s.cc" % (name_of(cc), std, m))
        with open(src, "w") as f:
            f.write(prog)
        truth[m] = run([cc, "-std=" + std, "-fsyntax-only", src]).returncode == 0
    for hs in (["feature_check.h"], ["feature_check.h", "feature_check.h"],
               ["indirect_cxx14.h", "feature_check.h"], ["feature_check.h", "indirect_cxx14.h"],
               ["vector", "feature_check.h"]):
        r = run([cc, "-std=" + std, "-I" + REPO, "-E", "-dM", "-x", "c++", "-"],
                input="".join('#include "%s"\n' % h for h in hs))
        if r.returncode:
            bad.append("%s -std=%s: including %s fails: %s" %
                       (name_of(cc), std, hs, first_error(r.stderr)))
            continue
        defined = set(re.findall(r"^#define (\w+)", r.stdout, re.M))
        for m in FACILITIES:
            n += 1
            if (m in defined) != truth[m]:
                bad.append("%s -std=%s, %s: %s is %sdefined but the facility is %savailable" %
                           (name_of(cc), std, hs, m, "" if m in defined else "not ",
                            "" if truth[m] else "not "))
        # the macro can be used as the guard of a use of the facility
        for m, prog in FACILITIES.items():
            if hs != ["feature_check.h"]:
                continue
            src = os.path.join(chk.dir, "use-%s-%s-%s.cc" % (name_of(cc), std, m))
            with open(src, "w") as f:
                f.write('#include "feature_check.h"\n#ifdef %s\n%s#else\nint main() {}\n#endif\n'
                        % (m, prog))
            n += 1
            r = run([cc, "-std=" + std, "-I" + REPO, "-fsyntax-only", src])
            if r.returncode:
                bad.append("%s -std=%s: a use guarded by %s does not compile: %s" %
                           (name_of(cc), std, m, first_error(r.stderr)))
    return n, bad


def c22(chk):
    probe = os.path.join(chk.dir, "probe.cc")
    with open(probe, "w") as f:
        f.write("#include <memory>\nint main() { std::unique_ptr<int> p(new int(0)); return *p; }\n")
    stds = {}
    for cc in (GCC, CLANG):
        for s in ("c++14", "c++17", "c++20", "c++23", "gnu++14", "gnu++17", "gnu++20", "c++26"):
            stds[cc, s] = run([cc, "-std=" + s, probe, "-o", probe + name_of(cc) + s]
                              ).returncode == 0
        if not stds[cc, "c++14"] or not stds[cc, "c++20"]:
            raise CheckError("%s does not work" % cc)
    jobs = []
    for cc in (GCC, CLANG):
        for s, headers, longest in (("c++14", H14, 3), ("c++17", H14, 3),
                                    ("c++20", H20, 5 if chk.thorough else 3),
                                    ("c++23", H20, 4 if chk.thorough else 2)):
            if stds[cc, s]:
                jobs += [(cc, s, o, ["-O0"] + ["-DNDEBUG"] * (s in ("c++17", "c++23")))
                         for o in selections(headers, longest)]
        if chk.thorough:
            for s, headers, longest in (("gnu++14", H14, 2), ("gnu++20", H20, 2),
                                        ("c++26", H20, 2), ("c++14", H14, 3), ("c++20", H20, 2)):
                if stds[cc, s]:
                    jobs += [(cc, s, o, ["-O2", "-Wall"]) for o in selections(headers, longest)]
    for tag, err in pmap(lambda j: one_order(chk, *j), jobs):
        chk.add("states", 1)
        chk.add("transitions", tag.count(",") + 1)
        chk.add("traces_validated_against_impl", 1)
        if err:
            chk.violation("%s: %s" % (tag, err), {"configuration": tag})
    ms = [(cc, s) for cc, s in stds if stds[cc, s] and (chk.thorough or s != "c++26")]
    for n, bad in pmap(lambda a: macros(chk, *a), ms):
        chk.add("states", n)
        chk.add("traces_validated_against_impl", n)
        for b in bad:
            chk.violation(b, {"configuration": b.split(":")[0]})
    for j in jobs[:: max(1, len(jobs) // 8)]:
        chk.sample({"compiler": name_of(j[0]), "std": j[1], "includes": list(j[2])})
    chk.assumptions += ["the installed gcc and clang with libstdc++ stand for all compilers"]
