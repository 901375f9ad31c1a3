"""Writes MANIFEST.json from the table below (python3 lib/manifest.py)."""
import json
import os

HANDLES = ("exhaustive explicit-state exploration of the real handles (BFS closure over all "
           "operations, configurations%s), each transition compared with a reference model")
N_HANDLES = ("Every operation from every reachable abstract state of two handles, for each "
             "value type x allocator x header configuration in mc/h_*.cc, is executed on the "
             "real code and compared with the model in mc/engine.cc. Assumes histories beyond "
             "two (thorough: three) handles and values outside the alphabet add nothing; trusts "
             "the compiler, ASan/UBSan and the ledger in mc/world.cc.")
T = {}
for i in range(1, 11):
    T["C%02d" % i] = (HANDLES % (" and fault points" if i != 5 else ""), N_HANDLES)
E_HARNESS = (" together with exhaustive enumeration of %s by a bounded explicit-case harness "
             "(mc/%s) against a reference")
for i, what, src in ((1, "copy/move forms x source category x allocators", "h_copies.cc"),
                     (3, "copy/move forms x source category x allocators", "h_copies.cc"),
                     (9, "chains of nested handles x depth of the source x allocators x faults",
                      "h_nest.cc"),
                     (11, "operator tables, value pairs and valueless states", "h_compare.cc"),
                     (12, "values x histories and container operation sequences", "h_hash.cc"),
                     (13, "access expressions and operation sequences", "h_access.cc"),
                     (14, "constructor forms x argument categories", "h_args.cc")):
    T["C%02d" % i] = (HANDLES % (" and fault points" if i < 11 else "") +
                      E_HARNESS % (what, src), N_HANDLES)
T["C15"] = ("exhaustive explicit-state exploration of each header under each language standard, "
            "logs of every transition and fault point compared (differential model checking)",
            N_HANDLES)
EXTRA = {
    "C16": ("exhaustive explicit-state exploration carried out by the compilers' constant "
            "evaluators: every operation (and, for part, every pair of operations) from every "
            "state of two handles, compared with a model and with the same run at run time",
            "Depth 1 from every state (depth 2 for part; thorough: all of indirect) with gcc and "
            "clang; undefined behaviour and leaks are what the evaluators reject."),
    "C17": ("stateless model checking of the real code: all thread interleavings at "
            "memory-access granularity up to a preemption bound under a controlled scheduler, "
            "with happens-before race detection and results compared with solo runs",
            "Two threads with one operation each at preemption bound 2 (thorough: bound 3, "
            "longer sequences, three threads) for every pair of the operations in "
            "mc/h_threads.cc; sequentially consistent memory."),
    "C18": ("exhaustive explicit-state exploration of composites on the real code (BFS over "
            "operation sequences on containers, aggregates, variants and trees of handles, with "
            "fault points), each transition compared with the same composite of reference "
            "handles (mc/h_composite.cc), object for object",
            "All sequences of three (trees: four; thorough: one more) of the operations listed "
            "in each world from its initial state, deduplicated by state; standard containers "
            "are trusted."),
    "C19": ("exhaustive enumeration of every compilation database and option set within bounds, "
            "the script run on each and its output compared with a reference model",
            "All databases of up to four entries over a small alphabet, all sets of up to two "
            "excluded directories, both output forms; longer databases and other names are "
            "assumed to add nothing."),
    "C20": ("exhaustive exploration of all operation sequences of bounded depth on the real "
            "allocators (mc/h_allocators.cc), each step compared with a reference model",
            "All sequences of allocate, deallocate, copy, rebind, move, compare and use by "
            "handles and containers to depth 4 (thorough 5); trusts ASan and operator new."),
    "C21": ("exhaustive exploration of all operation sequences of bounded depth over three "
            "wrappers x every fault point (mc/h_wrapper.cc), compared with a reference model",
            "Depth 5 (thorough 6) over two wrapper types and several value types; trusts "
            "ASan/UBSan."),
    "C22": ("exhaustive enumeration of the bounded configuration space (compiler x standard x "
            "ordered header selections x two translation units), each compiled, linked, run and "
            "compared with a reference",
            "All orders of the headers of each family under both compilers and every standard "
            "they support; feature macros compared with the library's own feature-test macros."),
    "C23": ("exhaustive enumeration of a bounded space of programs (value type x allocator x use "
            "x argument types), each put to the compiler and its answer compared with a "
            "reference model of the specification; exhaustive exploration of move sequences of "
            "handles of immovable values",
            "The states explored are the overload sets and constraints the compilers compute; "
            "value types, allocators and arguments are those listed in mc/h_contracts.cc and "
            "lib/c23.py; trusts gcc, clang and libstdc++."),
    "C24": ("exhaustive exploration of every sequence of outcomes (fault injection at every call "
            "of a tool) of the real scripts with recording stand-ins, and of every history of "
            "calls of ignore_edits_to.sh within bounds with the real git, against a reference",
            "All outcome sequences up to the first failure for each preset and environment "
            "listed in lib/c24.py; the tools themselves are trusted."),
}
NOT_APPLICABLE = {}


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
    T.update(EXTRA)
    checks = []
    na = []
    for i in ids:
        if i in T:
            checks.append({
                "property": i,
                "quick_cmd": "python3 check.py %s" % i,
                "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                "technique": T[i][0], "level": "model_checking", "level_note": T[i][1]})
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "Check not built yet.")})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
         "not_applicable": na,
         "notes": "No hooks are needed in /repo: the headers are instrumented through their "
                  "template parameters. See DESIGN.md and known_findings.txt."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
