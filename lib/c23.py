"""C23: which uses of the templates are programs.  Every question the language
can answer within a program (mc/h_contracts.cc), and, for what the
specification mandates rather than constrains, every (value type, allocator,
use) compiled by itself and accepted or rejected as specified."""
import itertools

import minirun
from common import *
from minirun import Build, mini

PRE = r"""
template <class T>
struct Stateful {  // neither always equal nor default constructible
  using value_type = T;
  int id;
  explicit Stateful(int i) : id(i) {}
  template <class U>
  Stateful(const Stateful<U>& o) : id(o.id) {}
  T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  friend bool operator==(const Stateful& a, const Stateful& b) { return a.id == b.id; }
  friend bool operator!=(const Stateful& a, const Stateful& b) { return a.id != b.id; }
};
inline std::allocator<char> make(std::true_type) { return std::allocator<char>(); }
inline Stateful<char> make(std::false_type) { return Stateful<char>(1); }
template <class T>
void destroy(T& t) { t.~T(); }
struct Full {
  int v = 0;
  friend bool operator==(const Full& a, const Full& b) { return a.v == b.v; }
  friend bool operator!=(const Full& a, const Full& b) { return a.v != b.v; }
};
struct NoDefault {
  explicit NoDefault(int) {}
  friend bool operator==(const NoDefault&, const NoDefault&) { return true; }
  friend bool operator!=(const NoDefault&, const NoDefault&) { return false; }
};
struct MoveOnly {
  MoveOnly() {}
  MoveOnly(MoveOnly&&) {}
  MoveOnly& operator=(MoveOnly&&) { return *this; }
  friend bool operator==(const MoveOnly&, const MoveOnly&) { return true; }
  friend bool operator!=(const MoveOnly&, const MoveOnly&) { return false; }
};
struct MoveConstructOnly {
  MoveConstructOnly() {}
  MoveConstructOnly(MoveConstructOnly&&) {}
};
struct Immovable {
  Immovable() {}
  Immovable(const Immovable&) = delete;
  friend bool operator==(const Immovable&, const Immovable&) { return true; }
  friend bool operator!=(const Immovable&, const Immovable&) { return false; }
};
struct NoAssign {
  const int v = 0;
};
struct NoEqual {
  int v = 0;
};
class Closed {  // no destructor to be called from outside
  ~Closed() {}
};
struct Abstract {
  virtual ~Abstract() {}
  virtual int f() const = 0;
};
struct Interface {
  virtual int f() const = 0;

 protected:
  Interface() {}
  Interface(const Interface&) = default;
  ~Interface() = default;
};
struct Derived : Full {};
struct Later;
enum E { e0 };
union Un { int i; char c; };
using Fn = int(int);
using Arr = int[3];
using ArrU = int[];
using CInt = const int;
using VInt = volatile int;
using CFull = const Full;
using CVFull = const volatile Full;
using Ref = int&;
using RRef = Full&&;
using Void = void;
using MemP = int Full::*;
using FnP = int (*)(int);
"""

# default, copy, move, copy-assign, equality, complete, destructible
TYPES = {
    "Full": "dcmaeCD",
    "int": "dcmaeCD",
    "std::string": "dcmaeCD",
    "std::vector<Full>": "dcmaeCD",
    "NoDefault": "cmaeCD",
    "MoveOnly": "dmeCD",
    "MoveConstructOnly": "dmCD",
    "Immovable": "deCD",
    "std::unique_ptr<int>": "dmeCD",
    "NoAssign": "dcmCD",
    "NoEqual": "dcmaCD",
    "Closed": "CD"[:1],
    "Abstract": "CD",
    "Later": "",
    "xyz::HANDLE<Full>": "dcmaeCD",
    "xyz::HANDLE<MoveOnly>": "dmeCD",
    "Arr*": "dcmaeCD",
    "E": "dcmaeCD",
    "Un": "dcmaCD",
    "MemP": "dcmaeCD",
    "FnP": "dcmaeCD",
}
# use -> (statement, what it needs of the value type and the allocator)
USES = {
    "name a pointer": ("H* p = &a; (void)p;", ""),
    "declare functions": ("extern H g(H, const H&, H&&); (void)sizeof(&g);", ""),
    "size": ("static_assert(sizeof(H) >= sizeof(void*), \"\");", ""),
    "valueless": ("(void)c.valueless_after_move();", ""),
    "allocator": ("(void)c.get_allocator();", ""),
    "access": ("T& x = *a; const T& y = *c; (void)x; (void)y;", ""),
    "arrow": ("(void)a.operator->(); (void)c.operator->();", ""),
    "swap": ("a.swap(b);", ""),
    "swap by name": ("using std::swap; swap(a, b);", ""),
    "destroy": ("destroy(a);", "CD"),
    "default": ("H x; (void)x;", "dCDA"),
    "default with allocator": ("H x(std::allocator_arg, A(al)); (void)x;", "dCD"),
    "copy": ("H x(c); (void)x;", "cCD"),
    "copy implicitly": ("H x = c; (void)x;", "cCD"),
    "copy with allocator": ("H x(std::allocator_arg, A(al), c); (void)x;", "cCD"),
    "move": ("H x(std::move(a)); (void)x;", "CD"),
    "move implicitly": ("H x = std::move(a); (void)x;", "CD"),
    "move with allocator": ("H x(std::allocator_arg, A(al), std::move(a)); (void)x;", "CDM"),
    "copy-assign": ("a = c;", "caCD"),
    "move-assign": ("a = std::move(b);", "mCD"),
}
EQ = {"equality": ("(void)(a == c); (void)(a != b);", "eCD"),
      "equality with value": ("(void)(c == *c); (void)(*c != a);", "eCD")}
BAD_T = ["Arr", "ArrU", "CInt", "VInt", "CFull", "CVFull", "Ref", "RRef", "Fn", "Void", "INPLACE"]
P_TYPES = {
    "Full": "dcmaCD", "Derived": "dcmaCD", "NoDefault": "cmaCD", "Abstract": "acmCD",
    "Interface": "acmCD", "MoveOnly": "dmCD", "Immovable": "dCD", "int": "dcmaCD",
    "NoAssign": "dcmCD", "Later": "", "std::string": "dcmaCD",
}
# for the polymorphic family nothing but construction asks anything of T
P_USES = {
    "default": ("H x; (void)x;", "dcA"),
    "default with allocator": ("H x(std::allocator_arg, A(al)); (void)x;", "dc"),
    "destroy": ("destroy(a);", ""),
    "copy": ("H x(c); (void)x;", ""),
    "copy implicitly": ("H x = c; (void)x;", ""),
    "copy with allocator": ("H x(std::allocator_arg, A(al), c); (void)x;", ""),
    "move": ("H x(std::move(a)); (void)x;", ""),
    "move implicitly": ("H x = std::move(a); (void)x;", ""),
    "move with allocator": ("H x(std::allocator_arg, A(al), std::move(a)); (void)x;", ""),
    "copy-assign": ("a = c;", ""),
    "move-assign": ("a = std::move(b);", ""),
}


def wanted(needs, has, alloc):
    for n in needs:
        if n == "A":
            if alloc != "std::allocator":
                return False
        elif n == "M":  # to be moved, unless all allocators are equal
            if alloc != "std::allocator" and "m" not in has:
                return False
        elif n not in has:
            return False
    return True


def programs(fam, c20):
    """(name, statement, T, allocator, accepted?)"""
    uses = dict(USES)
    types = TYPES
    if fam == "polymorphic":
        uses.update(P_USES)
        types = P_TYPES
    else:
        uses.update(EQ)
    for (t, has), alloc in itertools.product(types.items(), ("std::allocator", "Stateful")):
        if t == "Later" and fam == "indirect":
            pass
        for name, (stmt, needs) in uses.items():
            if fam == "polymorphic" and t == "Later" and (needs or name in (
                    "copy-assign", "move-assign", "destroy") or "opy" in name or "ove" in name):
                continue  # completeness is mandated there, which need not show
            want = wanted(needs, has, alloc)
            if not c20:
                # the older headers say less: they have a default constructor
                # only for default constructible T, and always move values
                if name == "move with allocator" and "m" not in has:
                    continue
                if name == "swap by name" and t == "Later":
                    continue
            yield name, stmt, t, alloc, want
    for t in BAD_T + (["INPLACE2"] if c20 else []):
        for alloc in ("std::allocator", "Stateful"):
            yield "a value of such a type", "(void)sizeof(H);", t, alloc, False
    for t, o in (("int", "long"), ("Full", "Derived"), ("Derived", "Full"), ("int", "const int"),
                 ("Full", "xyz::HANDLE<Full>"), ("int", "Full*")):
        yield "an allocator for another type", "(void)sizeof(H);", t, "!" + o, False


def source(fam, c20, items):
    header = fam + (".h" if c20 else "_cxx14.h")
    s = ['#include "%s"' % header,
         "#define HANDLE " + fam]
    if c20:
        s += ["using INPLACE = std::in_place_t; using INPLACE2 = std::in_place_type_t<int>;"]
    elif fam == "polymorphic":
        s += ["using INPLACE = xyz::in_place_type_t<int>;"]
    else:
        s += ["using INPLACE = xyz::in_place_t;"]
    s += ["#include <%s>" % h for h in ("string", "vector") if any(h in i[2] for i in items)]
    s.append(PRE)
    for i, (name, stmt, t, alloc, want) in enumerate(items):
        at = "std::allocator<%s>" % alloc[1:] if alloc[0] == "!" else "%s<T>" % alloc
        s.append("namespace n%d { using T = %s; using A = %s; using H = xyz::%s<T, A>;\n"
                 "const std::integral_constant<bool, %s> which{};\n"
                 "void f(H& a, H& b, const H& c) { (void)a; (void)b; (void)c; "
                 "auto al = make(which); (void)al;\n%s\n} }"
                 % (i, t, at, fam, "false" if alloc == "Stateful" else "true", stmt))
    return "\n".join(s) + "\n"


def compiles(cc, std, text):
    r = run([cc, "-std=c++%d" % std, "-fsyntax-only", "-w", "-I" + REPO, "-x", "c++", "-"],
            input=text, timeout=300)
    return r.returncode == 0, r.stderr


def c23(chk):
    t = chk.thorough
    hs = []
    for fam in ("indirect", "poly"):
        for c20, stds in ((True, (20, 23) if t else (20,)), (False, (14, 17, 20) if t else (14, 17))):
            for std in stds:
                for cc in (CLANG, GCC):
                    if cc == GCC and std == 17 and not t:
                        continue
                    hs.append(Build("h_contracts.cc", std,
                                    {"indirect": "indirect", "poly": "polymorphic"}[fam] +
                                    (".h" if c20 else "_cxx14.h"), cc,
                                    opt=["-O0"] + ["-DNDEBUG"] * (cc == GCC),
                                    defs=(["-DMC_CXX20"] if c20 else []) +
                                    (["-DH_POLY"] if fam == "poly" else []), tag="-" + fam))
    mini(chk, hs)
    jobs = []
    for fam, c20 in itertools.product(("indirect", "polymorphic"), (True, False)):
        header = fam + (".h" if c20 else "_cxx14.h")
        for cc in (CLANG, GCC):
            for std in ((20, 23) if c20 else (14, 17, 20, 23)) if t else ((20,) if c20 else (14,)):
                if not header_alone_compiles(cc, ["-std=c++%d" % std], [header]):
                    raise CheckError("%s does not compile by itself" % header)
                items = list(programs(fam, c20))
                yes = [i for i in items if i[4]]
                no = [i for i in items if not i[4]]
                if cc == GCC and not t:
                    no = [i for i in no if i[0].startswith("a")]
                jobs.append((header, fam, c20, cc, std, yes))
                jobs += [(header, fam, c20, cc, std, [i]) for i in no]

    def one(j):
        header, fam, c20, cc, std, items = j
        ok, err = compiles(cc, std, source(fam, c20, items))
        if len(items) == 1 and not items[0][4]:
            return j, [(items[0], err)] if ok else []
        if ok:
            return j, []
        bad = []
        for i in items:  # which?
            ok, err = compiles(cc, std, source(fam, c20, [i]))
            if not ok:
                bad.append((i, err))
        return j, bad or [(items[0], "together they do not compile: " + err)]

    jobs.sort(key=lambda j: -len(j[5]))
    for j, bad in pmap(one, jobs):
        header, fam, c20, cc, std, items = j
        chk.add("programs", len(items))
        chk.add("states", len(items))
        chk.add("transitions", len(items))
        chk.add("traces_validated_against_impl", len(items))
        for (name, stmt, ty, alloc, want), err in bad:
            al = "an allocator for " + alloc[1:] if alloc[0] == "!" else alloc
            chk.violation(
                "%s (%s -std=c++%d), value type %s, %s: '%s' (%s) is %s" %
                (header, os.path.basename(cc), std, ty, al, name, stmt,
                 "rejected, should be accepted: " + first_error(err) if want
                 else "accepted, should be rejected"),
                {"program": source(fam, c20, [(name, stmt, ty, alloc, want)]),
                 "compile": "%s -std=c++%d -fsyntax-only -I%s" % (cc, std, REPO)})
    for j in jobs[:: max(1, len(jobs) // 6)]:
        chk.sample({"header": j[0], "compiler": os.path.basename(j[3]), "std": j[4],
                    "value type": j[5][0][2], "allocator": j[5][0][3], "use": j[5][0][1],
                    "accepted": j[5][0][4]})
    chk.assumptions += ["the installed gcc and clang with libstdc++ stand for all compilers",
                        "value types, allocators and argument types are those listed in "
                        "mc/h_contracts.cc and lib/c23.py"]
