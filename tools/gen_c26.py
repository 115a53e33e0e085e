#!/usr/bin/env python3
"""C26: which expectation chains compile.
Every clause is put onto every builder state of every signature (in a requires-expression) and the verdict is compared with
the language's own traits (std::is_invocable, casts, comparisons) or with what the clause is documented to need. Rejections
that are not visible to overload resolution are decided by compiling small programs, each next to an accepted twin."""
import concurrent.futures as cf
import itertools
import os
import subprocess
import sys

arg = lambda k, d=None: sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d
out = arg("--out")
mode = arg("--mode")
REPO = os.environ.get("VERIF_REPO", "/repo")

PRE = r'''
#include <memory>
#include <string>
#include <vector>
#include <filesystem>
#include <string_view>
#include <optional>
#include <functional>
#include <stdexcept>
using namespace mimicpp;
struct X { int v{}; friend bool operator==(const X&, const X&) = default; };
struct Opaque { int v{}; };                                   // neither comparable nor convertible
struct FromInt { explicit FromInt(int) {} };                  // explicitly convertible only
struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) = default; MoveOnly& operator=(MoveOnly&&) = default; };
// functors
struct FInt { void operator()(int&) const {} };
struct FCInt { int operator()(const int&) const { return 0; } };
struct FStr { std::string operator()(const std::string&) const { return {}; } };
struct FX { const X& operator()(const X& x) const { return x; } };
struct FNone { int operator()() const { return 0; } };
struct FMutable { void operator()(const int&) {} };           // not callable while const
struct FMut0 { void operator()() {} };
struct FTwo { int operator()(const int&, const std::string&) const { return 0; } };
struct FAny { template <typename... T> int operator()(T&&...) const { return 0; } };
// matchers
struct MInt { bool matches(const int&) const { return true; } StringViewT describe() const { return "m"; } };
struct MStr { bool matches(const std::string&) const { return true; } StringViewT describe() const { return "m"; } };
struct MX { bool matches(const X&) const { return true; } StringViewT describe() const { return "m"; } };
struct MMutInt { bool matches(int&) const { return true; } StringViewT describe() const { return "m"; } };
struct MNoDescribe { bool matches(const int&) const { return true; } };
struct MNoMatches { StringViewT describe() const { return "m"; } };
struct MNonConst { bool matches(const int&) { return true; } StringViewT describe() const { return "m"; } };
struct MTraits { int dummy{}; };
template <> struct mimicpp::custom::matcher_traits<MTraits>
{
	bool matches(const MTraits&, const int&) const { return true; }
	StringViewT describe(const MTraits&) const { return "m"; }
};
// policies
struct PGood { static bool is_satisfied() noexcept { return true; } static bool matches(const auto&) { return true; } static std::optional<StringT> describe() { return {}; } static void consume(const auto&) {} };
struct PThrowingSatisfied : PGood { static bool is_satisfied() { return true; } };
struct PNoMatches { static bool is_satisfied() noexcept { return true; } static std::optional<StringT> describe() { return {}; } static void consume(const auto&) {} };
struct PNoDescribe { static bool is_satisfied() noexcept { return true; } static bool matches(const auto&) { return true; } static void consume(const auto&) {} };
struct PNoConsume { static bool is_satisfied() noexcept { return true; } static bool matches(const auto&) { return true; } static std::optional<StringT> describe() { return {}; } };
struct PNoSatisfied { static bool matches(const auto&) { return true; } static std::optional<StringT> describe() { return {}; } static void consume(const auto&) {} };
struct PNonConst { bool is_satisfied() noexcept { return true; } bool matches(const auto&) { return true; } static std::optional<StringT> describe() { return {}; } static void consume(const auto&) {} };
struct PNoMove : PGood { PNoMove() = default; PNoMove(PNoMove&&) = delete; };
struct FinInt { int finalize_call(const auto&) { return 0; } };
struct FinStr { std::string finalize_call(const auto&) { return {}; } };
struct FinVoid { void finalize_call(const auto&) {} };
struct FinConst { int finalize_call(const auto&) const { return 0; } };

template <typename From, typename To> concept castable = requires { static_cast<To>(std::declval<From>()); };
template <typename F, typename R, typename... A>
consteval bool call_castable() { if constexpr (std::is_invocable_v<F, A...>) return castable<std::invoke_result_t<F, A...>, R>; else return false; }
template <typename F, typename M, typename... A>
consteval bool projected()
{
	if constexpr (std::is_invocable_v<const F&, A...>) { using T = std::remove_reference_t<std::invoke_result_t<const F&, A...>>; return requires (const M& m, T& t) { { m.matches(t) } -> std::convertible_to<bool>; }; }
	else return false;
}
template <typename Op, typename M, typename... A>
consteval bool compared()       // the argument(s) may be put in front of an M
{
	if constexpr (sizeof...(A) == 1) return (std::predicate<const Op&, std::remove_reference_t<A>&..., const M&>);
	else return false;
}
template <typename T, typename M> concept hit = requires (const M& m, std::remove_reference_t<T>& t) { { m.matches(t) } -> std::convertible_to<bool>; { m.describe() } -> std::convertible_to<StringViewT>; };
template <typename V, typename P> concept value_for = std::equality_comparable_with<V, P> && std::predicate<std::equal_to<>, std::remove_reference_t<P>&, const std::decay_t<V>&>;
struct Row { const char* what; bool ok; };
static void run(const Row* rows, int n)
{
	int blocks = (n + 63) / 64;
	const int b = blocks > 1 ? mc::choose(blocks) : 0;
	for (int i = b * 64; i < std::min(n, b * 64 + 64); ++i)
	{
		mc::note(rows[i].what);
		mc::check(rows[i].ok, rows[i].what);
	}
}
'''
o = ['#include "mc.hpp"\n#include "mimic++/mimic++.hpp"\n', PRE]
tables = []


def table(name, rows):
    o.append("static const Row %s[] {\n" % name)
    for what, expr in rows:
        o.append('\t{"%s", %s},\n' % (what.replace("\\", "\\\\").replace('"', "'"), expr))
    o.append("};\n")
    tables.append((name, len(rows)))


SIGS = [("void", []), ("int", []), ("void", ["int"]), ("int", ["const int&", "std::string"]), ("std::string", ["int&"]),
        ("const X&", ["const X&", "int&&"]), ("FromInt", ["std::string&", "int", "X"]), ("int&", ["int&", "const int&"]),
        ("MoveOnly", ["const int&"]), ("std::unique_ptr<int>", ["X&&"])]
QUAL = ["", " const", " &", " noexcept"]


def P(ps, i):
    return ps[i] if i < len(ps) else None


def lref(p):
    return "std::add_lvalue_reference_t<%s>" % p


def clauses(r, ps):
    """(text, expression, kind, oracle): kind policy/final/times/seq"""
    res = []
    for what, e in (("once", "expect::once()"), ("twice", "expect::twice()"), ("times(2)", "expect::times(2)"), ("times(1,3)", "expect::times(1, 3)"), ("at_least", "expect::at_least(1)"), ("at_most", "expect::at_most(1)")):
        res.append((what, e, "times", "true"))
    res.append(("in_sequence(lazy)", "expect::in_sequence(std::declval<LazySequence&>())", "seq", "true"))
    res.append(("in_sequence(greedy)", "expect::in_sequence(std::declval<GreedySequence&>())", "seq", "true"))
    res.append(("in_sequences", "expect::in_sequences(std::declval<LazySequence&>(), std::declval<GreedySequence&>())", "seq", "true"))
    # finalizers
    for v in ("int", "std::string", "X", "const char*", "std::reference_wrapper<int>", "std::reference_wrapper<const X>", "Opaque"):
        u = {"std::reference_wrapper<int>": "int", "std::reference_wrapper<const X>": "const X"}.get(v, v)
        res.append(("returns(%s)" % v, "finally::returns(std::declval<%s>())" % v, "final", "castable<%s&, %s>" % (u, r)))
    for f in ("FNone", "int(*)()", "std::unique_ptr<int>(*)()", "MoveOnly(*)()", "int&(*)()", "const X&(*)()"):
        res.append(("returns_result_of(%s)" % f, "finally::returns_result_of(std::declval<%s>())" % f, "final", "call_castable<std::add_lvalue_reference_t<%s>, %s>()" % (f, r)))
    for i in range(4):
        p = P(ps, i)
        res.append(("returns_arg<%d>" % i, "finally::returns_arg<%d>()" % i, "final", "castable<std::add_rvalue_reference_t<%s>, %s>" % (p, r) if p else "false"))
        for f in ("FCInt", "FStr", "FX", "FMutable"):
            res.append(("returns_apply_result_of<%d>(%s)" % (i, f), "finally::returns_apply_result_of<%d>(%s{})" % (i, f), "final", "call_castable<const %s&, %s, %s>()" % (f, r, lref(p)) if p else "false"))
    for i, j in ((0, 1), (1, 0), (0, 0), (0, 2)):
        p, q = P(ps, i), P(ps, j)
        res.append(("returns_apply_result_of<%d,%d>(FTwo)" % (i, j), "finally::returns_apply_result_of<%d, %d>(FTwo{})" % (i, j), "final", "call_castable<const FTwo&, %s, %s, %s>()" % (r, lref(p), lref(q)) if p and q else "false"))
    for f in ("FNone", "FCInt", "FStr", "FTwo", "FAny"):
        res.append(("returns_apply_all_result_of(%s)" % f, "finally::returns_apply_all_result_of(%s{})" % f, "final", "call_castable<%s>()" % ", ".join(["const %s&" % f, r] + [lref(p) for p in ps])))
    for e in ("int", "std::runtime_error"):
        res.append(("throws(%s)" % e, "finally::throws(std::declval<%s>())" % e, "final", "true"))
    for f, to in (("FinInt", "int"), ("FinStr", "std::string"), ("FinVoid", "void"), ("FinConst", "int")):
        res.append((f, f + "{}", "final", "(std::is_convertible_v<%s, %s>)" % (to, r)))
    # side effects
    for f in ("FNone", "void(*)()", "FMut0"):
        res.append(("then::invoke(%s)" % f, "then::invoke(std::declval<%s>())" % f, "policy", "(std::is_invocable_v<std::add_lvalue_reference_t<%s>>)" % f))
    for i in range(4):
        p = P(ps, i)
        for f in ("FInt", "FCInt", "FStr", "FX", "FMutable", "FNone"):
            res.append(("then::apply_arg<%d>(%s)" % (i, f), "then::apply_arg<%d>(%s{})" % (i, f), "policy", "(std::is_invocable_v<const %s&, %s>)" % (f, lref(p)) if p else "false"))
    for i, j in ((0, 1), (1, 0), (0, 0), (0, 2)):
        p, q = P(ps, i), P(ps, j)
        for f in ("FTwo", "FAny", "FInt"):
            res.append(("then::apply_args<%d,%d>(%s)" % (i, j, f), "then::apply_args<%d, %d>(%s{})" % (i, j, f), "policy", "(std::is_invocable_v<const %s&, %s, %s>)" % (f, lref(p), lref(q)) if p and q else "false"))
    for f in ("FNone", "FCInt", "FStr", "FTwo", "FAny", "FMutable"):
        res.append(("then::apply_all(%s)" % f, "then::apply_all(%s{})" % f, "policy", "(std::is_invocable_v<%s>)" % ", ".join(["const %s&" % f] + [lref(p) for p in ps])))
    # requirements
    for i in range(4):
        p = P(ps, i)
        for m in ("MInt", "MStr", "MX", "MMutInt"):
            res.append(("expect::arg<%d>(%s)" % (i, m), "expect::arg<%d>(%s{})" % (i, m), "policy", "(hit<%s, %s>)" % (p, m) if p else "false"))
        res.append(("expect::arg<%d>(MTraits)" % i, "expect::arg<%d>(MTraits{})" % i, "policy", "(hit<%s, MInt>)" % p if p else "false"))
        for m in ("MNoDescribe", "MNoMatches", "MNonConst"):
            res.append(("expect::arg<%d>(%s)" % (i, m), "expect::arg<%d>(%s{})" % (i, m), "policy", "false"))
        res.append(("expect::arg<%d>(_)" % i, "expect::arg<%d>(matches::_)" % i, "policy", "true" if p else "false"))
        for n, op in (("eq", "std::equal_to<>"), ("lt", "std::less<>")):
            for v in ("int", "std::string", "X"):
                res.append(("expect::arg<%d>(%s(%s))" % (i, n, v), "expect::arg<%d>(matches::%s(%s{}))" % (i, n, v), "policy", "compared<%s, %s, %s>()" % (op, v, p) if p else "false"))
        for f, m in (("FStr", "MStr"), ("FX", "MX"), ("FCInt", "MInt"), ("FStr", "MInt"), ("FNone", "MInt")):
            # the result of the projection is handed on as an lvalue, whatever it is
            res.append(("expect::arg<%d>(%s, %s)" % (i, m, f), "expect::arg<%d>(%s{}, %s{})" % (i, m, f), "policy", "projected<%s, %s, %s>()" % (f, m, lref(p)) if p else "false"))
    for p, ok in (("PGood", "true"), ("PThrowingSatisfied", "false"), ("PNoMatches", "false"), ("PNoDescribe", "false"), ("PNoConsume", "false"), ("PNoSatisfied", "false"), ("PNonConst", "false"), ("PNoMove", "false")):
        res.append((p, "std::declval<%s>()" % p, "policy", ok))
    res.append(("an int", "5", "policy", "false"))
    res.append(("a matcher", "matches::eq(5)", "policy", "false"))
    return res


STATES = [("fresh", [], ""), ("times", ["times"], " && expect::once()"), ("sequence", [], " && expect::in_sequence(std::declval<LazySequence&>())"),
          ("finalizer", ["final"], " && finally::throws(1)"), ("policy", [], " && PGood{}"),
          ("times and finalizer", ["times", "final"], " && finally::throws(1) && expect::twice()"),
          ("everything", ["times", "final"], " && PGood{} && expect::once() && then::invoke(FNone{}) && finally::throws(1) && expect::in_sequence(std::declval<LazySequence&>())")]

if mode == "clauses":
    part, parts = int(arg("--part")), int(arg("--parts"))
    deep = "--deep" in sys.argv
    n = 0
    for si, (r, ps) in enumerate(SIGS):
        if si % parts != part:
            continue
        q = QUAL[si % 4]
        text = "%s(%s)%s" % (r, ", ".join(ps), q)
        rows = []
        o.append("namespace s%d { using M = Mock<%s>; constexpr auto any_args(M&%s m) { return %s(m).expect_call(%s); } using B0 = decltype(any_args(std::declval<M&>()));\n" % (
            si, text, "", "", ", ".join("matches::_" for _ in ps)))
        for k, (sname, has, chain) in enumerate(STATES):
            o.append("using B%d_ = decltype(std::declval<B0>()%s);\n" % (k, chain))
            o.append("using B%d = std::remove_cvref_t<B%d_>;\n" % (k, k))
        for k, (sname, has, chain) in enumerate(STATES):
            for ci, (what, e, kind, oracle) in enumerate(clauses(r, ps)):
                want = "false" if kind in has else oracle
                n += 1
                concept = "C%d_%d" % (k, ci)
                o.append("template <typename B> concept %s = requires { std::declval<B>() && %s; };\n" % (concept, e))
                rows.append(("%s, builder state %s: && %s" % (text, sname, what), "%s<B%d> == (%s)" % (concept, k, want)))
                if k in (0, 6) and kind in ("times", "seq") or k == 0 and (deep or ci % 5 == 0):
                    rows.append(("%s, builder state %s, as an lvalue: && %s must be refused" % (text, sname, what), "!%s<B%d&>" % (concept, k)))
                    rows.append(("%s, builder state %s, const: && %s must be refused" % (text, sname, what), "!%s<const B%d>" % (concept, k)))
        table("rows", rows)
        tables[-1] = ("s%d::rows" % si, tables[-1][1])
        o.append("}\n")
elif mode == "args":
    # value or matcher per parameter, and their number
    part, parts = int(arg("--part")), int(arg("--parts"))
    KINDS = [("matches::_", lambda p: "true"), ("5", lambda p: "(value_for<int, %s>)" % p), ("2.5", lambda p: "(value_for<double, %s>)" % p),
             ("std::string{}", lambda p: "(value_for<std::string, %s>)" % p), ("X{}", lambda p: "(value_for<X, %s>)" % p),
             ("Opaque{}", lambda p: "false"), ("MInt{}", lambda p: "(hit<%s, MInt>)" % p), ("MStr{}", lambda p: "(hit<%s, MStr>)" % p),
             ("MMutInt{}", lambda p: "(hit<%s, MMutInt>)" % p), ("matches::eq(5)", lambda p: "compared<std::equal_to<>, int, %s>()" % p),
             ("MNoDescribe{}", lambda p: "false"), ("\"text\"", lambda p: "(value_for<const char(&)[5], %s>)" % p), ("nullptr", lambda p: "(value_for<std::nullptr_t, %s>)" % p)]
    for si, ps in enumerate(([], ["int"], ["int&"], ["const int&"], ["int&&"], ["std::string"], ["const std::string&"], ["X"], ["X&&"], ["Opaque"], ["const Opaque&"], ["std::unique_ptr<int>"], ["int*"], ["double"],
                             ["std::optional<std::string>"], ["const std::optional<int>&"], ["std::string_view"], ["std::shared_ptr<int>"], ["std::vector<int>"], ["const std::filesystem::path&"], ["const char*"], ["const char* const&"], ["std::vector<std::string>"],
                             ["int", "std::string"], ["X", "int&"], ["Opaque", "int"])):
        if si % parts != part:
            continue
        text = "void(%s)" % ", ".join(ps)
        o.append("namespace a%d { using M = Mock<%s>;\n" % (si, text))
        rows = []
        c = 0
        for cnt in range(0, len(ps) + 2):
            if cnt > 2:
                kinds = [[KINDS[0]] * cnt, [KINDS[1]] * cnt]
            else:
                kinds = itertools.product(KINDS, repeat=cnt)
            for ks in kinds:
                want = "false" if cnt != len(ps) else " && ".join([k[1](p) for k, p in zip(ks, ps)] or ["true"])
                call = ", ".join(k[0] for k in ks)
                o.append("template <typename T> concept C%d = requires (T m) { m.expect_call(%s); };\n" % (c, call))
                rows.append(("Mock<%s>: expect_call(%s)" % (text, call), "C%d<M&> == (%s)" % (c, want)))
                c += 1
        table("rows", rows)
        tables[-1] = ("a%d::rows" % si, tables[-1][1])
        o.append("}\n")
elif mode == "programs":
    HEAD = '#include "mimic++/mimic++.hpp"\n' + PRE.split("template <typename From")[0] + "int main() {\n"
    PROGS = [  # (what, body, compiles)
        ("void mock without finalizer", "Mock<void(int)> m{}; ScopedExpectation e{m.expect_call(1)};", 1),
        ("int mock without finalizer", "Mock<int(int)> m{}; ScopedExpectation e{m.expect_call(1)};", 0),
        ("int mock with finalizer", "Mock<int(int)> m{}; ScopedExpectation e{m.expect_call(1) && finally::returns(1)};", 1),
        ("int mock without finalizer, other clauses", "Mock<int(int)> m{}; ScopedExpectation e{m.expect_call(1) && expect::once() && then::invoke(FNone{})};", 0),
        ("reference mock without finalizer", "Mock<int&()> m{}; ScopedExpectation e{m.expect_call()};", 0),
        ("macro without finalizer", "Mock<std::string()> m{}; SCOPED_EXP m.expect_call();", 0),
        ("macro with finalizer", "Mock<std::string()> m{}; SCOPED_EXP m.expect_call() && finally::returns(std::string{});", 1),
        ("two expectations in one scope", "Mock<void()> m{}; SCOPED_EXP m.expect_call(); SCOPED_EXP m.expect_call(); m(); m();", 1),
        ("wide pattern for a narrow string", "Mock<void(std::string)> m{}; ScopedExpectation e{m.expect_call(L\"x\")};", 0),
        ("narrow pattern for a narrow string", "Mock<void(std::string)> m{}; ScopedExpectation e{m.expect_call(\"x\")};", 1),
        ("instance of a temporary", "Mock<void(const X&)> m{}; ScopedExpectation e{m.expect_call(matches::instance(X{}))};", 0),
        ("instance of a variable", "X x; Mock<void(const X&)> m{}; ScopedExpectation e{m.expect_call(matches::instance(x))};", 1),
        ("sequence as a temporary", "Mock<void()> m{}; ScopedExpectation e{m.expect_call() && expect::in_sequence(LazySequence{})};", 0),
        ("sequence as a variable", "LazySequence s{}; Mock<void()> m{}; ScopedExpectation e{m.expect_call() && expect::in_sequence(s)};", 1),
        ("reporter that is none", "install_reporter<X>();", 0),
        ("reporter that is one", "install_reporter<DefaultReporter>(nullptr);", 1),
        ("const mock, const signature", "const Mock<void() const> m{}; SCOPED_EXP m.expect_call(); m();", 1),
        ("const mock, mutable signature", "const Mock<void()> m{}; m();", 0),
        ("watching a reference", "Watched<X&, LifetimeWatcher> w{};", 0),
        ("watching an object", "Watched<X, LifetimeWatcher> w{}; SCOPED_EXP w.expect_destruct();", 1),
        ("destruct expectation with times", "Watched<X, LifetimeWatcher> w{}; SCOPED_EXP w.expect_destruct() && expect::twice();", 0),
        ("relocate expectation with times", "Watched<X, RelocationWatcher> w{}; SCOPED_EXP w.expect_relocate() && expect::times(0, 3);", 1),
    ]
    def compiles(i):
        src = "%s.prog%d.cpp" % (out, i)
        with open(src, "w") as f:
            f.write(HEAD + PROGS[i][1] + "\n}\n")
        p = subprocess.run(["g++", "-std=c++20", "-fsyntax-only", "-w", "-I" + os.path.join(REPO, "include"), src], capture_output=True, text=True, errors="replace")
        os.unlink(src)
        if p.returncode and " error: " not in p.stderr:
            raise RuntimeError("the compiler gave no answer: " + p.stderr[-500:])
        return p.returncode == 0
    with cf.ThreadPoolExecutor(6) as ex:
        res = list(ex.map(compiles, range(len(PROGS))))
    table("programs", [("%s: must %s: %s" % (w, "compile" if ok else "be refused", b), "true" if r == bool(ok) else "false") for (w, b, ok), r in zip(PROGS, res)])
    rows = []
    for t, copy, move, asg, masg in (("Mock<void()>", 0, 1, 0, 1), ("Mock<int(int), int(int) const>", 0, 1, 0, 1), ("ScopedExpectation", 0, 1, 0, 1), ("LazySequence", 0, 0, 0, 0), ("GreedySequence", 0, 0, 0, 0),
                                     ("LifetimeWatcher", 1, 1, 1, 1), ("RelocationWatcher", 1, 1, 1, 1), ("decltype(std::declval<Mock<void()>&>().expect_call())", 0, 1, 0, 1),
                                     ("decltype(std::declval<Mock<void(int)>&>().expect_call(1) && expect::once())", 0, 1, 0, 1)):
        for trait, want in (("is_copy_constructible", copy), ("is_move_constructible", move), ("is_copy_assignable", asg), ("is_move_assignable", masg)):
            rows.append(("%s of %s must be %s" % (trait, t, bool(want)), "std::%s_v<%s> == %s" % (trait, t, "true" if want else "false")))
    for t in ("Mock<void()>", "Mock<int(int), int(int) const>"):
        rows.append(("is_nothrow_move_constructible of " + t, "std::is_nothrow_move_constructible_v<%s>" % t))
    rows.append(("a discarded expectation is visible", "!std::is_nothrow_destructible_v<ScopedExpectation>"))
    table("handles", rows)
    UNPREFIXED = ["SCOPED_EXP", "MOCK_METHOD", "MOCK_OVERLOADED_METHOD", "ADD_OVERLOAD"]
    PREFIXED = ["MIMICPP_SCOPED_EXPECTATION", "MIMICPP_MOCK_METHOD", "MIMICPP_MOCK_OVERLOADED_METHOD", "MIMICPP_ADD_OVERLOAD"]
    rows = []
    for k, m in enumerate(UNPREFIXED + PREFIXED):
        for cfg in ("", "#define MIMICPP_CONFIG_ONLY_PREFIXED_MACROS\n"):
            src = out + ".macro.cpp"
            want = bool(not cfg or m in PREFIXED)
            with open(src, "w") as f:
                f.write(cfg + '#include "mimic++/mimic++.hpp"\n#ifdef %s\nPRESENT\n#endif\n' % m)
            p = subprocess.run(["g++", "-std=c++20", "-E", "-P", "-w", "-I" + os.path.join(REPO, "include"), src], capture_output=True, text=True, errors="replace")
            os.unlink(src)
            have = p.returncode == 0 and p.stdout.rstrip().endswith("PRESENT")
            rows.append(("macro %s is %sdefined%s" % (m, "" if want else "not ", " with only prefixed macros" if cfg else ""), "true" if have == want else "false"))
    table("macros", rows)

o.append("int main(int argc, char** argv)\n{\n\treturn mc::main(argc, argv, {\n")
for n, c in tables:
    o.append('\t\t{"%s", [] { run(%s, %d); }},\n' % (n.replace("::", "_"), n, c))
o.append("\t}, 1);\n}\n")
open(out, "w").write("".join(o))
