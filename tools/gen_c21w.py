#!/usr/bin/env python3
"""Interface mocks with many parameters and many overloads for C21 (up to the 86 the macros can handle)."""
import sys

out = sys.argv[sys.argv.index("--out") + 1]
n = int(sys.argv[sys.argv.index("--n") + 1])
kind = sys.argv[sys.argv.index("--kind") + 1]
KINDS = ["int", "const Cnt&", "Cnt", "std::pair<int, Cnt>", "Cnt&", "Uniq"]


def paren(t):
    return "(%s)" % t if "," in t else t


o = ['#include "c21_driver.hpp"\nusing rec::NoMatch;\ntemplate <int N> struct Tag { int id{}; };\n']
if kind == "params":
    ps = [KINDS[(i * 5 + i // 6) % len(KINDS)] for i in range(n)]
    o.append("struct I {\n\tvirtual ~I() = default;\n\tvirtual int foo(%s) const = 0;\n};\n" % ", ".join(ps))
    o.append("struct M final : I {\n\tMOCK_METHOD(foo, int, (%s), const);\n};\n" % ", ".join(paren(p) for p in ps))
    o.append("using Params = std::tuple<%s>;\n" % ", ".join(ps))
    o.append(r'''
static constexpr std::size_t N = std::tuple_size_v<Params>;
template <std::size_t I> using P = std::tuple_element_t<I, Params>;
template <std::size_t... K>
static void run(std::index_sequence<K...>)
{
	rec::reset();
	const M m{};
	const int odd = mc::choose(static_cast<int>(N) + 1) - 1; // this argument does not have the accepted value
	const int way = mc::choose(2);
	mc::note(N, " parameters, ", way ? "directly" : "through the base", ", unacceptable argument ", odd);
	std::vector<int> ids;
	std::vector<const void*> addr;
	auto action = [&](auto&... args) { (ids.push_back(id_of(args)), ...); (addr.push_back(std::addressof(args)), ...); return 4711; };
	mimicpp::ScopedExpectation e{m.foo_.expect_call(mimicpp::matches::predicate([](const auto& v) { return id_of(v) == 1000 + static_cast<int>(K); })...)
		and mimicpp::expect::times(0, 1)
		and mimicpp::finally::returns_apply_all_result_of(action)};
	std::tuple<std::remove_cvref_t<P<K>>...> store{make<std::remove_cvref_t<P<K>>>(static_cast<int>(K) == odd ? 7 : 1000 + static_cast<int>(K))...};
	int result = 0, thrown = 0;
	Cnt::copies = 0;
	try
	{
		if (way) result = m.foo_(static_cast<P<K>&&>(std::get<K>(store))...);
		else { const I& base = m; result = base.foo(static_cast<P<K>&&>(std::get<K>(store))...); }
	}
	catch (const NoMatch&) { thrown = 1; }
	mc::check_eq(thrown, odd >= 0 ? 1 : 0, "rejection");
	mc::check_eq(result, odd >= 0 ? 0 : 4711, "result");
	mc::check_eq(Cnt::copies, 0, "copies");
	mc::check_eq(rec::log().events.size(), 1u, "reports");
	if (mc::violated()) return;
	mc::check_eq(rec::log().events[0].call->argDetails.size(), N, "arguments in the report");
	if (odd >= 0) return;
	if (!mc::check_eq(ids.size(), N, "arguments seen")) return;
	(mc::check_eq(ids[K], 1000 + static_cast<int>(K), "argument ", K), ...);
	((std::is_reference_v<P<K>> ? (void)mc::check(addr[K] == std::addressof(std::get<K>(store)), "argument ", K, " is another object") : (void)mc::check(addr[K] != std::addressof(std::get<K>(store)), "by-value argument ", K, " is the caller's object")), ...);
}
int main(int argc, char** argv)
{
	return mc::main(argc, argv, {{"parameters-" + std::to_string(N), [] { run(std::make_index_sequence<N>{}); }}}, 3);
}
''')
else:
    specs = ["", "const", "noexcept", "const noexcept"]
    fs = [(["int", "(std::pair<int, Cnt>)", "Cnt"][i % 3], i, specs[(i // 2) % 4]) for i in range(n)]
    o.append("struct I {\n\tvirtual ~I() = default;\n%s};\n" % "".join("\tvirtual %s foo(Tag<%d>%s) %s = 0;\n" % (r.strip("()"), i, ", int" * (i % 2), s) for r, i, s in fs))
    o.append("struct M final : I {\n\tMOCK_OVERLOADED_METHOD(foo,\n%s);\n};\n" % ",\n".join("\t\tADD_OVERLOAD(%s, (Tag<%d>%s)%s)" % (r, i, ", int" * (i % 2), ", " + s if s else "") for r, i, s in fs))
    o.append("static constexpr std::size_t N = %d;\n" % n)
    o.append(r'''
template <std::size_t K> static constexpr bool isConst = K / 2 % 4 == 1 || K / 2 % 4 == 3;
template <std::size_t K> static auto& qualified(auto& m) { if constexpr (isConst<K>) return std::as_const(m); else return m; }
template <std::size_t K>
static mimicpp::ScopedExpectation* expectation(M& m)
{
	using R = std::conditional_t<K % 3 == 0, int, std::conditional_t<K % 3 == 1, Pair, Cnt>>;
	auto pred = mimicpp::matches::predicate([](const Tag<K>& t) { return t.id == 5; });
	auto fin = [](auto&&...) -> R { return make<R>(100 + static_cast<int>(K)); };
	if constexpr (K % 2) return new mimicpp::ScopedExpectation{qualified<K>(m.foo_).expect_call(pred, 3) and mimicpp::expect::times(0, 9) and mimicpp::finally::returns_apply_all_result_of(fin)};
	else return new mimicpp::ScopedExpectation{qualified<K>(m.foo_).expect_call(pred) and mimicpp::expect::times(0, 9) and mimicpp::finally::returns_apply_all_result_of(fin)};
}
template <std::size_t K>
static int call(auto& m)
{
	if constexpr (K % 2) return id_of(qualified<K>(m).foo(Tag<K>{5}, 3));
	else return id_of(qualified<K>(m).foo(Tag<K>{5}));
}
template <std::size_t... K>
static void run(std::index_sequence<K...>)
{
	rec::reset();
	M m{};
	const int missing = mc::choose(static_cast<int>(N) + 1) - 1; // the overload without expectation
	mc::note(N, " overloads, without expectation: ", missing);
	std::vector<std::unique_ptr<mimicpp::ScopedExpectation>> es;
	((static_cast<int>(K) == missing ? void() : (es.emplace_back(expectation<K>(m)), void())), ...);
	auto check = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) {
		constexpr bool isNoexcept = J / 2 % 4 >= 2;
		if (static_cast<int>(J) == missing && isNoexcept) return; // would have to terminate
		int r = -1;
		try { I& base = m; r = call<J>(base); }
		catch (const NoMatch&) { r = 0; }
		mc::check_eq(r, static_cast<int>(J) == missing ? 0 : 100 + static_cast<int>(J), "outcome of overload ", J);
	};
	(check(std::integral_constant<std::size_t, K>{}), ...);
}
int main(int argc, char** argv)
{
	return mc::main(argc, argv, {{"overloads-" + std::to_string(N), [] { run(std::make_index_sequence<N>{}); }}}, 3);
}
''')
open(out, "w").write("".join(o))
