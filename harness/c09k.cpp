// C09: arguments of every kind reach requirements, side effects and finalizers as one and the same object, and results get back.
#include "kinds.hpp"
#include <cmath>
#include <cstring>
#include <limits>
using namespace kinds;
namespace mpp = mimicpp;

struct Sight { const volatile void* at; std::string text; };
static std::vector<Sight> seen;
struct Look
{
	template <typename T> static void at(T& t) { seen.push_back({std::addressof(t), mpp::print(const_cast<std::remove_volatile_t<T>&>(t))}); }
	template <typename... Ts> int operator ()(Ts&&... ts) const { (at(ts), ...); return 77; }
};
struct Match
{
	bool accept;
	template <typename T> bool operator ()(T& t) const { Look::at(t); return accept; }
};

template <typename K>
static const volatile void* home(typename K::S& s) { return std::addressof(s); }

// order of the sights of one answered call: the requirement, three effects, the finalizer
template <typename K>
static void transport()
{
	rec::reset();
	mpp::Mock<int(typename K::P)> mock{};
	const int times = 2;
	mpp::ScopedExpectation e{
		mock.expect_call(mpp::matches::predicate(Match{true}))
			and mpp::expect::times(0, times)
			and mpp::then::apply_arg<0>(Look{})
			and mpp::then::apply_all(Look{})
			and mpp::then::apply_args<0, 0>(Look{})
			and mpp::finally::returns_apply_all_result_of(Look{})};
	std::optional<mpp::ScopedExpectation> refuse;
	if (mc::choose_bool()) refuse.emplace(mock.expect_call(mpp::matches::predicate(Match{false})) and mpp::expect::times(0, 1) and mpp::then::apply_all([](auto&&...) { mc::fail("a side effect of another expectation was executed"); }) and mpp::finally::returns(1));
	for (int call = 0; call < 3 && !mc::violated(); ++call)
	{
		const int v = 1 + mc::choose(4);
		auto storage = K::make(v);
		const auto text = K::shown(storage);
		seen.clear();
		int r = -1;
		try { r = mock(K::pass(storage)); } catch (const rec::Inapplicable&) {} catch (const rec::NoMatch&) {}
		mc::note("call with ", v, " -> ", r);
		mc::check_eq(r, call < times ? 77 : -1, "result of call ", call);
		const std::size_t want = (refuse ? 1u : 0u) + 1u + (call < times ? 5u : 0u);
		if (!mc::check(seen.size() == want, "the argument was looked at ", seen.size(), " times, expected ", want)) return;
		for (auto& s : seen)
		{
			mc::check(s.at == seen[0].at, "not all parties were given the same object");
			mc::check_eq(s.text, text, "value of the argument");
			if constexpr (std::is_reference_v<typename K::P>) mc::check(s.at == home<K>(storage), "a reference parameter is not the caller's object");
		}
		mc::observe(text);
	}
}

// returns_arg: references stay references to the caller's object, values are handed on
template <typename K>
static void handed_back()
{
	using P = typename K::P;
	rec::reset();
	const int v = 1 + mc::choose(4);
	auto storage = K::make(v);
	const auto text = K::shown(storage);
	mpp::Mock<P(P)> mock{};
	mpp::ScopedExpectation e{mock.expect_call(mpp::matches::_) and mpp::finally::returns_arg<0>()};
	if constexpr (std::is_reference_v<P>)
	{
		auto&& r = mock(K::pass(storage));
		mc::check(static_cast<const volatile void*>(std::addressof(r)) == home<K>(storage), "the returned reference is not the caller's object");
		mc::check_eq(K::shown(storage), text, "value of the argument");
	}
	else
	{
		auto r = mock(K::pass(storage));
		mc::check_eq(mpp::print(r), text, "value of the result");
	}
}

// stored results: references to the stored or the referenced object, copies of it otherwise
template <typename K>
static void stored()
{
	if constexpr (!std::is_reference_v<typename K::P> && std::copyable<typename K::S> && !std::same_as<K, Grd> && !std::same_as<K, RefW>)
	{
		using T = typename K::S;
		rec::reset();
		const int v = 1 + mc::choose(4);
		T object = K::make(v);
		const auto text = mpp::print(object);
		const int form = mc::choose(6);
		auto twice = [&](auto& m, auto fn) { for (int i = 0; i < 2; ++i) fn(m); };
		auto equal = [&](auto& m) { mc::check_eq(mpp::print(m()), text, "result, form ", form); };
		auto same = [&](auto& m) { mc::check(std::addressof(m()) == std::addressof(object), "the result is not the referenced object, form ", form); };
		switch (form)
		{
		case 0: { mpp::Mock<T()> m{}; mpp::ScopedExpectation e{m.expect_call() and mpp::expect::twice() and mpp::finally::returns(object)}; if constexpr (!std::same_as<K, Com> && requires(T& t) { t = K::make(9); }) object = K::make(v + 1); twice(m, equal); break; }
		case 1: { mpp::Mock<T()> m{}; mpp::ScopedExpectation e{m.expect_call() and mpp::expect::twice() and mpp::finally::returns(T{object})}; twice(m, equal); break; }
		case 2: { mpp::Mock<const T&()> m{}; mpp::ScopedExpectation e{m.expect_call() and mpp::expect::twice() and mpp::finally::returns(object)}; twice(m, equal); break; }
		case 3: { mpp::Mock<T&()> m{}; mpp::ScopedExpectation e{m.expect_call() and mpp::expect::twice() and mpp::finally::returns(std::ref(object))}; twice(m, same); break; }
		case 4: { mpp::Mock<const T&()> m{}; mpp::ScopedExpectation e{m.expect_call() and mpp::expect::twice() and mpp::finally::returns(std::cref(object))}; twice(m, same); break; }
		case 5: { mpp::Mock<T&()> m{}; mpp::ScopedExpectation e{m.expect_call() and mpp::expect::twice() and mpp::finally::returns_result_of([&]() -> T& { return object; })}; twice(m, same); break; }
		}
	}
}

using Run = void (*)();
static std::vector<Run> a, b, c;
template <typename... Ks> struct List {};
template <typename... Ks>
static void fill(List<Ks...>) { (a.push_back(&transport<Ks>), ...); (b.push_back(&handed_back<Ks>), ...); (c.push_back(&stored<Ks>), ...); }

#if PART == 0
// side effects and callables keep their own state from call to call
struct Counter
{
	int id;
	std::vector<std::pair<int, int>>* out;
	int n{};
	void operator ()() { out->emplace_back(id, n++); }
};
static void stateful()
{
	rec::reset();
	std::vector<std::pair<int, int>> out;
	mpp::Mock<int(int&)> m{}, other{};
	Counter shared{9, &out};
	const int form = mc::choose(3);
	auto builder = [&](auto& mock, int id) {
		return mock.expect_call(mpp::matches::_) and mpp::expect::at_least(0)
			and mpp::then::invoke([&out, id, n = 0]() mutable { out.emplace_back(id, n); n += 1; })
			and mpp::then::invoke(Counter{id + 1, &out})
			and mpp::then::invoke(shared)
			and mpp::finally::returns_result_of([k = 100]() mutable { return k++; });
	};
	auto late = [&](auto& mock, int id) { // with moves of the builder and of the expectation in between
		auto x = builder(mock, id);
		auto y = std::move(x);
		mpp::ScopedExpectation e{std::move(y)};
		return mpp::ScopedExpectation{std::move(e)};
	};
	mpp::ScopedExpectation e = late(m, 0), f = late(other, 3);
	if (form == 1) shared.n = 50; // the source of a copied action is independent
	if (form == 2) shared();
	out.clear();
	int calls[2]{};
	for (int step = 0; step < 5 && !mc::violated(); ++step)
	{
		const int k = mc::choose(2);
		int v = 0;
		out.clear();
		const int r = k ? other(v) : m(v);
		const int id = k ? 3 : 0, n = calls[k]++;
		mc::note("call of mock ", k, " -> ", r);
		mc::check_eq(r, 100 + n, "result of a stateful callable");
		const std::vector<std::pair<int, int>> want{{id, n}, {id + 1, n}, {9, n}};
		mc::check(out == want, "states seen by the side effects at call ", n, ": ", out.size() == 3 ? std::to_string(out[0].second) + "," + std::to_string(out[1].second) + "," + std::to_string(out[2].second) : "?");
	}
}

// results arrive exactly, whatever they are
enum class Huge : unsigned long long {};
template <typename T, typename Stored = T>
static void exact_values(const std::vector<Stored>& values)
{
	rec::reset();
	namespace fin = mpp::finally;
	const Stored v = mc::pick_from(values);
	const T want = static_cast<T>(v);
	mpp::Mock<T(Stored)> mock{};
	auto b = [&] { return mock.expect_call(mpp::matches::_) and mpp::expect::times(2); };
	const int form = mc::choose(7);
	mpp::ScopedExpectation e = form == 0 ? mpp::ScopedExpectation{b() and fin::returns(v)}
		: form == 1 ? mpp::ScopedExpectation{b() and fin::returns_result_of([v] { return v; })}
		: form == 2 ? mpp::ScopedExpectation{b() and fin::returns_arg<0>()}
		: form == 3 ? mpp::ScopedExpectation{b() and fin::returns_apply_result_of<0>([](Stored& x) { return x; })}
		: form == 4 ? mpp::ScopedExpectation{b() and fin::returns_apply_all_result_of([](Stored& x) -> Stored& { return x; })}
		: form == 5 ? mpp::ScopedExpectation{b() and fin::returns_result_of([v]() -> const Stored& { return v; })}
		: mpp::ScopedExpectation{b() and fin::returns(std::ref(v))};
	for (int i = 0; i < 2; ++i)
	{
		const T got = mock(v);
		mc::check(std::memcmp(std::addressof(got), std::addressof(want), std::min<std::size_t>(sizeof(T), 10)) == 0, "a number returned by finalizer form ", form, " arrived changed");
	}
	mc::observe(form);
}
static void exact()
{
	using ll = std::numeric_limits<long long>; using ull = std::numeric_limits<unsigned long long>;
	switch (mc::choose(11))
	{
	case 0: return exact_values<long long>({0, 1, -1, ll::max(), ll::min(), ll::max() - 1, (1ll << 53) + 1, 1ll << 32});
	case 1: return exact_values<unsigned long long>({0, 1, ull::max(), ull::max() - 1, (1ull << 63) + 1, (1ull << 53) + 1});
	case 2: return exact_values<double>({0., -0., 1.5, 0.1, 1e300, 5e-324, HUGE_VAL});
	case 3: return exact_values<long double>({0.1L, 1e4000L, 3.6e-4951L, 1.L + 1e-18L});
	case 4: return exact_values<float>({0.1f, -0.f, 1e38f});
	case 5: return exact_values<Huge>({Huge{0}, Huge{ull::max()}, Huge{(1ull << 53) + 1}});
	case 6: return exact_values<char16_t>({u'a', u'\uffff', u'\0'});
	case 7: return exact_values<signed char>({0, -128, 127, -1});
	case 8: return exact_values<bool>({false, true});
	case 9: return exact_values<long long, int>({0, -1, std::numeric_limits<int>::min(), std::numeric_limits<int>::max()});
	default: return exact_values<double, long long>({0, -1, (1ll << 53) - 1, ll::min()});
	}
}
#endif

int main(int argc, char** argv)
{
#if PART == 0
	fill(List<Int, Bool, Char, Dbl, IntRef, IntCRef, IntRv, Str, StrRef, StrCRef, StrRv, StrCRv, View>{});
#elif PART == 1
	fill(List<WStr, CStr, Opt, OptOpt, Ptr, VoidPtr, Null, kinds::Fn, MemPtr, UPtr, SPtr, MovOnly, MovOnlyRv, En, Opq, Shw>{});
#elif PART == 2
	fill(List<ShwCRef, Vec, VecBool, Arr, Mp, Pair, Tup0, Tup1, Tup2, TupTup, Any, Var, Func, RefW, RefWCRef, RefWRef>{});
#else
	fill(List<NoAddr, Grd, Conv, Com, Init, Spn, Path, Dur, Loc, Wide, LDbl, Cplx, Order, Ex, Abs, CAbs, CArr3, CharArr, Volat>{});
#endif
	return mc::main(argc, argv, {
#if PART == 0
		{"stateful-actions", stateful},
		{"exact-values", exact},
#endif
		{"transport", [] { mc::pick_from(a)(); }},
		{"handed-back", [] { mc::pick_from(b)(); }},
		{"stored-results", [] { mc::pick_from(c)(); }},
	}, 1);
}
