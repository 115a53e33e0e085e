// C10: value matchers, their negations, and the conjunction of requirements.
//   PART >= 9: relations;  PART == 0..8: conjunctions with one kind of positional argument pair each
#include "mc.hpp"
#include "rec.hpp"
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#ifndef PART
#define PART 9
#endif
namespace mpp = mimicpp;
namespace m = mimicpp::matches;
namespace expect = mimicpp::expect;

template <typename Mock, typename... Args>
static bool accepted(Mock& mock, Args&&... args)
{
	try { mock(std::forward<Args>(args)...); return true; }
	catch (const rec::NoMatch&) { return false; }
	catch (const rec::Inapplicable&) { mc::fail("an unsaturated expectation was reported as inapplicable"); return false; }
}

#if PART >= 9

enum Rel { EQ, NE, LT, LE, GT, GE };
static const char* const relText[] = {"==", "!=", "<", "<=", ">", ">="};
static const int complement[] = {NE, EQ, GE, GT, LE, LT};

template <typename A, typename B>
static bool holds(int r, const A& a, const B& b)
{
	switch (r)
	{
	case EQ: return a == b;
	case NE: return a != b;
	case LT: return a < b;
	case LE: return a <= b;
	case GT: return a > b;
	default: return a >= b;
	}
}

template <int R, typename T>
static auto make(T&& v)
{
	if constexpr (R == EQ) return m::eq(std::forward<T>(v));
	else if constexpr (R == NE) return m::ne(std::forward<T>(v));
	else if constexpr (R == LT) return m::lt(std::forward<T>(v));
	else if constexpr (R == LE) return m::le(std::forward<T>(v));
	else if constexpr (R == GT) return m::gt(std::forward<T>(v));
	else return m::ge(std::forward<T>(v));
}

// applies N negations (as lvalue or rvalue by choice) and hands the result to fn
template <int N, typename M, typename Fn>
static void negated(M matcher, bool asLvalue, Fn fn)
{
	if constexpr (N == 0) fn(matcher);
	else if (asLvalue) { auto n = !std::as_const(matcher); auto again = !std::as_const(matcher); negated<N - 1>(mc::choose_bool() ? std::move(n) : std::move(again), asLvalue, fn); } // the original stays usable
	else negated<N - 1>(!std::move(matcher), asLvalue, fn);
}

// the requirement reaches the call through one of several forms
template <typename Param, bool viaMock, typename M, typename T>
static void verdicts(const M& matcher, const T& target, bool expected, const std::string& what)
{
	T t = target;
	const T ct = target;
	mc::check_eq(matcher.matches(t), expected, what, ": direct");
	mc::check_eq(matcher.matches(ct), expected, what, ": direct, constant target");
	mc::check_eq(matcher.matches(t), expected, what, ": direct, repeated");
	mc::check(t == target || t != t, what, ": the target was modified");
	if constexpr (viaMock)
	{
		const auto loc = rec::locs()[0];
		auto run = [&](auto builder, const char* how) {
			mpp::ScopedExpectation e{std::move(builder) and expect::at_most(3), loc};
			return std::pair{std::move(e), how};
		};
		const int form = mc::choose(4);
		mpp::Mock<void(Param)> one{};
		mpp::Mock<void(int, Param)> two{};
		const T again = target;
		auto probe = [&](auto& mock, auto&&... first) {
			T a = target;
			auto pass = [&]() -> bool {
				if constexpr (std::is_rvalue_reference_v<Param>) return accepted(mock, first..., std::move(a));
				else return accepted(mock, first..., a);
			};
			mc::check_eq(pass(), expected, what, ": through a call, form ", form);
			mc::check_eq(pass(), expected, what, ": through a second call, form ", form);
			mc::check(a == target || a != a, what, ": the argument was modified");
		};
		if (form == 0) { auto e = run(one.expect_call(matcher), "positional"); probe(one); }
		else if (form == 1) { auto e = run(one.expect_call(m::_) and expect::arg<0>(M{matcher}), "arg<0>"); probe(one); }
		else if (form == 2) { auto e = run(two.expect_call(m::_, matcher), "second"); probe(two, 5); }
		else { auto e = run(two.expect_call(5, m::_) and expect::arg<1>(matcher, [](auto& x) -> const auto& { return x; }), "projected"); probe(two, 5); }
	}
}

template <int R, int N, typename T, typename Op, bool viaMock, typename Param>
static void relation(const T& target, const Op& operand)
{
	const bool asLvalue = N > 0 && mc::choose_bool();
	const bool plain = holds(R, target, operand);
	const bool expected = (N % 2 == 0) == plain;
	const std::string text = relText[N % 2 ? complement[R] : R];
	const std::string what = std::string(relText[R]) + " negated " + std::to_string(N) + " time(s)" + (asLvalue ? " as lvalue" : "");
	negated<N>(make<R>(operand), asLvalue, [&](auto& matcher) {
		const std::string d = matcher.describe();
		const std::string wanted = text + " " + mpp::print(operand);
		mc::check_eq(d, wanted, what, ": description");
		verdicts<Param, viaMock>(matcher, target, expected, what);
		mc::check_eq(std::string(matcher.describe()), wanted, what, ": description after matching");
	});
}

template <typename T, typename Op, bool viaMock, typename Param = T>
static void relations(const std::vector<T>& targets, const std::vector<Op>& operands)
{
	rec::reset();
	const T& target = mc::pick_from(targets);
	const Op& operand = mc::pick_from(operands);
	const int r = mc::choose(6), n = mc::choose(viaMock ? 2 : 4);
	mc::note("relation ", relText[r], ", negations ", n);
	auto go = [&]<int N> {
		switch (r)
		{
		case 0: return relation<0, N, T, Op, viaMock, Param>(target, operand);
		case 1: return relation<1, N, T, Op, viaMock, Param>(target, operand);
		case 2: return relation<2, N, T, Op, viaMock, Param>(target, operand);
		case 3: return relation<3, N, T, Op, viaMock, Param>(target, operand);
		case 4: return relation<4, N, T, Op, viaMock, Param>(target, operand);
		default: return relation<5, N, T, Op, viaMock, Param>(target, operand);
		}
	};
	switch (n)
	{
	case 0: return go.template operator()<0>();
	case 1: return go.template operator()<1>();
	default:
		if constexpr (!viaMock)
		{
			if (n == 2) return go.template operator()<2>();
			return go.template operator()<3>();
		}
	}
}

// only partially ordered: no pair is related unless x agrees
struct Liar
{
	static inline Liar* claim = nullptr;
	int v{7};
	Liar* operator&() { return claim; }
	const Liar* operator&() const { return claim; }
};

struct Partial
{
	int x, y;
	friend bool operator==(const Partial& a, const Partial& b) { return a.x == b.x && a.y == b.y; }
	friend std::partial_ordering operator<=>(const Partial& a, const Partial& b)
	{
		if (a.x != b.x) return std::partial_ordering::unordered;
		return a.y <=> b.y;
	}
};

struct First { int a{}; virtual ~First() = default; };
struct Second { int b{}; virtual ~Second() = default; };
struct Shared { int c{}; };
struct Whole : First, Second, virtual Shared {};

// the other matchers
static void others()
{
	rec::reset();
	const int n = mc::choose(4);
	const bool asLvalue = n > 0 && mc::choose_bool();
	auto all = [&](auto matcher, auto fn) {
		switch (n)
		{
		case 0: return negated<0>(std::move(matcher), asLvalue, fn);
		case 1: return negated<1>(std::move(matcher), asLvalue, fn);
		case 2: return negated<2>(std::move(matcher), asLvalue, fn);
		default: return negated<3>(std::move(matcher), asLvalue, fn);
		}
	};
	const bool odd = n % 2;
	switch (mc::choose(9))
	{
	case 8: // base parts are the instance, whole objects the target
	{
		Whole objs[2]{};
		const int k = mc::choose(2), t = mc::choose(2);
		auto check = [&](auto& part) {
			all(m::instance(part), [&](auto& x) {
				mc::check_eq(x.matches(objs[t]), (k == t) != odd, "instance of a base part");
				mpp::Mock<void(Whole&)> mock{};
				mpp::ScopedExpectation e{mock.expect_call(x) and expect::at_least(0)};
				mc::check_eq(accepted(mock, objs[t]), (k == t) != odd, "instance of a base part through a call");
				mpp::Mock<void(const Whole&)> cmock{};
				mpp::ScopedExpectation ce{cmock.expect_call(x) and expect::at_least(0)};
				mc::check_eq(accepted(cmock, objs[t]), (k == t) != odd, "instance of a base part through a call by constant reference");
			});
		};
		switch (mc::choose(4))
		{
		case 0: check(static_cast<First&>(objs[k])); break;
		case 1: check(static_cast<Second&>(objs[k])); break;
		case 2: check(static_cast<const Second&>(objs[k])); break;
		default: check(static_cast<Shared&>(objs[k])); break;
		}
		break;
	}
	case 7: // identity of objects that lie about their address
	{
		Liar objs[2];
		const int k = mc::choose(2), t = mc::choose(2);
		Liar::claim = mc::choose_bool() ? std::addressof(objs[k]) : nullptr;
		all(m::instance(objs[k]), [&](auto& x) {
			mc::check_eq(x.matches(objs[t]), (k == t) != odd, "instance of a type with its own operator&");
			mpp::Mock<void(Liar&)> mock{};
			mpp::ScopedExpectation e{mock.expect_call(x) and expect::at_least(0)};
			mc::check_eq(accepted(mock, objs[t]), (k == t) != odd, "instance of a type with its own operator& through a call");
		});
		break;
	}
	case 0: // identity
	{
		int objs[3] = {7, 7, 8};
		const int k = mc::choose(3), t = mc::choose(3);
		mc::note("instance ", k, " against ", t);
		all(m::instance(objs[k]), [&](auto& x) {
			mc::check_eq(x.matches(objs[t]), (k == t) != odd, "instance");
			mc::check_eq(x.matches(std::as_const(objs[t])), (k == t) != odd, "instance, constant target");
			const std::string d = x.describe();
			mc::check(d.find("instance") != d.npos && (d.find("not") != d.npos) == odd, "instance: description '", d, "'");
			mpp::Mock<void(int&)> mock{};
			mpp::ScopedExpectation e{mock.expect_call(x) and expect::at_least(0)};
			mc::check_eq(accepted(mock, objs[t]), (k == t) != odd, "instance through a call");
			mpp::Mock<void(const int&)> cmock{};
			mpp::ScopedExpectation ce{cmock.expect_call(x) and expect::at_least(0)};
			mc::check_eq(accepted(cmock, objs[t]), (k == t) != odd, "instance through a call by constant reference");
		});
		break;
	}
	case 1: // constant instances, of equal value
	{
		const std::string objs[2] = {"a", "a"};
		const int k = mc::choose(2), t = mc::choose(2);
		all(m::instance(objs[k]), [&](auto& x) { mc::check_eq(x.matches(objs[t]), (k == t) != odd, "instance of constant"); });
		break;
	}
	case 2: // predicate, with state and own descriptions
	{
		const int mask = mc::choose(8), v = mc::choose(3);
		const bool custom = mc::choose_bool();
		auto fn = [mask](const int& i) { return mask >> i & 1; };
		auto test = [&](auto& x) {
			int t = v;
			mc::check_eq(x.matches(t), ((mask >> v & 1) != 0) != odd, "predicate");
			mc::check_eq(std::string(x.describe()), std::string(custom ? (odd ? "no" : "yes") : (odd ? "fails predicate" : "passes predicate")), "predicate: description");
		};
		if (custom) all(m::predicate(fn, "yes", "no"), test);
		else all(m::predicate(fn), test);
		break;
	}
	case 3: // member pointers and references as predicates
	{
		struct S { bool b; bool get() const { return b; } };
		S s{mc::choose_bool()};
		if (mc::choose_bool()) all(m::predicate(&S::b), [&](auto& x) { mc::check_eq(x.matches(s), s.b != odd, "data member predicate"); });
		else all(m::predicate(&S::get), [&](auto& x) { mc::check_eq(x.matches(s), s.b != odd, "member function predicate"); });
		break;
	}
	case 4: // wildcard accepts everything
	{
		int i = mc::choose(3); const std::string s; std::unique_ptr<int> u;
		mc::check(m::_.matches(i) && m::_.matches(s) && m::_.matches(u), "wildcard");
		mpp::Mock<void(std::unique_ptr<int>, int&, const std::string&)> mock{};
		mpp::ScopedExpectation e{mock.expect_call(m::_, m::_, m::_)};
		mc::check(accepted(mock, std::make_unique<int>(3), i, s), "wildcard through a call");
		break;
	}
	case 5: // a move-only argument stays intact while it is matched
	{
		const int want = mc::choose(2), have = mc::choose(2);
		mpp::Mock<int(std::unique_ptr<int>)> mock{};
		all(m::predicate([want](const std::unique_ptr<int>& p) { return p && *p == want; }), [&](auto& x) {
			mpp::ScopedExpectation e{mock.expect_call(std::move(x)) and expect::at_most(1)
				and mpp::finally::returns_apply_all_result_of([](std::unique_ptr<int>& p) { return p ? *p : -1; })};
			bool ok = true; int r = have;
			try { r = mock(std::make_unique<int>(have)); } catch (const rec::NoMatch&) { ok = false; }
			mc::check_eq(ok, (want == have) != odd, "predicate on move-only argument");
			mc::check_eq(r, have, "the argument after matching");
		});
		break;
	}
	default: // one matcher copied into several expectations
	{
		const int v = mc::choose(3), w = mc::choose(3);
		all(m::ge(v), [&](auto& x) {
			auto copy = x;
			mpp::Mock<void(int)> a{}, b{};
			mpp::ScopedExpectation ea{a.expect_call(x) and expect::at_least(0)};
			mpp::ScopedExpectation eb{b.expect_call(std::move(x)) and expect::at_least(0)};
			mc::check_eq(accepted(a, w), (w >= v) != odd, "copied matcher");
			mc::check_eq(accepted(b, w), (w >= v) != odd, "moved matcher");
			mc::check_eq(copy.matches(w), (w >= v) != odd, "kept matcher");
		});
	}
	}
}

template <typename Param, typename Arg>
static bool plainString(const std::string& text, const Arg& a)
{
	mpp::Mock<void(Param)> mock{};
	mpp::ScopedExpectation e{mock.expect_call(a) and expect::at_least(0)};
	if constexpr (std::same_as<Param, const char*>)
	{
		const std::string copy = text;
		return accepted(mock, copy.c_str());
	}
	else return accepted(mock, Param{text});
}

template <typename Param>
static void plainStringForms(const std::string& target, const std::string& wanted)
{
	const bool expected = target == wanted;
	std::string keep = wanted;
	char buffer[8]{};
	std::strcpy(buffer, wanted.c_str());
	switch (mc::choose(5))
	{
	case 0: mc::check_eq(plainString<Param>(target, wanted), expected, "plain std::string"); break;
	case 1: mc::check_eq(plainString<Param>(target, std::string_view{keep}), expected, "plain string_view"); break;
	case 2: mc::check_eq(plainString<Param>(target, keep.c_str()), expected, "plain const char*"); break;
	case 3: mc::check_eq(plainString<Param>(target, buffer), expected, "plain array"); break;
	default:
		if (wanted == "ab") mc::check_eq(plainString<Param>(target, "ab"), expected, "plain literal");
	}
}

static void plain()
{
	rec::reset();
	const std::vector<std::string> texts{"", "a", "ab", "ba", "abc", "AB"};
	switch (mc::choose(5))
	{
	case 0: plainStringForms<std::string>(mc::pick_from(texts), mc::pick_from(texts)); break;
	case 1: plainStringForms<std::string_view>(mc::pick_from(texts), mc::pick_from(texts)); break;
	case 2: plainStringForms<const char*>(mc::pick_from(texts), mc::pick_from(texts)); break;
	case 3:
	{
		const std::vector<std::wstring> w{L"", L"a", L"ab"};
		const auto& t = mc::pick_from(w); const auto& x = mc::pick_from(w);
		mpp::Mock<void(const wchar_t*)> mock{};
		mpp::ScopedExpectation e{mock.expect_call(x) and expect::at_least(0)};
		mc::check_eq(accepted(mock, t.c_str()), t == x, "plain wide string");
		break;
	}
	default:
	{
		const std::vector<long long> v{0, 1, -1, INT_MAX, 0x1'0000'0001ll, LLONG_MIN, LLONG_MAX};
		const long long t = mc::pick_from(v), x = mc::pick_from(v);
		mpp::Mock<void(long long)> mock{};
		mpp::ScopedExpectation e{mock.expect_call(x) and expect::at_least(0)};
		mc::check_eq(accepted(mock, t), t == x, "plain value");
		if (x == 0 || x == 1 || x == -1)
		{
			mpp::Mock<void(long long)> other{};
			mpp::ScopedExpectation f{other.expect_call(static_cast<short>(x)) and expect::at_least(0)};
			mc::check_eq(accepted(other, t), t == x, "plain value of another type");
		}
		int obj[2]{1, 1};
		const int p = mc::choose(2), q = mc::choose(2);
		mpp::Mock<void(const int*)> ptr{};
		mpp::ScopedExpectation g{ptr.expect_call(&obj[p]) and expect::at_least(0)};
		mc::check_eq(accepted(ptr, &obj[q]), p == q, "plain pointer compares addresses");
	}
	}
}

// plain values and relations of any comparable type; the operand is kept by value, whatever happens to its source afterwards
template <typename T, typename Param = T>
static void kept(const std::vector<T>& values)
{
	rec::reset();
	const T target = mc::pick_from(values), wanted = mc::pick_from(values), later = mc::pick_from(values);
	const int form = mc::choose(6);
	mc::note("form ", form, ": argument ", mpp::print(target), ", value ", mpp::print(wanted), ", changed later to ", mpp::print(later));
	mpp::Mock<void(Param)> mock{};
	T source = wanted;
	auto run = [&](auto&& builder, bool expected) {
		mpp::ScopedExpectation e{std::move(builder) and expect::at_least(0)};
		source = later;
		for (int i = 0; i < 2; ++i)
		{
			T arg = target;
			bool got;
			if constexpr (std::is_lvalue_reference_v<Param>) got = accepted(mock, arg);
			else got = accepted(mock, std::move(arg));
			mc::check_eq(got, expected, "call ", i, ", form ", form);
		}
	};
	switch (form)
	{
	case 0: return run(mock.expect_call(source), target == wanted);
	case 1: return run(mock.expect_call(std::as_const(source)), target == wanted);
	case 2: return run(mock.expect_call(T{source}), target == wanted);
	case 3: { auto x = m::eq(source); source = later; return run(mock.expect_call(x), target == wanted); }
	case 4: { auto x = !m::ne(source); source = later; return run(mock.expect_call(!!x), target == wanted); }
	case 5: { auto x = m::ne(std::as_const(source)); return run(mock.expect_call(m::_) and expect::arg<0>(std::move(x)), target != wanted); }
	}
}

enum class Level { low, high };

int main(int argc, char** argv)
{
	const std::vector<int> ints{0, 1, -1, 2, std::numeric_limits<int>::min(), std::numeric_limits<int>::max()};
	const std::vector<long long> wide{0, 1, -1, std::numeric_limits<int>::max(), 0x1'0000'0000ll, 0x1'0000'0001ll, std::numeric_limits<long long>::min()};
	const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
	const std::vector<double> doubles{0., -0., 1.5, -1.5, nan, inf, -inf, std::numeric_limits<double>::denorm_min()};
	const std::vector<std::string> strings{"", "a", "b", "ab", "aa", std::string("a\0", 2), "B"};
	const std::vector<Partial> partial{{0, 0}, {0, 1}, {1, 0}, {1, 1}};
	const std::vector<unsigned char> bytes{0, 1, 127, 128, 255};
	return mc::main(argc, argv, {
#if PART == 9
		{"int", [=] { relations<int, int, false>(ints, ints); }},
		{"int-against-long-long", [=] { relations<int, long long, false>(ints, wide); }},
		{"double", [=] { relations<double, double, false>(doubles, doubles); }},
#elif PART == 14
		{"string", [=] { relations<std::string, std::string, false>(strings, strings); }},
		{"partially-ordered", [=] { relations<Partial, Partial, false>(partial, partial); }},
		{"bytes", [=] { relations<unsigned char, int, false>(bytes, {0, 1, 128, 255, 256, -1}); }},
#elif PART == 10
		{"int-by-value-through-calls", [=] { relations<int, int, true>(ints, ints); }},
		{"double-against-int", [=] { relations<double, int, false>(doubles, {0, 1, -1, 2}); }},
		{"int-against-double", [=] { relations<int, double, false>(ints, doubles); }},
#elif PART == 11
		{"long-long-against-int", [=] { relations<long long, int, false>(wide, ints); }},
		{"string-against-pointer", [=] { relations<std::string, const char*, false>(strings, {"", "a", "ab", "b"}); }},
		{"partially-ordered-by-constant-reference-through-calls", [=] { relations<Partial, Partial, true, const Partial&>(partial, partial); }},
#elif PART == 15
		{"pair", [=] { relations<std::pair<int, std::string>, std::pair<int, std::string>, false>({{0, "a"}, {0, "b"}, {1, "a"}, {1, ""}}, {{0, "a"}, {0, "b"}, {1, "a"}}); }},
		{"tuple-of-one", [=] { relations<std::tuple<int>, std::tuple<int>, false>({{0}, {1}, {-1}}, {{0}, {1}, {-1}}); }},
#elif PART == 16
		{"tuple", [=] { relations<std::tuple<int, double>, std::tuple<int, double>, true, const std::tuple<int, double>&>({{0, 1.}, {1, 0.}, {1, nan}}, {{0, 1.}, {1, 0.}, {1, nan}}); }},
		{"nested-tuple", [=] { relations<std::tuple<std::tuple<int>>, std::tuple<std::tuple<int>>, false>({std::tuple<int>{0}, std::tuple<int>{1}}, {std::tuple<int>{0}, std::tuple<int>{1}}); }},
#elif PART == 17
		{"kept-pair", [=] { kept<std::pair<int, int>>({{0, 0}, {0, 1}, {1, 0}}); }},
		{"kept-tuple", [=] { kept<std::tuple<int, std::string>, const std::tuple<int, std::string>&>({{0, "a"}, {0, "b"}, {1, "a"}}); }},
		{"kept-empty-tuple", [=] { kept<std::tuple<>>({{}, {}}); }},
		{"kept-tuple-of-one", [=] { kept<std::tuple<std::tuple<int>>, std::tuple<std::tuple<int>>&&>({std::tuple<int>{0}, std::tuple<int>{1}}); }},
		{"kept-vector", [=] { kept<std::vector<int>>({{}, {1}, {1, 2}, {2, 1}}); }},
		{"kept-string", [=] { kept<std::string, std::string&>({"", "a", "b", "ab"}); }},
		{"kept-enum", [=] { kept<Level>({Level::low, Level::high}); }},
		{"kept-optional", [=] { kept<std::optional<int>>({std::nullopt, 0, 1}); }},
		{"kept-pointer", [=] { static int a, b; kept<int*>({nullptr, &a, &b}); }},
		{"kept-shared-pointer", [=] { static const std::vector<std::shared_ptr<int>> v{nullptr, std::make_shared<int>(1), std::make_shared<int>(1)}; kept<std::shared_ptr<int>>(v); }},
		{"kept-double", [=] { kept<double>({0., -0., nan, inf}); }},
#elif PART == 12
		{"double-by-rvalue-through-calls", [=] { relations<double, double, true, double&&>({0., 1.5, nan, inf}, {0., 1.5, nan, inf}); }},
#else
		{"others", others},
		{"plain-values", plain},
#endif
	}, 2);
}

#else // ---- conjunctions ----------------------------------------------------------------------------------------

struct Trace { std::vector<std::pair<int, const int*>> seen; };

static auto pred(int mask, int id, Trace* tr)
{
	return m::predicate([mask, id, tr](const int& v) { tr->seen.emplace_back(id, &v); return (mask >> v & 1) != 0; },
		"P" + std::to_string(id), "Q" + std::to_string(id));
}
// projection to another value: 2 - v
struct Mirror { int operator()(const int& v) const { return 2 - v; } };

using MockT = mpp::Mock<void(int&, const int&)>;
using Check = std::function<bool(const int*)>;

struct Req { Check holds; const char* kind; int sees{-1}; }; // sees: which argument object the predicate has to be given
struct Case { Trace tr{}; std::vector<Req> reqs; };

static const int masks[] = {1, 6, 5, 7};

static int anyMask() { return masks[mc::choose(mc::by_tier(3, 4))]; }

template <int kind>
static auto positional(Case& c, int index)
{
	if constexpr (kind == 0)
	{
		c.reqs.push_back({[](const int*) { return true; }, "wildcard"});
		return m::_;
	}
	else if constexpr (kind == 1)
	{
		const int v = mc::choose(2);
		c.reqs.push_back({[v, index](const int* a) { return a[index] == v; }, "value"});
		return v;
	}
	else
	{
		const int mask = anyMask(), id = static_cast<int>(c.reqs.size());
		c.reqs.push_back({[mask, index](const int* a) { return (mask >> a[index] & 1) != 0; }, "predicate", index});
		return pred(mask, id, &c.tr);
	}
}

template <int index, bool mirrored>
static auto extra(Case& c)
{
	const int mask = anyMask(), id = static_cast<int>(c.reqs.size());
	if constexpr (mirrored)
	{
		c.reqs.push_back({[mask](const int* a) { return (mask >> (2 - a[index]) & 1) != 0; }, "projected"});
		return expect::arg<index>(pred(mask, id, &c.tr), Mirror{});
	}
	else
	{
		c.reqs.push_back({[mask](const int* a) { return (mask >> a[index] & 1) != 0; }, "arg", index});
		return expect::arg<index>(!pred(~mask & 7, id, &c.tr));
	}
}

static void finish(Case& c, MockT& mock, mpp::ScopedExpectation e)
{
	for (int x = 0; x < 3; ++x)
		for (int y = 0; y < 3; ++y)
		{
			int a[2] = {x, y};
			bool want = true;
			std::vector<bool> verdict;
			for (auto& r : c.reqs) { verdict.push_back(r.holds(a)); want = want && verdict.back(); }
			c.tr.seen.clear();
			const auto before = rec::log().events.size();
			const bool got = accepted(mock, a[0], std::as_const(a[1]));
			mc::note("call(", x, ",", y, ") ", got ? "accepted" : "rejected");
			mc::check_eq(got, want, "call(", x, ",", y, ") with ", c.reqs.size(), " requirements");
			mc::check(a[0] == x && a[1] == y, "arguments were changed");
			mc::observe(got);
			const auto& ev = rec::log().events.back();
			if (mc::check(rec::log().events.size() == before + 1 && ev.matches.size() == 1, "one report with one expectation"))
			{
				// the wildcard and plain values describe themselves as well: one entry per requirement, in order
				const auto& er = ev.matches[0].expectationReports;
				std::vector<bool> pass;
				for (auto& s : er) if (s.description && s.description->find("arg[") != std::string::npos) pass.push_back(s.isMatching);
				mc::check(pass == verdict, "call(", x, ",", y, "): requirement verdicts in the report");
			}
			for (auto& [id, ptr] : c.tr.seen) // unprojected requirements look at the caller's own objects
				mc::check(c.reqs[id].sees < 0 || ptr == &a[c.reqs[id].sees], "requirement ", id, " was evaluated on another object than argument ", c.reqs[id].sees);
			if (mc::violated()) return;
		}
}

template <int depth, typename Builder>
static void chain(Case& c, MockT& mock, Builder&& b)
{
	const int k = depth > 0 ? mc::choose(5) : 0;
	if (k == 0)
	{
		finish(c, mock, mpp::ScopedExpectation{std::move(b) and expect::at_least(0)});
		return;
	}
	if constexpr (depth > 0)
	{
		switch (k)
		{
		case 1: { auto x = extra<0, false>(c); return chain<depth - 1>(c, mock, std::move(b) and std::move(x)); }
		case 2: { auto x = extra<1, false>(c); return chain<depth - 1>(c, mock, std::move(b) and std::move(x)); }
		case 3: { auto x = extra<0, true>(c); return chain<depth - 1>(c, mock, std::move(b) and std::move(x)); }
		case 4: { auto x = extra<1, true>(c); return chain<depth - 1>(c, mock, std::move(b) and std::move(x)); }
		}
	}
}

static void scenario()
{
	rec::reset();
	Case c;
	MockT mock{};
	auto first = positional<PART / 3>(c, 0);
	auto second = positional<PART % 3>(c, 1);
	chain<DEPTH>(c, mock, mock.expect_call(std::move(first), std::move(second)));
}

int main(int argc, char** argv)
{
	return mc::main(argc, argv, {{"conjunction-" + std::to_string(PART), scenario}}, 3);
}
#endif
