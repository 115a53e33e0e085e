// C12: the range matchers against their definition, on all short ranges.
#include "mc.hpp"
#include "rec.hpp"
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <ranges>
#include <set>
#include <span>
#ifndef PART
#define PART 0
#endif
namespace mpp = mimicpp;
namespace m = mimicpp::matches;
namespace mr = mimicpp::matches::range;
using Vec = std::vector<int>;

static std::vector<Vec> lists(int alphabet, int maxLen)
{
	std::vector<Vec> r{{}};
	for (std::size_t i = 0; i < r.size(); ++i)
	{
		if (static_cast<int>(r[i].size()) >= maxLen) continue;
		for (int c = 0; c < alphabet; ++c) { Vec w = r[i]; w.push_back(c); r.push_back(w); }
	}
	return r;
}
static const Vec& any_list(int alphabet, int maxLen)
{
	static std::map<std::pair<int, int>, std::vector<Vec>> cache;
	auto& l = cache[{alphabet, maxLen}];
	if (l.empty()) l = lists(alphabet, maxLen);
	const Vec& v = mc::pick_from(l);
	std::string s;
	for (int x : v) s += std::to_string(x);
	mc::note("[", s, "]");
	mc::state(s);
	return v;
}

template <typename C>
static Vec values(const C& c) { Vec r; for (auto&& x : c) r.push_back(static_cast<int>(x)); return r; }

// all forms of a target holding the values
template <typename M>
static void probe(const M& matcher, const Vec& v, bool want, const std::string& what)
{
	Vec vec = v;
	mc::check_eq(matcher.matches(vec), want, what, " vector");
	mc::check_eq(matcher.matches(std::as_const(vec)), want, what, " constant vector");
	mc::check_eq(matcher.matches(vec), want, what, " vector again");
	mc::check(vec == v, what, ": the target was modified");
#if PART == 0 || PART == 1
	std::list<int> l(v.begin(), v.end());
	mc::check_eq(matcher.matches(l), want, what, " list");
	mc::check(values(l) == v, what, ": the list was modified");
	std::forward_list<int> fl(v.begin(), v.end());
	mc::check_eq(matcher.matches(std::as_const(fl)), want, what, " forward_list");
	mc::check(values(fl) == v, what, ": the forward_list was modified");
#endif
	std::deque<int> d(v.begin(), v.end());
	mc::check_eq(matcher.matches(std::as_const(d)), want, what, " deque");
	std::span<int> sp{vec};
	mc::check_eq(matcher.matches(sp), want, what, " span");
	std::span<const int> csp{vec};
	mc::check_eq(matcher.matches(std::as_const(csp)), want, what, " constant span");
	if (v.size() == 3)
	{
		const int arr[3] = {v[0], v[1], v[2]};
		mc::check_eq(matcher.matches(arr), want, what, " array");
	}
#if PART == 0 || PART == 1
	// only iterable when mutable
	auto f = std::views::filter(vec, [](int) { return true; });
	mc::check_eq(matcher.matches(f), want, what, " filter view");
#endif
	mc::check(vec == v, what, ": the target was modified");
	mc::observe(want);
}

template <typename M>
static void both(M matcher, const Vec& v, bool want, const std::string& what)
{
	probe(matcher, v, want, what);
	if constexpr (requires(const M& m) { !m; })
	{
		auto c = !std::as_const(matcher);
		probe(c, v, !want, "not " + what + " (copied)");
		probe(matcher, v, want, what + " after a negation");
	}
	auto n = !std::move(matcher);
	probe(n, v, !want, "not " + what);
	auto nn = !std::move(n);
	probe(nn, v, want, "not not " + what);
}

// larger ranges that differ from a base in one place (at every position), or in their order
[[maybe_unused]] static Vec base_of(int n, int alphabet) { Vec v; for (int i = 0; i < n; ++i) v.push_back((i * 7 + i / 5) % alphabet); return v; }
static int big_size() { return mc::pick_from(mc::by_tier(std::vector<int>{9, 17, 33, 130}, std::vector<int>{8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 130, 258, 300})); }
static Vec altered(const Vec& base)
{
	Vec t = base;
	const int n = static_cast<int>(t.size());
	const int how = mc::choose(6);
	const int at = how < 3 ? mc::choose(n) : 0;
	mc::note(n, " elements, alteration ", how, " at ", at);
	switch (how)
	{
	case 0: t[static_cast<std::size_t>(at)] += 1; break;
	case 1: std::swap(t[static_cast<std::size_t>(at)], t[static_cast<std::size_t>((at * 5 + 1) % n)]); break;
	case 2: t.erase(t.begin() + at); if (mc::choose_bool()) t.push_back(t[static_cast<std::size_t>(at) % t.size()]); break;
	case 3: std::reverse(t.begin(), t.end()); break;
	case 4: t.push_back(0); break;
	default: break;
	}
	return t;
}

// very large ranges, altered at the ends or in the middle
[[maybe_unused]] static Vec altered_huge(const Vec& base)
{
	Vec t = base;
	const std::size_t n = t.size(), at = std::array<std::size_t, 3>{0, n / 2, n - 1}[static_cast<std::size_t>(mc::choose(3))];
	const int how = mc::choose(3);
	mc::note(n, " elements, alteration ", how, " at ", at);
	if (how == 0) t[at] += 1;
	else if (how == 1) t.erase(t.begin() + static_cast<std::ptrdiff_t>(at));
	return t;
}

struct Modulo { int n; bool operator()(int a, int b) const { return a % n == b % n; } };
struct NoCopy // comparators may be move-only
{
	std::unique_ptr<int> n;
	bool operator()(int a, int b) const { return a % *n == b % *n; }
};

template <typename C>
static bool equal(const Vec& a, const Vec& b, C c)
{
	if (a.size() != b.size()) return false;
	for (std::size_t i = 0; i < a.size(); ++i) if (!c(a[i], b[i])) return false;
	return true;
}
template <typename C>
static bool permutation(const Vec& a, Vec b, C c) // c is an equivalence
{
	if (a.size() != b.size()) return false;
	for (int x : a)
	{
		std::size_t k = 0;
		while (k < b.size() && !c(x, b[k])) ++k;
		if (k == b.size()) return false;
		b.erase(b.begin() + static_cast<long>(k));
	}
	return true;
}

[[maybe_unused]] static std::string braces(const Vec& v)
{
	std::string s = "{ ";
	for (std::size_t i = 0; i < v.size(); ++i) s += (i ? ", " : "") + std::to_string(v[i]);
	return s + " }";
}

#if PART == 0 || PART == 1
template <bool ordered, typename E, typename... C>
static auto make(E&& e, C&&... c)
{
	if constexpr (ordered) return mr::eq(std::forward<E>(e), std::forward<C>(c)...);
	else return mr::unordered_eq(std::forward<E>(e), std::forward<C>(c)...);
}

// elements of another type than expected, compared as the language compares them
static void mixed()
{
	constexpr bool ordered = PART == 0;
	auto run = [&]<typename A, typename B>(const std::vector<A>& as, const std::vector<B>& bs) {
		std::vector<A> t(static_cast<std::size_t>(mc::choose(3)));
		std::vector<B> e(static_cast<std::size_t>(mc::choose(3)));
		for (auto& x : t) x = mc::pick_from(as);
		for (auto& x : e) x = mc::pick_from(bs);
		bool want = t.size() == e.size();
		if (want)
		{
			std::vector<std::size_t> order(t.size());
			for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
			bool any = false;
			do
			{
				bool all = true;
				for (std::size_t i = 0; i < order.size(); ++i) all = all && t[i] == e[order[i]];
				any = any || all;
			} while (!ordered && std::next_permutation(order.begin(), order.end()));
			want = any;
		}
		auto x = make<ordered>(e);
		mc::check_eq(x.matches(t), want, "elements of another type");
		mc::check_eq(x.matches(std::as_const(t)), want, "elements of another type, constant target");
		auto n = !std::move(x);
		mc::check_eq(n.matches(t), !want, "elements of another type, negated");
		mc::observe(want);
	};
	switch (mc::choose(4))
	{
	case 0: run(std::vector<double>{0., 1., 1.5, 0.5}, std::vector<int>{0, 1}); break;
	case 1: run(std::vector<int>{0, 1}, std::vector<double>{0., 1., 1.5, 0.5}); break;
	case 2: run(std::vector<long long>{0, 1, 0x1'0000'0000ll, 0x1'0000'0001ll}, std::vector<int>{0, 1}); break;
	default: run(std::vector<int>{0, 1, 256}, std::vector<unsigned char>{0, 1}); break;
	}
}

static void comparison(const Vec& t, const Vec& e)
{
	constexpr bool ordered = PART == 0;
	auto expected = [&](auto c) { return ordered ? equal(t, e, c) : permutation(t, e, c); };
	const std::string name = ordered ? "eq" : "unordered_eq";
	switch (mc::choose(8))
	{
	case 0: both(make<ordered>(e), t, expected(std::equal_to<>{}), name + " lvalue"); break;
	case 1: both(make<ordered>(Vec{e}), t, expected(std::equal_to<>{}), name + " rvalue"); break;
	case 2: both(make<ordered>(std::span<const int>{e}), t, expected(std::equal_to<>{}), name + " span"); break;
	case 3: { std::forward_list<int> l(e.begin(), e.end()); both(make<ordered>(l), t, expected(std::equal_to<>{}), name + " forward_list"); break; }
	case 4: { const int n = 1 + mc::choose(3); both(make<ordered>(e, Modulo{n}), t, expected(Modulo{n}), name + " modulo " + std::to_string(n)); break; }
	case 5: both(make<ordered>(e, NoCopy{std::make_unique<int>(2)}), t, expected(Modulo{2}), name + " move-only comparator"); break;
	case 6:
		if constexpr (ordered) // the comparator gets (target element, expected element)
			both(make<ordered>(e, std::less<>{}), t, expected(std::less<>{}), "eq less");
		else
		{
			auto copy = make<ordered>(e); // copyable when nothing is owned
			auto other = copy;
			auto neg = !copy;
			probe(other, t, expected(std::equal_to<>{}), name + " copied");
			probe(neg, t, !expected(std::equal_to<>{}), name + " negated copy");
			probe(copy, t, expected(std::equal_to<>{}), name + " original");
		}
		break;
	default:
	{
		auto x = make<ordered>(Vec{e});
		mc::check_eq(std::string(x.describe()), (ordered ? "elements are " : "is a permutation of ") + mpp::print(e), name, ": description");
		auto n = !std::move(x);
		mc::check_eq(std::string(n.describe()), (ordered ? "elements are not " : "is not a permutation of ") + mpp::print(e), name, ": negated description");
		mc::check_eq(std::string((!std::move(n)).describe()), (ordered ? "elements are " : "is a permutation of ") + mpp::print(e), name, ": description negated twice");
	}
	}
}
#elif PART == 2
struct ByModulo { int n; bool operator()(int a, int b) const { return a % n < b % n; } };

static void sorted()
{
	Vec t;
	if (mc::choose_bool()) t = any_list(3, mc::by_tier(6, 8));
	else
	{
		Vec b = base_of(big_size(), 5);
		std::sort(b.begin(), b.end());
		if (mc::choose_bool()) std::reverse(b.begin(), b.end());
		t = altered(b);
	}
	auto expected = [&](auto rel) {
		for (std::size_t i = 1; i < t.size(); ++i) if (rel(t[i], t[i - 1])) return false;
		return true;
	};
	switch (mc::choose(5))
	{
	case 0: both(mr::is_sorted(), t, expected(std::less<>{}), "is_sorted"); break;
	case 1: both(mr::is_sorted(std::less<>{}), t, expected(std::less<>{}), "is_sorted less"); break;
	case 2: both(mr::is_sorted(std::greater<>{}), t, expected(std::greater<>{}), "is_sorted greater"); break;
	case 3: both(mr::is_sorted(ByModulo{2}), t, expected(ByModulo{2}), "is_sorted modulo"); break;
	default:
		mc::check(std::string(mr::is_sorted().describe()) == "is a sorted range" && std::string((!mr::is_sorted()).describe()) == "is an unsorted range", "is_sorted: descriptions");
	}
}

template <typename N>
static void size_of(const Vec& t, N n)
{
	const bool want = std::cmp_equal(t.size(), n);
	auto x = mr::has_size(n);
	both(x, t, want, "has_size " + std::to_string(n));
	const std::string num = mpp::print(n);
	mc::check_eq(std::string(x.describe()), "has size of " + num, "has_size: description");
	mc::check_eq(std::string((!x).describe()), "has different size than " + num, "has_size: negated description");
}

struct Huge // claims any size
{
	std::size_t n;
	const int* begin() const { return nullptr; }
	const int* end() const { return nullptr; }
	std::size_t size() const { return n; }
};
template <typename N>
static void huge_size_of(std::size_t size, N n)
{
	const Huge t{size};
	const bool want = std::cmp_equal(size, n);
	mc::check_eq(mr::has_size(n).matches(t), want, "has_size ", mpp::print(n), " of a range of size ", size);
	mc::check_eq((!mr::has_size(n)).matches(t), !want, "not has_size ", mpp::print(n), " of a range of size ", size);
	auto x = mr::has_size(n);
	mc::check_eq((!!x).matches(t), want, "not not has_size");
}
static void huge_sizes()
{
	const auto size = mc::pick_from(std::vector<std::size_t>{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fff'ffff, 0x8000'0000, 0xffff'ffff, 0x1'0000'0000, 0x7fff'ffff'ffff'ffff, 0x8000'0000'0000'0000, SIZE_MAX - 1, SIZE_MAX});
	const auto n = mc::pick_from(std::vector<std::size_t>{0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fff'ffff, 0x8000'0000, 0xffff'ffff, 0x1'0000'0000, 0x7fff'ffff'ffff'ffff, 0x8000'0000'0000'0000, SIZE_MAX - 1, SIZE_MAX});
	switch (mc::choose(8))
	{
	case 0: huge_size_of(size, static_cast<signed char>(n)); break;
	case 1: huge_size_of(size, static_cast<unsigned char>(n)); break;
	case 2: huge_size_of(size, static_cast<short>(n)); break;
	case 3: huge_size_of(size, static_cast<unsigned short>(n)); break;
	case 4: huge_size_of(size, static_cast<int>(n)); break;
	case 5: huge_size_of(size, static_cast<unsigned>(n)); break;
	case 6: huge_size_of(size, static_cast<long long>(n)); break;
	default: huge_size_of(size, n);
	}
}

static void sizes()
{
	const bool big = mc::choose_bool();
	const Vec t = big ? Vec(mc::pick_from(std::vector<std::size_t>{255, 256, 257, 65536}), 1) : any_list(2, 4);
	switch (mc::choose(7))
	{
	case 0: both(mr::is_empty(), t, t.empty(), "is_empty"); break;
	case 1: size_of(t, mc::pick_from(std::vector<int>{0, 1, 2, 3, 4, 5, -1, INT_MIN, INT_MAX, 255, 256})); break;
	case 2: size_of(t, mc::pick_from(std::vector<std::size_t>{0, 1, 2, 3, 4, 255, 256, 65536, SIZE_MAX})); break;
	case 3: size_of(t, mc::pick_from(std::vector<signed char>{0, 1, 2, -1, -2, 127})); break;
	case 4: size_of(t, mc::pick_from(std::vector<long long>{0, 1, 2, -1, 0x1'0000'0000ll, 0x1'0000'0001ll})); break;
	case 5: size_of(t, mc::pick_from(std::vector<unsigned short>{0, 1, 2, 255, 256, 65535})); break;
	default:
		mc::check(std::string(mr::is_empty().describe()) == "is an empty range" && std::string((!mr::is_empty()).describe()) == "is not an empty range", "is_empty: descriptions");
	}
}
#else
// quantifiers
template <bool each, typename I>
static auto quant(I&& inner)
{
	if constexpr (each) return mr::each_element(std::forward<I>(inner));
	else return mr::any_element(std::forward<I>(inner));
}

struct Traited { int mask; };
template <>
struct mimicpp::custom::matcher_traits<Traited>
{
	template <typename T>
	bool matches(const Traited& t, T& v) const { return (t.mask >> v & 1) != 0; }
	mimicpp::StringT describe(const Traited& t) const { return "traited " + std::to_string(t.mask); }
};
struct Membered
{
	int mask;
	bool matches(const int& v) const { return (mask >> v & 1) != 0; }
	mimicpp::StringT describe() const { return "membered " + std::to_string(mask); }
};

template <bool each>
static void quantify(const Vec& t)
{
	auto expected = [&](auto pred) {
		for (int x : t) if (pred(x) != each) return !each;
		return each;
	};
	const std::string name = each ? "each_element" : "any_element";
	const std::string yes = each ? "each el in range: el " : "any el in range: el ";
	const std::string no = each ? "not each el in range: el " : "none el in range: el ";
	auto described = [&](const auto& q, const std::string& inner) {
		mc::check_eq(std::string(q.describe()), yes + inner, name, ": description");
		mc::check_eq(std::string((!q).describe()), no + inner, name, ": negated description");
	};
	const int mask = mc::choose(8);
	auto in = [mask](int v) { return (mask >> v & 1) != 0; };
	switch (mc::choose(9))
	{
	case 0: // an lvalue matcher stays usable, and may be used several times
	{
		auto inner = m::predicate([p = std::make_shared<int>(mask)](const int& v) { return (*p >> v & 1) != 0; }, "in", "out");
		auto q = quant<each>(inner);
		auto r = quant<each>(inner);
		both(q, t, expected(in), name + " lvalue");
		both(r, t, expected(in), name + " lvalue reused");
		for (int v = 0; v < 3; ++v) mc::check_eq(inner.matches(v), in(v), name, ": the inner matcher afterwards");
		described(q, "in");
		break;
	}
	case 1:
	{
		const auto inner = !m::predicate([mask](const int& v) { return (mask >> v & 1) == 0; }, "out", "in");
		auto q = quant<each>(inner);
		both(q, t, expected(in), name + " constant lvalue");
		described(q, "in");
		break;
	}
	case 2:
	{
		const int c = mc::choose(3);
		both(quant<each>(m::eq(c)), t, expected([c](int v) { return v == c; }), name + " eq");
		both(quant<each>(!m::eq(c)), t, expected([c](int v) { return v != c; }), name + " not eq");
		described(quant<each>(m::eq(c)), "== " + std::to_string(c));
		described(quant<each>(!m::eq(c)), "!= " + std::to_string(c));
		break;
	}
	case 3: both(quant<each>(m::_), t, expected([](int) { return true; }), name + " wildcard"); break;
	case 4:
	{
		const int a = mc::choose(3);
		both(quant<each>(m::ge(a)), t, expected([a](int v) { return v >= a; }), name + " ge");
		both(quant<each>(m::lt(a)), t, expected([a](int v) { return v < a; }), name + " lt");
		break;
	}
	case 5: both(quant<each>(Membered{mask}), t, expected(in), name + " matcher type"); described(quant<each>(Membered{mask}), "membered " + std::to_string(mask)); break;
	case 6: both(quant<each>(Traited{mask}), t, expected(in), name + " matcher by traits"); described(quant<each>(Traited{mask}), "traited " + std::to_string(mask)); break;
	case 7: // move-only elements
	{
		std::vector<std::unique_ptr<int>> u;
		for (int v : t) u.push_back(std::make_unique<int>(v));
		auto q = quant<each>(m::predicate([mask](const std::unique_ptr<int>& v) { return (mask >> *v & 1) != 0; }));
		mc::check_eq(q.matches(u), expected(in), name, " move-only elements");
		mc::check_eq((!q).matches(std::as_const(u)), !expected(in), name, " move-only elements, negated");
		for (std::size_t k = 0; k < t.size(); ++k) mc::check(u[k] && *u[k] == t[k], name, ": elements were modified");
		break;
	}
	default: // nested: the elements are ranges themselves, split at zeros
	{
		std::vector<Vec> vv{{}};
		for (int v : t) { if (v == 0) vv.push_back({}); else vv.back().push_back(v); }
		const int c = 1 + mc::choose(2);
		bool all = true, any = false;
		for (auto& x : vv)
		{
			bool e = true, a = false;
			for (int v : x) { e = e && v == c; a = a || v == c; }
			const bool inner = mask & 1 ? e : a;
			all = all && inner; any = any || inner;
		}
		const bool want = each ? all : any;
		if (mask & 1) mc::check_eq(quant<each>(mr::each_element(m::eq(c))).matches(vv), want, name, " of each");
		else mc::check_eq(quant<each>(mr::any_element(m::eq(c))).matches(vv), want, name, " of any");
		if (mask & 1) mc::check_eq((!quant<each>(mr::each_element(m::eq(c)))).matches(vv), !want, "not ", name, " of each");
		else mc::check_eq((!quant<each>(mr::any_element(m::eq(c)))).matches(vv), !want, "not ", name, " of any");
	}
	}
}

static void calls()
{
	rec::reset();
	const Vec& t = any_list(3, 4);
	auto go = [&](auto mk, bool want, const char* what) {
		const bool neg = mc::choose_bool();
		auto run = [&]<typename P>(auto&& matcher) {
			mpp::Mock<int(P)> mock{};
			mpp::ScopedExpectation e{mock.expect_call(std::move(matcher)) and mpp::expect::at_least(0)
				and mpp::finally::returns_apply_all_result_of([&](auto& r) { return values(r) == t; })};
			for (int k = 0; k < 2; ++k)
			{
				bool ok = true; int intact = 1;
				Vec arg = t;
				try { intact = mock(static_cast<P>(arg)); } catch (const rec::NoMatch&) { ok = false; }
				mc::check_eq(ok, want != neg, what, neg ? " negated" : "", " through a call");
				mc::check_eq(intact, 1, what, ": the argument was modified by matching");
			}
		};
		switch (mc::choose(3))
		{
		case 0: if (neg) run.template operator()<const Vec&>(!mk()); else run.template operator()<const Vec&>(mk()); break;
		case 1: if (neg) run.template operator()<Vec>(!mk()); else run.template operator()<Vec>(mk()); break;
		default: if (neg) run.template operator()<std::span<int>>(!mk()); else run.template operator()<std::span<int>>(mk());
		}
	};
	switch (mc::choose(6))
	{
	case 0: { const Vec& e = any_list(3, 3); go([&] { return mr::eq(Vec{e}); }, t == e, "eq"); break; }
	case 1: { const Vec& e = any_list(2, 3); go([&] { return mr::unordered_eq(e); }, permutation(t, e, std::equal_to<>{}), "unordered_eq"); break; }
	case 2: go([] { return mr::is_sorted(); }, std::is_sorted(t.begin(), t.end()), "is_sorted"); break;
	case 3: { const int n = mc::choose(5); go([&] { return mr::has_size(n); }, static_cast<int>(t.size()) == n, "has_size"); break; }
	case 4: { const int n = mc::choose(3); go([&] { return mr::each_element(m::ne(n)); }, std::count(t.begin(), t.end(), n) == 0, "each_element"); break; }
	default: { const int n = mc::choose(3); go([&] { return mr::any_element(m::eq(n)); }, std::count(t.begin(), t.end(), n) != 0, "any_element"); }
	}
}
#endif

int main(int argc, char** argv)
{
	using mc::by_tier;
	return mc::main(argc, argv, {
#if PART == 0 || PART == 1
		{PART == 0 ? "eq" : "unordered_eq", [] { comparison(any_list(3, by_tier(5, 6)), any_list(3, by_tier(4, 5))); }},
		{PART == 0 ? "eq-two-values" : "unordered_eq-two-values", [] { comparison(any_list(2, by_tier(6, 8)), any_list(2, by_tier(6, 8))); }},
		{PART == 0 ? "eq-four-values" : "unordered_eq-four-values", [] { comparison(any_list(4, by_tier(4, 5)), any_list(4, by_tier(4, 4))); }},
		{PART == 0 ? "eq-big" : "unordered_eq-big", [] { const Vec e = base_of(big_size(), mc::choose_bool() ? 3 : 1000); const Vec t = altered(e); comparison(t, e); }},
		{PART == 0 ? "eq-other-element-type" : "unordered_eq-other-element-type", mixed},
#if PART == 0
		{"eq-huge", [] { const Vec e = base_of(70000, 1000); comparison(altered_huge(e), e); }},
#endif
#elif PART == 2
		{"is_sorted", sorted},
		{"sizes", sizes},
		{"huge-sizes", huge_sizes},
#elif PART == 3
		{"each_element-huge", [] { quantify<true>(altered_huge(Vec(70000, mc::choose(2)))); }},
		{"each_element-big", [] { const Vec t = altered(Vec(static_cast<std::size_t>(big_size()), mc::choose(2))); quantify<true>(t); }},
		{"each_element", [] { quantify<true>(any_list(3, by_tier(5, 7))); }},
#elif PART == 4
		{"any_element-huge", [] { quantify<false>(altered_huge(Vec(70000, mc::choose(2)))); }},
		{"any_element-big", [] { const Vec t = altered(Vec(static_cast<std::size_t>(big_size()), mc::choose(2))); quantify<false>(t); }},
		{"any_element", [] { quantify<false>(any_list(3, by_tier(5, 7))); }},
#else
		{"calls", calls},
#endif
	}, 1);
}
