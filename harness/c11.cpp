// C11: the string matchers against the textbook relation, on all pairs of short strings.
//   PART selects the form of the target (char) or another character type.
#include "mc.hpp"
#include "rec.hpp"
#include <memory>
#ifndef PART
#define PART 0
#endif
namespace mpp = mimicpp;
namespace str = mimicpp::matches::str;

// a user-defined string type
template <typename C>
struct Text { std::basic_string<C> s; };
template <typename C>
struct mimicpp::string_traits<Text<C>>
{
	using char_t = C;
	using string_t = Text<C>;
	static constexpr std::basic_string_view<C> view(const Text<C>& t) noexcept { return t.s; }
};

// a user-defined case folding that changes lengths: 'A' -> 'a', 'B' -> "aa", 'C' -> nothing
template <>
struct mimicpp::string_case_fold_converter<wchar_t>
{
	template <typename String>
	std::wstring operator()(String&& s) const
	{
		std::wstring r;
		for (wchar_t c : s)
		{
			if (c == L'A') r += L'a';
			else if (c == L'B') r += L"aa";
			else if (c != L'C') r += c;
		}
		return r;
	}
};

template <typename C>
using Str = std::basic_string<C>;

template <typename C>
static Str<C> fold(const Str<C>& s)
{
	if constexpr (std::same_as<C, wchar_t>) return mimicpp::string_case_fold_converter<wchar_t>{}(s);
	else
	{
		Str<C> r = s;
		for (C& c : r) if (c >= C('a') && c <= C('z')) c = static_cast<C>(c - 'a' + 'A');
		return r;
	}
}

enum Op { EQ, STARTS, ENDS, CONTAINS };

// by definition, character by character
template <typename C>
static bool relation(int op, const Str<C>& t, const Str<C>& p)
{
	const int n = static_cast<int>(t.size()), k = static_cast<int>(p.size());
	auto at = [&](int off) {
		if (off < 0 || off + k > n) return false;
		for (int i = 0; i < k; ++i) if (t[off + i] != p[i]) return false;
		return true;
	};
	switch (op)
	{
	case EQ: return n == k && at(0);
	case STARTS: return at(0);
	case ENDS: return at(n - k);
	default:
		for (int o = 0; o <= n; ++o) if (at(o)) return true;
		return false;
	}
}

static const char* const texts[2][2][4] = {
	{{"is equal to", "starts with", "ends with", "contains"}, {"is not equal to", "starts not with", "ends not with", "contains not"}},
	{{"is case-insensitively equal to", "case-insensitively starts with", "case-insensitively ends with", "case-insensitively contains"},
	 {"is case-insensitively not equal to", "case-insensitively starts not with", "case-insensitively ends not with", "case-insensitively contains not"}}};

template <int op, bool ci, typename P>
static auto make(P&& p)
{
	if constexpr (ci)
	{
		if constexpr (op == EQ) return str::eq(std::forward<P>(p), mpp::case_insensitive);
		else if constexpr (op == STARTS) return str::starts_with(std::forward<P>(p), mpp::case_insensitive);
		else if constexpr (op == ENDS) return str::ends_with(std::forward<P>(p), mpp::case_insensitive);
		else return str::contains(std::forward<P>(p), mpp::case_insensitive);
	}
	else
	{
		if constexpr (op == EQ) return str::eq(std::forward<P>(p));
		else if constexpr (op == STARTS) return str::starts_with(std::forward<P>(p));
		else if constexpr (op == ENDS) return str::ends_with(std::forward<P>(p));
		else return str::contains(std::forward<P>(p));
	}
}

// the text lives in an exactly sized heap block, or surrounded by characters that would complete a match
template <typename C>
struct Storage
{
	std::unique_ptr<C[]> buf;
	std::size_t off, n;
	Storage(const Str<C>& s, bool surrounded)
		: off(surrounded ? 2 : 0), n(s.size())
	{
		buf.reset(new C[n + 2 * off]);
		for (std::size_t i = 0; i < n; ++i) buf[off + i] = s[i];
		if (surrounded)
		{
			// repeat the text around itself
			for (int k = 0; k < 2; ++k)
			{
				buf[k] = n ? s[(n - 2 % n + k) % n] : C('a');
				buf[off + n + k] = n ? s[k % n] : C('a');
			}
		}
	}
	std::basic_string_view<C> view() const { return {buf.get() + off, n}; }
};

template <typename C, typename T, typename M>
static void probe(const M& m, T&& target, const Str<C>& t, bool want, const char* what)
{
	mc::check_eq(m.matches(target), want, what);
	mc::check_eq(m.matches(std::as_const(target)), want, what, " (constant target)");
}

template <typename C, typename Tgt, typename Pat>
static void pair(const Str<C>& t, const Str<C>& p, auto makeTarget, auto makePattern)
{
	auto one = [&]<int op, bool ci> {
		const bool want = ci ? relation<C>(op, fold<C>(t), fold<C>(p)) : relation<C>(op, t, p);
		Tgt target = makeTarget();
		Pat pattern = makePattern();
		auto m = make<op, ci>(pattern);
		const char* const what = texts[ci][0][op];
		probe<C>(m, target, t, want, what);
		const std::string printed = mpp::print(pattern);
		mc::check_eq(std::string(m.describe()), std::string(what) + " " + printed, what, ": description");
		auto n = !m;
		probe<C>(n, target, t, !want, texts[ci][1][op]);
		mc::check_eq(std::string(n.describe()), std::string(texts[ci][1][op]) + " " + printed, what, ": negated description");
		mc::check_eq(m.matches(target), want, what, ": after it has been negated");
		mc::check_eq(std::string(m.describe()), std::string(what) + " " + printed, what, ": description after it has been negated");
		if constexpr (op == STARTS || op == EQ)
		{
			auto nn = !!m;
			probe<C>(nn, target, t, want, "twice negated");
		}
		if constexpr (std::same_as<Pat, Str<C>>)
		{
			pattern = Str<C>(4, C('z')); // the matcher has its own copy
			mc::check_eq(m.matches(target), want, what, ": after the original pattern was changed");
			auto r = make<op, ci>(makePattern()); // rvalue pattern
			mc::check_eq(r.matches(target), want, what, ": rvalue pattern");
		}
		mc::observe(want);
	};
	one.template operator()<EQ, false>();
	one.template operator()<STARTS, false>();
	one.template operator()<ENDS, false>();
	one.template operator()<CONTAINS, false>();
	if constexpr (std::same_as<C, char> || std::same_as<C, wchar_t>)
	{
		one.template operator()<EQ, true>();
		one.template operator()<STARTS, true>();
		one.template operator()<ENDS, true>();
		one.template operator()<CONTAINS, true>();
	}
}

template <typename C>
static std::vector<Str<C>> words(const std::vector<C>& alphabet, int maxLen)
{
	std::vector<Str<C>> r{{}};
	for (std::size_t i = 0; i < r.size(); ++i)
	{
		if (static_cast<int>(r[i].size()) >= maxLen) continue;
		for (C c : alphabet) { Str<C> w = r[i]; w += c; r.push_back(w); }
	}
	return r;
}

template <typename C>
struct Bounds { std::vector<C> alphabet; int target, pattern; };

template <typename C, int form>
static void pairs(const Bounds<C>& b, bool pointersOnly = false)
{
	static std::map<std::pair<int, std::size_t>, std::vector<Str<C>>> cache;
	auto& ts = cache[{b.target, b.alphabet.size()}];
	if (ts.empty()) ts = words<C>(b.alphabet, b.target);
	auto& ps = cache[{b.pattern, b.alphabet.size()}];
	if (ps.empty()) ps = words<C>(b.alphabet, b.pattern);
	const Str<C>& t = mc::pick_from(ts);
	const Str<C>& p = mc::pick_from(ps);
	const bool nul = (t + p).find(C(0)) != Str<C>::npos;
	const bool surrounded = mc::choose_bool();
	mc::note("target '", std::string(t.begin(), t.end()), "' pattern '", std::string(p.begin(), p.end()), "'", surrounded ? " surrounded" : "");
	mc::state(std::string(reinterpret_cast<const char*>(t.data()), t.size() * sizeof(C)) + "|" + std::string(reinterpret_cast<const char*>(p.data()), p.size() * sizeof(C)));
	Storage<C> st(t, surrounded), sp(p, surrounded);
	// zero-terminated copies of exact size
	std::unique_ptr<C[]> zt(new C[t.size() + 1]{}), zp(new C[p.size() + 1]{});
	std::copy(t.begin(), t.end(), zt.get());
	std::copy(p.begin(), p.end(), zp.get());
	using View = std::basic_string_view<C>;
	auto patterns = [&]<typename Tgt>(auto makeTarget) {
		switch (mc::choose(nul ? 3 : 5))
		{
		case 0: return pair<C, Tgt, Str<C>>(t, p, makeTarget, [&] { return p; });
		case 1: return pair<C, Tgt, View>(t, p, makeTarget, [&] { return sp.view(); });
		case 2: return pair<C, Tgt, Text<C>>(t, p, makeTarget, [&] { return Text<C>{p}; });
		case 3: return pair<C, Tgt, const C*>(t, p, makeTarget, [&] { return static_cast<const C*>(zp.get()); });
		default: return pair<C, Tgt, C*>(t, p, makeTarget, [&] { return zp.get(); });
		}
	};
	if constexpr (form == 0) patterns.template operator()<Str<C>>([&] { return t; });
	else if constexpr (form == 1) patterns.template operator()<View>([&] { return st.view(); });
	else if constexpr (form == 2) patterns.template operator()<Text<C>>([&] { return Text<C>{t}; });
	else if constexpr (form == 3) { if (!nul) patterns.template operator()<const C*>([&] { return static_cast<const C*>(zt.get()); }); }
	else { if (!nul) patterns.template operator()<C*>([&] { return zt.get(); }); }
}

// texts around and beyond the sizes of small buffers: a^i x a^j against a^k y a^l
template <typename C, int form>
static void big()
{
#ifdef __SANITIZE_ADDRESS__
	const std::vector<int> sizes{16};
#else
	const std::vector<int> sizes = mc::by_tier(std::vector<int>{15, 16, 17, 33, 300, 4200}, std::vector<int>{14, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 128, 256, 257, 300, 1025, 4097, 5000});
#endif
	auto text = [](int n, int at, C x) { Str<C> s(static_cast<std::size_t>(n), C('a')); if (at < n) s[static_cast<std::size_t>(at)] = x; return s; };
	const int n = mc::pick_from(sizes);
	const int tries = n > 1000 ? 3 : n > 100 ? 6 : std::min(n + 1, 18);
	auto spread = [&](int m) { const int k = std::min(m + 1, tries); return k < 2 ? 0 : mc::choose(k) * m / (k - 1); };
	auto place = [&](int m) { return m < 1000 ? spread(m) : mc::pick_from(std::vector<int>{m / 2, m - 1, m}); };
	const Str<C> t = text(n, place(n), mc::choose_bool() ? C('b') : C('A'));
	const int k = mc::choose(4) == 0 ? n + 1 : spread(n);
	const Str<C> p = text(k, place(k), mc::choose_bool() ? C('b') : C('B'));
	if (n < 1000) mc::note("target '", std::string(t.begin(), t.end()), "' pattern '", std::string(p.begin(), p.end()), "'");
	else mc::note("target of ", t.size(), ", pattern of ", p.size(), " elements");
	if constexpr (form == 0) pair<C, Str<C>, std::basic_string_view<C>>(t, p, [&] { return t; }, [&] { return std::basic_string_view<C>{p}; });
	else if constexpr (form == 1) pair<C, std::basic_string_view<C>, Str<C>>(t, p, [&] { return std::basic_string_view<C>{t}; }, [&] { return p; });
	else pair<C, const C*, const C*>(t, p, [&] { return t.c_str(); }, [&] { return p.c_str(); });
}

// literals and arrays, and matchers inside calls
template <typename Param, typename Fn>
static void through_call(const std::string& t, bool want, const char* what, Fn makeMatcher)
{
	rec::reset();
	mpp::Mock<void(Param)> mock{};
	mpp::ScopedExpectation e{mock.expect_call(makeMatcher()) and mpp::expect::at_least(0)};
	bool ok = true;
	const std::string copy = t;
	try
	{
		if constexpr (std::same_as<Param, const char*>) mock(copy.c_str());
		else mock(Param(copy));
	}
	catch (const rec::NoMatch&) { ok = false; }
	mc::check_eq(ok, want, what, " through a call");
}

template <typename Param>
static void calls()
{
	static const auto ts = words<char>({'a', 'b', 'B'}, 3);
	static const auto ps = words<char>({'a', 'B'}, 2);
	const std::string& t = mc::pick_from(ts);
	const std::string& p = mc::pick_from(ps);
	const bool ci = mc::choose_bool(), neg = mc::choose_bool();
	const int op = mc::choose(4);
	mc::note(texts[ci][neg][op], " '", p, "' for '", t, "'");
	const bool want = (ci ? relation<char>(op, fold<char>(t), fold<char>(p)) : relation<char>(op, t, p)) != neg;
	auto run = [&]<int o, bool c> {
		if (neg) through_call<Param>(t, want, texts[ci][neg][op], [&] { return !make<o, c>(p); });
		else through_call<Param>(t, want, texts[ci][neg][op], [&] { return make<o, c>(p); });
	};
	switch (op * 2 + ci)
	{
	case 0: return run.template operator()<EQ, false>();
	case 1: return run.template operator()<EQ, true>();
	case 2: return run.template operator()<STARTS, false>();
	case 3: return run.template operator()<STARTS, true>();
	case 4: return run.template operator()<ENDS, false>();
	case 5: return run.template operator()<ENDS, true>();
	case 6: return run.template operator()<CONTAINS, false>();
	default: return run.template operator()<CONTAINS, true>();
	}
}

static void literals()
{
	static const auto ts = words<char>({'a', 'b', 'A'}, 4);
	const std::string& t = mc::pick_from(ts);
	auto all = [&](const auto& lit) {
		const std::string p{lit};
		mc::check_eq(str::eq(lit).matches(t), relation<char>(EQ, t, p), "literal eq");
		mc::check_eq(str::starts_with(lit).matches(t), relation<char>(STARTS, t, p), "literal starts_with");
		mc::check_eq(str::ends_with(lit).matches(t), relation<char>(ENDS, t, p), "literal ends_with");
		mc::check_eq(str::contains(lit).matches(t), relation<char>(CONTAINS, t, p), "literal contains");
		mc::check_eq(str::eq(lit, mpp::case_insensitive).matches(t), relation<char>(EQ, fold<char>(t), fold<char>(p)), "literal eq, case-insensitive");
		mc::check_eq(str::contains(lit, mpp::case_insensitive).matches(t), relation<char>(CONTAINS, fold<char>(t), fold<char>(p)), "literal contains, case-insensitive");
		char array[8] = "xxxxxxx"; // the target is an array that continues behind its terminator
		std::memcpy(array, t.c_str(), t.size() + 1);
		mc::check_eq(str::eq(lit).matches(array), relation<char>(EQ, t, p), "array target eq");
		mc::check_eq(str::ends_with(lit).matches(array), relation<char>(ENDS, t, p), "array target ends_with");
		mc::check_eq(str::contains(lit).matches(array), relation<char>(CONTAINS, t, p), "array target contains");
	};
	switch (mc::choose(6))
	{
	case 0: return all("");
	case 1: return all("a");
	case 2: return all("ab");
	case 3: return all("aab");
	case 4: return all("abab");
	default: return all("ababa");
	}
}

int main(int argc, char** argv)
{
	using mc::by_tier;
#ifdef __SANITIZE_ADDRESS__
	constexpr bool san = true;
#else
	constexpr bool san = false;
#endif
	auto bounds = [=](auto... cs) { using C = std::common_type_t<decltype(cs)...>; return Bounds<C>{{static_cast<C>(cs)...}, san ? 3 : by_tier(5, 6), san ? 3 : by_tier(3, 4)}; };
	return mc::main(argc, argv, {
#if PART < 5
		{"char-form-" + std::to_string(PART), [=] { pairs<char, PART>(bounds('a', 'A', 'b', '\0')); }},
		{"char-form-" + std::to_string(PART) + "-long", [=] { pairs<char, PART>({{'a', 'b'}, san ? 4 : by_tier(8, 10), san ? 4 : by_tier(6, 7)}); }},
		{"char-form-" + std::to_string(PART) + "-big", big<char, PART % 3>},
		{"char-form-" + std::to_string(PART) + "-borders", [=] { pairs<char, PART>({{'@', 'A', 'Z', '[', '`', 'a', 'z', '{'}, 2, 2}); }},
#elif PART == 5
		{"wchar_t-own-folding", [=] { pairs<wchar_t, 0>({{L'a', L'A', L'B', L'C', L'b'}, by_tier(4, 5), by_tier(3, 4)}); }},
		{"wchar_t-view", [=] { pairs<wchar_t, 1>({{L'a', L'B', L'C'}, by_tier(4, 6), by_tier(4, 5)}); }},
#elif PART == 6
		{"char8_t", [=] { pairs<char8_t, 0>(bounds(u8'a', u8'A', u8'\0')); }},
		{"char16_t", [=] { pairs<char16_t, 1>(bounds(u'a', u'\u0161', u'\0')); }},
		{"char32_t", [=] { pairs<char32_t, 3>(bounds(U'a', U'\U00010061', U'\u0061')); }},
#else
		{"calls-string", calls<const std::string&>},
		{"calls-view", calls<std::string_view>},
		{"calls-pointer", calls<const char*>},
		{"literals", literals},
#endif
	}, 1);
}
