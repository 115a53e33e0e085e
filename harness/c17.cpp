// C17: the text of every value, built compositionally next to the value itself.
// PART 0: leaves, arrays and special cases; 1..11: every nesting of two wrappers with that outer wrapper; 13: three wrappers; 14-16: through mocks
#include "mc.hpp"
#include "rec.hpp"
#include <deque>
#include <filesystem>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <span>
#ifndef PART
#define PART 0
#endif
namespace mpp = mimicpp;

struct NonPrint { int x{}; bool operator==(const NonPrint&) const = default; };
enum class Enum { a };
struct Custom { int x{}; bool operator==(const Custom&) const = default; };
struct Formatted { int x{}; bool operator==(const Formatted&) const = default; };
struct Both { int x{}; bool operator==(const Both&) const = default; };
struct CustomRange { std::vector<int> v; auto begin() const { return v.begin(); } auto end() const { return v.end(); } bool operator==(const CustomRange&) const = default; };
struct ByValue { std::string s; bool operator==(const ByValue&) const = default; }; // its printer takes it by value
struct MyChar { char c{}; bool operator==(const MyChar&) const = default; };
struct MyString { std::vector<MyChar> v; bool operator==(const MyString&) const = default; };
struct DumpChar { unsigned char c{}; bool operator==(const DumpChar&) const = default; };
struct DumpString { std::vector<DumpChar> v; bool operator==(const DumpString&) const = default; };
struct OwnFormattedString { std::string s; bool operator==(const OwnFormattedString&) const = default; };
template <typename T> struct Wrapped { T value; bool operator==(const Wrapped&) const = default; };
// a range of its own
template <typename T>
struct Range
{
	std::list<T> items;
	struct iterator
	{
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		typename std::list<T>::const_iterator i{};
		const T& operator*() const { return *i; }
		iterator& operator++() { ++i; return *this; }
		iterator operator++(int) { auto c = *this; ++i; return c; }
		bool operator==(const iterator&) const = default;
	};
	iterator begin() const { return {items.begin()}; }
	iterator end() const { return {items.end()}; }
	bool operator==(const Range&) const = default;
};

template <> class mimicpp::custom::Printer<Custom> { public: static auto print(mpp::print_iterator auto out, const Custom& c) { return mpp::format::format_to(std::move(out), "Custom({})", c.x); } };
template <> class mimicpp::custom::Printer<Both> { public: static auto print(mpp::print_iterator auto out, const Both& c) { return mpp::format::format_to(std::move(out), "Both({})", c.x); } };
template <> class mimicpp::custom::Printer<CustomRange> { public: static auto print(mpp::print_iterator auto out, const CustomRange& c) { return mpp::format::format_to(std::move(out), "CustomRange({})", c.v.size()); } };
template <> class mimicpp::custom::Printer<ByValue> { public: static auto print(mpp::print_iterator auto out, ByValue c) { auto s = std::move(c.s); return mpp::format::format_to(std::move(out), "ByValue({})", s); } };
template <> class mimicpp::custom::Printer<MyChar> { public: static auto print(mpp::print_iterator auto out, const MyChar& c) { return mpp::format::format_to(std::move(out), "{}.", c.c); } };
template <typename T> class mimicpp::custom::Printer<Wrapped<T>>
{
public:
	template <mpp::print_iterator Out>
	static Out print(Out out, const Wrapped<T>& w)
	{
		out = mpp::format::format_to(std::move(out), "W<");
		out = mpp::print(std::move(out), w.value);
		return mpp::format::format_to(std::move(out), ">");
	}
};
// specialised for a type of the standard library that has a special treatment
struct Marker { bool operator==(const Marker&) const = default; };
template <> class mimicpp::custom::Printer<std::optional<Marker>> { public: static auto print(mpp::print_iterator auto out, const std::optional<Marker>& m) { return mpp::format::format_to(std::move(out), "{}", m ? "marked" : "unmarked"); } };

template <> struct mimicpp::is_character<MyChar> : std::true_type { };
template <> struct mimicpp::string_traits<MyString>
{
	using char_t = MyChar;
	using view_t = std::span<const MyChar>;
	static view_t view(const MyString& s) noexcept { return std::span{s.v}; }
};
template <> struct mimicpp::is_character<DumpChar> : std::true_type { };
template <> struct mimicpp::string_traits<DumpString>
{
	using char_t = DumpChar;
	using view_t = std::span<const DumpChar>;
	static view_t view(const DumpString& s) noexcept { return std::span{s.v}; }
};
template <> struct mimicpp::string_traits<OwnFormattedString>
{
	using char_t = char;
	using view_t = std::span<const char>;
	static view_t view(const OwnFormattedString& s) noexcept { return std::span{s.s}; }
};
#ifndef MIMICPP_CONFIG_USE_FMT
#define FMTNS std
#else
#define FMTNS fmt
#endif
template <> struct FMTNS::formatter<Formatted, char>
{
	constexpr auto parse(auto& ctx) { return ctx.begin(); }
	auto format(const Formatted& f, auto& ctx) const { return FMTNS::format_to(ctx.out(), "Formatted({})", f.x); }
};
template <> struct FMTNS::formatter<Both, char>
{
	constexpr auto parse(auto& ctx) { return ctx.begin(); }
	auto format(const Both&, auto& ctx) const { return FMTNS::format_to(ctx.out(), "wrong"); }
};

static int level = 0; // nesting level of the value being generated; inner levels have fewer values
static int maxDepth = 2;

template <typename T> struct Gen;
template <typename T>
static T gen(std::string& text)
{
	++level;
	T t = Gen<T>::make(text);
	--level;
	return t;
}
static int pick_value(int n) { return mc::choose(maxDepth >= 3 && level > 2 ? std::min(n, 2) : n); }
static int pick_size() { return mc::choose(maxDepth >= 3 && level > 1 ? 2 : 3); }

static std::string dump(const auto& s, const char* prefix)
{
	std::ostringstream o;
	o << prefix << '"' << std::hex;
	bool first = true;
	for (auto c : s) { if (!first) o << ", "; first = false; o << "0x" << static_cast<unsigned long>(static_cast<std::make_unsigned_t<decltype(static_cast<std::uint32_t>(c))>>(c)); }
	o << '"';
	return o.str();
}

#define LEAF(T, ...) template <> struct Gen<T> { static T make(std::string& t) __VA_ARGS__ }
#define INTS(T, ...) LEAF(T, { static const T v[] = {__VA_ARGS__}; const T x = v[pick_value(sizeof v / sizeof *v)]; t += std::to_string(x); return x; })
INTS(int, 42, -7, 0);
INTS(short, -1);
INTS(unsigned char, 200);
INTS(signed char, 65);
INTS(long long, INT64_MIN, 9);
INTS(unsigned long long, UINT64_MAX);
LEAF(bool, { const bool b = mc::choose_bool(); t += b ? "true" : "false"; return b; });
LEAF(char, { const char c = "x{%"[pick_value(3)]; t += c; return c; });
LEAF(double, { const int k = pick_value(3); t += std::array{"1.5", "-2.25", "1e+100"}[k]; return std::array{1.5, -2.25, 1e100}[k]; });
LEAF(float, { t += "0.5"; return 0.5f; });
static const std::string& string_value()
{
	static const std::string v[] = {"ab", "", std::string{"a\0b", 3}, "{}\"\\%s"};
	return v[pick_value(4)];
}
LEAF(std::string, { auto& s = string_value(); t += '"' + s + '"'; return s; });
LEAF(std::string_view, { auto& s = string_value(); t += '"' + s + '"'; return s; });
LEAF(const char*, { const int k = pick_value(3); static const char* const v[] = {"ab", "", nullptr}; t += std::array{"\"ab\"", "\"\"", "nullptr"}[k]; return v[k]; });
static char mutableText[] = "mut";
LEAF(char*, { const int k = pick_value(2); t += k ? "nullptr" : "\"mut\""; return k ? nullptr : mutableText; });
#define WIDE(C, P) \
	LEAF(std::basic_string<C>, { static const std::basic_string<C> v[] = {P##"a\x1f", P##"", {C{0}}}; const auto& s = v[pick_value(3)]; t += dump(s, #P); return s; }); \
	LEAF(std::basic_string_view<C>, { static const std::basic_string_view<C> v[] = {P##"xyz", P##""}; const auto s = v[pick_value(2)]; t += dump(s, #P); return s; }); \
	LEAF(const C*, { const int k = pick_value(3); static const C* const v[] = {P##"q", P##"", nullptr}; t += k == 2 ? std::string{"nullptr"} : dump(std::basic_string_view<C>{v[k]}, #P); return v[k]; })
WIDE(wchar_t, L);
WIDE(char8_t, u8);
WIDE(char16_t, u);
WIDE(char32_t, U);
static std::string hex(std::uintptr_t v) { char b[32]; std::snprintf(b, sizeof b, "0x%016llx", static_cast<unsigned long long>(v)); return b; }
#define POINTER(T) LEAF(T, { static const std::uintptr_t v[] = {0, 0x12ab, 0xfedcba9876543210u}; const auto x = v[pick_value(3)]; t += hex(x); return reinterpret_cast<T>(x); })
POINTER(int*);
POINTER(const int*);
POINTER(void*);
POINTER(const void*);
POINTER(NonPrint*);
POINTER(int**);
using FnPtr = void (*)(int);
POINTER(FnPtr);
LEAF(std::nullptr_t, { t += hex(0); return nullptr; });
LEAF(std::nullopt_t, { t += "nullopt"; return std::nullopt; });
LEAF(NonPrint, { t += "{?}"; return {3}; });
LEAF(Enum, { t += "{?}"; return Enum::a; });
LEAF(std::unique_ptr<int>, { t += "{?}"; return mc::choose_bool() ? std::make_unique<int>(1) : nullptr; });
LEAF(std::filesystem::path, { t += "{?}"; return mc::choose_bool() ? std::filesystem::path{"a/b"} : std::filesystem::path{}; });
LEAF(Custom, { const int x = pick_value(2); t += "Custom(" + std::to_string(x) + ")"; return {x}; });
LEAF(Formatted, { const int x = pick_value(2); t += "Formatted(" + std::to_string(x) + ")"; return {x}; });
LEAF(Both, { const int x = pick_value(2); t += "Both(" + std::to_string(x) + ")"; return {x}; });
LEAF(ByValue, { const int x = pick_value(2); t += x ? "ByValue(q)" : "ByValue(a text which is too long for the small string optimisation)"; return {x ? "q" : "a text which is too long for the small string optimisation"}; });
LEAF(CustomRange, { const int n = pick_value(3); t += "CustomRange(" + std::to_string(n) + ")"; return {std::vector<int>(static_cast<std::size_t>(n), 5)}; });
LEAF(std::optional<Marker>, { const bool b = mc::choose_bool(); t += b ? "marked" : "unmarked"; return b ? std::optional{Marker{}} : std::nullopt; });
LEAF(MyChar, { const char c = "pq"[pick_value(2)]; t += c; t += '.'; return {c}; });
LEAF(MyString, { const int n = mc::choose(3); MyString s; t += '"'; for (int i = 0; i < n; ++i) s.v.push_back(Gen<MyChar>::make(t)); t += '"'; return s; });
LEAF(DumpString, { const int n = mc::choose(3); DumpString s; std::string raw; for (int i = 0; i < n; ++i) { s.v.push_back({static_cast<unsigned char>(0x9f + i)}); raw += static_cast<char>(0x9f + i); } std::basic_string<unsigned char> u(raw.begin(), raw.end()); t += dump(u, ""); return s; });
LEAF(OwnFormattedString, { auto& s = string_value(); t += '"' + s + '"'; return {s}; });
LEAF(std::source_location, { const auto& l = rec::locs()[static_cast<std::size_t>(pick_value(2))]; t += std::string{l.file_name()} + "[" + std::to_string(l.line()) + ":" + std::to_string(l.column()) + "], " + l.function_name(); return l; });
LEAF(std::vector<bool>, { const int n = mc::choose(3); std::vector<bool> v; t += "{ "; for (int i = 0; i < n; ++i) { if (i) t += ", "; v.push_back(Gen<bool>::make(t)); } t += " }"; return v; });
LEAF(mpp::ValueCategory, { const int k = pick_value(3); t += std::array{"any", "lvalue", "rvalue"}[k]; return std::array{mpp::ValueCategory::any, mpp::ValueCategory::lvalue, mpp::ValueCategory::rvalue}[k]; });
LEAF(mpp::Constness, { const int k = pick_value(3); t += std::array{"any", "const", "mutable"}[k]; return std::array{mpp::Constness::any, mpp::Constness::as_const, mpp::Constness::non_const}[k]; });

template <typename C, typename Fn>
static C sequence(std::string& t, int n, Fn add)
{
	C c{};
	t += "{ ";
	for (int i = 0; i < n; ++i) { if (i) t += ", "; add(c); }
	t += " }";
	return c;
}
template <typename T> struct Gen<std::vector<T>> { static std::vector<T> make(std::string& t) { return sequence<std::vector<T>>(t, pick_size(), [&](auto& c) { c.push_back(gen<T>(t)); }); } };
template <typename T> struct Gen<std::list<T>> { static std::list<T> make(std::string& t) { return sequence<std::list<T>>(t, pick_size(), [&](auto& c) { c.push_back(gen<T>(t)); }); } };
template <typename T> struct Gen<std::forward_list<T>> { static std::forward_list<T> make(std::string& t) { auto v = Gen<std::list<T>>::make(t); std::forward_list<T> f; for (auto i = v.rbegin(); i != v.rend(); ++i) f.push_front(std::move(*i)); return f; } };
template <typename T> struct Gen<Range<T>> { static Range<T> make(std::string& t) { return {Gen<std::list<T>>::make(t)}; } };
template <typename T> struct Gen<std::map<int, T>> { static std::map<int, T> make(std::string& t) { int k = 0; return sequence<std::map<int, T>>(t, pick_size(), [&](auto& c) { t += "{ " + std::to_string(k) + ", "; c.emplace(k++, gen<T>(t)); t += " }"; }); } };
template <typename T> struct Gen<std::optional<T>> { static std::optional<T> make(std::string& t) { if (!mc::choose_bool()) { t += "nullopt"; return {}; } t += "{ value: "; std::optional<T> o{gen<T>(t)}; t += " }"; return o; } };
template <typename T> struct Gen<std::tuple<T>> { static std::tuple<T> make(std::string& t) { t += "{ "; std::tuple<T> r{gen<T>(t)}; t += " }"; return r; } };
template <typename T> struct Gen<std::tuple<T, T>> { static std::tuple<T, T> make(std::string& t) { t += "{ "; T a = gen<T>(t); t += ", "; T b = gen<T>(t); t += " }"; return {std::move(a), std::move(b)}; } };
template <typename T> struct Gen<std::pair<T, int>> { static std::pair<T, int> make(std::string& t) { t += "{ "; T a = gen<T>(t); t += ", 5 }"; return {std::move(a), 5}; } };
template <typename T> struct Gen<std::array<T, 2>> { static std::array<T, 2> make(std::string& t) { t += "{ "; T a = gen<T>(t); t += ", "; T b = gen<T>(t); t += " }"; return {std::move(a), std::move(b)}; } };
template <typename T> struct Gen<Wrapped<T>> { static Wrapped<T> make(std::string& t) { t += "W<"; Wrapped<T> w{gen<T>(t)}; t += ">"; return w; } };
template <> struct Gen<std::tuple<>> { static std::tuple<> make(std::string& t) { t += "{  }"; return {}; } };
template <> struct Gen<std::array<int, 0>> { static std::array<int, 0> make(std::string& t) { t += "{  }"; return {}; } };

template <typename T> struct Hold { using type = T; };
template <typename... Ts> struct List { static constexpr int size = sizeof...(Ts); };

using Leaves = List<int, bool, char, double, std::string, const char*, std::wstring, int*, NonPrint, Custom, Formatted, Both, CustomRange, std::string_view, std::optional<Marker>, MyString
#if PART != 4
	, std::unique_ptr<int>
#endif
	>;
using AllLeaves = List<int, short, unsigned char, signed char, long long, unsigned long long, bool, char, double, float, std::string, std::string_view, const char*, char*,
	std::wstring, std::wstring_view, const wchar_t*, std::u8string, std::u8string_view, const char8_t*, std::u16string, std::u16string_view, const char16_t*, std::u32string, std::u32string_view, const char32_t*,
	int*, const int*, void*, const void*, NonPrint*, int**, FnPtr, std::nullptr_t, std::nullopt_t, NonPrint, Enum, std::unique_ptr<int>, std::filesystem::path, Custom, Formatted, Both, ByValue,
	CustomRange, std::optional<Marker>, MyChar, MyString, DumpString, OwnFormattedString, std::source_location, std::vector<bool>, mpp::ValueCategory, mpp::Constness, std::tuple<>, std::array<int, 0>>;

template <int k, typename T>
struct Wrap;
template <typename T> struct Wrap<0, T> { using type = std::vector<T>; };
template <typename T> struct Wrap<1, T> { using type = std::optional<T>; };
template <typename T> struct Wrap<2, T> { using type = std::tuple<T, T>; };
template <typename T> struct Wrap<3, T> { using type = std::pair<T, int>; };
template <typename T> struct Wrap<4, T> { using type = std::array<T, 2>; };
template <typename T> struct Wrap<5, T> { using type = std::list<T>; };
template <typename T> struct Wrap<6, T> { using type = std::map<int, T>; };
template <typename T> struct Wrap<7, T> { using type = Range<T>; };
template <typename T> struct Wrap<8, T> { using type = std::tuple<T>; };
template <typename T> struct Wrap<9, T> { using type = std::forward_list<T>; };
template <typename T> struct Wrap<10, T> { using type = Wrapped<T>; };
constexpr int wrappers = 11;

template <typename T>
static void compare(const std::string& got, const std::string& want, const char* how)
{
	mc::check_eq(got, want, "text of a value of type ", typeid(T).name(), " printed as ", how);
}

template <typename T, bool all>
static void one()
{
	level = 0;
	std::string want;
	T v = gen<T>(want);
	mc::note(want);
	compare<T>(mpp::print(std::as_const(v)), want, "const lvalue");
	if constexpr (all)
	{
		compare<T>(mpp::print(v), want, "lvalue");
		std::string s = "x";
		mpp::print(std::back_inserter(s), v);
		compare<T>(s, "x" + want, "output to an iterator");
		char buffer[1024];
		char* end = mpp::print(+buffer, std::as_const(v));
		compare<T>(std::string(buffer, end), want, "output to a pointer");
		if constexpr (std::copy_constructible<T> && requires { v == v; } && !std::same_as<T, std::nullopt_t>)
		{
			T copy = v;
			compare<T>(mpp::print(v), want, "lvalue again");
			mc::check(copy == v, "printing changed the value");
		}
		compare<T>(mpp::print(std::move(v)), want, "rvalue");
	}
	else compare<T>(mpp::print(std::as_const(v)), want, "const lvalue again");
	mc::observe(mc::hash_bytes(want.data(), want.size()));
	++mc::E().curTransitions;
}

// chooses one of the types
template <bool all, typename... Ts>
static void any_of(List<Ts...>)
{
	static constexpr void (*fn[])() = {&one<Ts, all>...};
	fn[mc::choose(sizeof...(Ts))]();
}
template <int k, typename... Ts> static auto wrap(List<Ts...>) -> List<typename Wrap<k, Ts>::type...>;
template <int k> struct WrapAll { template <typename L> using on = decltype(wrap<k>(L{})); };

template <int outer, bool all, typename L, int... ks>
static void nested(std::integer_sequence<int, ks...>)
{
	static constexpr void (*fn[])() = {[] { any_of<all>(decltype(wrap<outer>(typename WrapAll<ks>::template on<L>{})){}); }...};
	fn[mc::choose(sizeof...(ks))]();
}

static void special()
{
	auto eq = [](const std::string& got, const std::string& want) { mc::check_eq(got, want, "text"); };
	switch (mc::choose(22))
	{
	case 0: { const int a[2]{1, 2}; eq(mpp::print(a), "{ 1, 2 }"); break; }
	case 1: { int a[2][2]{{1, 2}, {3, 4}}; eq(mpp::print(a), "{ { 1, 2 }, { 3, 4 } }"); break; }
	case 2: { const char a[3][3]{"ab", "cd", ""}; eq(mpp::print(a), "{ \"ab\", \"cd\", \"\" }"); break; }
	case 3: { char a[4] = "abc"; eq(mpp::print(a), "\"abc\""); break; }
	case 4: eq(mpp::print(L"ab"), "L\"0x61, 0x62\""); break;
	case 5: eq(mpp::print(u"\xffff"), "u\"0xffff\""); break;
	case 6: eq(mpp::print(U"\x10ffff"), "U\"0x10ffff\""); break;
	case 7: eq(mpp::print(u8"\xc3\xa4"), "u8\"0xc3, 0xa4\""); break;
	case 8: { std::string s[2]{"a", "b"}; eq(mpp::print(s), "{ \"a\", \"b\" }"); break; }
	case 9: { std::optional<int> s[2]{1, std::nullopt}; eq(mpp::print(s), "{ { value: 1 }, nullopt }"); break; }
	case 10: { const char* s[2]{"a", nullptr}; eq(mpp::print(s), "{ \"a\", nullptr }"); break; }
	case 11: { std::vector<int> v{1, 2, 3}; auto f = v | std::views::filter([](int i) { return i != 2; }); eq(mpp::print(f), "{ 1, 3 }"); break; }
	case 12: { std::vector<int> v{1, 2, 3}; eq(mpp::print(v | std::views::transform([](int i) { return std::to_string(i); })), "{ \"1\", \"2\", \"3\" }"); break; }
	case 13: eq(mpp::print(std::views::iota(1, 4)), "{ 1, 2, 3 }"); break;
	case 14: eq(mpp::print(std::views::empty<int>), "{  }"); break;
	case 15: { int x = 3; std::string s{"q"}; eq(mpp::print(std::tie(x, s)), "{ 3, \"q\" }"); break; }
	case 16: { Custom c[2]{{1}, {2}}; eq(mpp::print(c), "{ Custom(1), Custom(2) }"); break; }
	case 17: eq(mpp::print(std::set<std::string>{"b", "a"}), "{ \"a\", \"b\" }"); break;
	case 18: eq(mpp::print(std::multimap<int, std::optional<int>>{{1, 2}, {1, {}}}), "{ { 1, { value: 2 } }, { 1, nullopt } }"); break;
	case 19: { NonPrint n; eq(mpp::print(std::make_tuple(n, &n, std::optional{n})), "{ {?}, " + hex(reinterpret_cast<std::uintptr_t>(&n)) + ", { value: {?} } }"); break; }
	case 20: { std::vector<bool> v{true, false}; auto r = v[1]; eq(mpp::print(r), "false"); eq(mpp::print(std::as_const(v)), "{ true, false }"); break; }
	default: { std::array<std::vector<std::tuple<std::string, std::optional<wchar_t const*>>>, 1> a{{{{"k", L"v"}, {"", std::nullopt}}}}; eq(mpp::print(a), "{ { { \"k\", { value: L\"0x76\" } }, { \"\", nullopt } } }"); }
	}
	++mc::E().curTransitions;
}

#if PART >= 14
// what a call report says about its argument, and that reporting does not change the argument
template <typename Arg, typename T>
static void through()
{
	rec::reset();
	level = 0;
	std::string want;
	T v = gen<T>(want);
	mpp::Mock<void(Arg)> mock{};
	const bool matching = mc::choose_bool();
	std::string seen = "no call";
	{
		std::optional<mpp::ScopedExpectation> e;
		if (matching) e.emplace(mock.expect_call(mpp::matches::_) and mpp::then::apply_arg<0>([&](const T& x) { seen = mpp::print(x); }));
		try
		{
			if constexpr (std::is_lvalue_reference_v<Arg>) mock(v);
			else mock(std::move(v));
			mc::check(matching, "call accepted");
		}
		catch (const rec::NoMatch&) { mc::check(!matching, "call rejected"); }
	}
	mc::check_eq(rec::log().events.size(), 1u, "reports");
	auto& call = *rec::log().events.at(0).call;
	mc::check_eq(call.argDetails.size(), 1u, "arguments in the report");
	compare<T>(call.argDetails.at(0).stateString, want, "argument of a reported call");
	mc::check(call.argDetails.at(0).typeIndex == std::type_index(typeid(Arg)), "type of the argument in the report");
	if (matching) mc::check_eq(seen, want, "the argument after it has been reported");
	mc::check_eq(mpp::print(std::as_const(v)).size() > 0, true, "the caller's object");
	if (std::is_reference_v<Arg>) mc::check_eq(mpp::print(std::as_const(v)), want, "the caller's object after the call");
	mc::observe(mc::hash_bytes(want.data(), want.size()));
	++mc::E().curTransitions;
}
template <typename... Ts>
static void mocks(List<Ts...>)
{
	static constexpr void (*fn[])() = {&through<std::conditional_t<PART == 14, const Ts&, std::conditional_t<PART == 15, Ts&&, Ts>>, Ts>...};
	fn[mc::choose(sizeof(fn) / sizeof(*fn))]();
}
#endif

#if PART == 0
template <std::size_t... i>
static void wide_tuple(std::index_sequence<i...>)
{
	std::string want = "{ ";
	for (std::size_t k = 0; k < sizeof...(i); ++k) want += (k ? ", " : "") + (k % 2 ? "\"s" + std::to_string(k) + "\"" : std::to_string(k));
	want += " }";
	auto element = []<std::size_t k>(std::integral_constant<std::size_t, k>) { if constexpr (k % 2) return "s" + std::to_string(k); else return static_cast<int>(k); };
	mc::check_eq(mpp::print(std::make_tuple(element(std::integral_constant<std::size_t, i>{})...)), want, "text of a tuple with many elements");
}
// many elements, long strings, deep nesting
static void large()
{
	static const std::vector<std::size_t> sizes{9, 10, 11, 16, 17, 32, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 100001};
	switch (mc::choose(9))
	{
	case 0: wide_tuple(std::make_index_sequence<9>{}); break;
	case 1: wide_tuple(std::make_index_sequence<11>{}); break;
	case 2: wide_tuple(std::make_index_sequence<17>{}); wide_tuple(std::make_index_sequence<33>{}); break;
	case 3:
	{
		const auto n = mc::pick_from(sizes);
		std::vector<int> v;
		std::string want = "{ ";
		for (std::size_t i = 0; i < n; ++i) { v.push_back(static_cast<int>(i)); want += (i ? ", " : "") + std::to_string(i); }
		want += " }";
		mc::check_eq(mpp::print(v), want, "text of a vector with ", n, " elements");
		mc::check_eq(mpp::print(std::list<int>(v.begin(), v.end())), want, "text of a list with ", n, " elements");
		mc::check_eq(mpp::print(std::set<int>(v.begin(), v.end())), want, "text of a set with ", n, " elements");
		mc::check_eq(mpp::print(std::optional{v}), "{ value: " + want + " }", "text of an optional vector with ", n, " elements");
		break;
	}
	case 4:
	{
		const auto n = mc::pick_from(sizes);
		std::string v;
		for (std::size_t i = 0; i < n; ++i) v += static_cast<char>('a' + i % 26);
		mc::check_eq(mpp::print(v), "\"" + v + "\"", "text of a string with ", n, " characters");
		mc::check_eq(mpp::print(v.c_str()), "\"" + v + "\"", "text of a character pointer with ", n, " characters");
		mc::check_eq(mpp::print(std::string_view{v}), "\"" + v + "\"", "text of a string view with ", n, " characters");
		break;
	}
	case 5:
	{
		const auto n = mc::pick_from(sizes);
		std::u16string v;
		std::string want = "u\"";
		for (std::size_t i = 0; i < n; ++i) { v += static_cast<char16_t>(0x61 + i % 26); char b[8]; std::snprintf(b, sizeof b, "0x%x", static_cast<unsigned>(0x61 + i % 26)); want += (i ? ", " : "") + std::string{b}; }
		mc::check_eq(mpp::print(v), want + "\"", "text of a UTF-16 string with ", n, " characters");
		break;
	}
	case 6:
	{
		const auto n = mc::pick_from(sizes);
		std::map<int, std::string> v;
		std::string want = "{ ";
		for (std::size_t i = 0; i < n; ++i) { v.emplace(static_cast<int>(i), "x"); want += (i ? ", " : "") + ("{ " + std::to_string(i) + ", \"x\" }"); }
		mc::check_eq(mpp::print(v), want + " }", "text of a map with ", n, " elements");
		break;
	}
	case 7:
	{
		const auto n = mc::pick_from(sizes);
		std::vector<bool> v;
		std::string want = "{ ";
		for (std::size_t i = 0; i < n; ++i) { v.push_back(i % 3 == 0); want += (i ? ", " : "") + std::string{i % 3 == 0 ? "true" : "false"}; }
		mc::check_eq(mpp::print(v), want + " }", "text of a vector<bool> with ", n, " elements");
		break;
	}
	default:
	{
		std::vector<std::vector<std::vector<std::vector<std::vector<std::vector<std::optional<std::tuple<std::vector<int>>>>>>>>> v{{{{{{std::tuple{std::vector{1}}, std::nullopt}}}}}};
		mc::check_eq(mpp::print(v), "{ { { { { { { value: { { 1 } } }, nullopt } } } } } }", "text of a deeply nested range");
	}
	}
	++mc::E().curTransitions;
}
#endif

int main(int argc, char** argv)
{
	return mc::main(argc, argv, {
#if PART == 0
		{"leaves", [] { any_of<true>(AllLeaves{}); }},
		{"special", special},
		{"large", large},
		{"wrapped leaves", [] {
			static constexpr auto go = []<int... ks>(std::integer_sequence<int, ks...>) {
				static constexpr void (*fn[])() = {[] { any_of<false>(typename WrapAll<ks>::template on<Leaves>{}); }...};
				fn[mc::choose(sizeof...(ks))]();
			};
			go(std::make_integer_sequence<int, wrappers>{});
		}},
#elif PART >= 14
		{"mocks", [] { mocks(List<int, const char*, std::string, std::wstring, int*, NonPrint, Custom, Both, ByValue, std::vector<ByValue>, std::optional<std::string>, std::vector<std::string>, std::tuple<ByValue, ByValue>, Range<int>, std::unique_ptr<int>, std::filesystem::path, std::vector<bool>, MyString>{}); }},
#elif PART == 13
		{"three wrappers", [] { maxDepth = 3; nested<0, false, List<std::vector<std::string>, std::optional<const char*>, std::tuple<Both, Both>, std::map<int, Custom>, std::pair<int*, int>, Wrapped<std::wstring>>>(std::make_integer_sequence<int, wrappers>{}); }},
#else
		{"two wrappers", [] { nested<PART - 1, PART == 4, Leaves>(std::make_integer_sequence<int, wrappers>{}); }},
#endif
	}, 2);
}
