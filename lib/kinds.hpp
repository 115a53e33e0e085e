// Parameter and return kinds for the harnesses that enumerate signatures.
#pragma once
#include "mc.hpp"
#include "rec.hpp"
#define COMMA ,
#include <any>
#include <array>
#include <bitset>
#include <chrono>
#include <complex>
#include <filesystem>
#include <functional>
#include <map>
#include <memory>
#include <span>
#include <sstream>
#include <thread>
#include <variant>

namespace kinds
{
	enum class Plain { a, b };
	struct Opaque { int v; };
	struct Shown { int v; };
	struct MoveOnly
	{
		std::unique_ptr<int> p;
		MoveOnly(int v) : p{std::make_unique<int>(v)} {}
		MoveOnly(MoveOnly&&) = default;
		MoveOnly& operator =(MoveOnly&&) = default;
	};
	struct Abstract
	{
		virtual ~Abstract() = default;
		virtual int get() const = 0;
		int v{};
	};
	struct Concrete : Abstract
	{
		int get() const override { return v; }
	};
	struct NoAddressOf
	{
		int v{};
		NoAddressOf* operator &() const = delete;
	};
	struct Greedy // constructible from and convertible to anything
	{
		int v{};
		Greedy() = default;
		template <typename T> Greedy(T&&) {}
		template <typename T> operator T() const { return T{}; }
	};
	struct Holder { int x{}; void f() {} };
	struct Convertible
	{
		int v{};
		operator int() const { return v; }
		operator std::string() const { return "conv"; }
	};
	struct Commas
	{
		int v{};
		template <typename T> void operator ,(const T&) const = delete;
	};
	template <typename T> void operator ,(const T&, const Commas&) = delete;

	inline const int mimicpp_kinds_int{7};

	//! a parameter type, what the caller hands over, and how an action may change it
	template <typename Param, typename Storage = std::remove_cvref_t<Param>>
	struct KindBase
	{
		using P = Param;
		using S = Storage;
		using Object = std::remove_reference_t<Param>;
		static decltype(auto) pass(S& s)
		{
			if constexpr (std::is_reference_v<P>) return static_cast<P>(s);
			else if constexpr (std::is_copy_constructible_v<P>) return P(s);
			else return P(std::move(s));
		}
		static std::string shown(S& s) { return mimicpp::print(static_cast<Object&>(s)); }
	};

#define KIND(name, param, ...) \
	struct name : KindBase<param> \
	{ \
		static S make(int v) { (void)v; return __VA_ARGS__; } \
	}
	KIND(Int, int, v);
	KIND(Bool, bool, v % 2 != 0);
	KIND(Char, char, static_cast<char>('a' + v));
	KIND(Dbl, double, v + 0.5);
	KIND(IntRef, int&, v);
	KIND(IntCRef, const int&, v);
	KIND(IntRv, int&&, v);
	KIND(Str, std::string, "s" + std::to_string(v));
	KIND(StrRef, std::string&, "r" + std::to_string(v));
	KIND(StrCRef, const std::string&, "c" + std::to_string(v));
	KIND(StrRv, std::string&&, "m" + std::to_string(v));
	KIND(StrCRv, const std::string&&, "k" + std::to_string(v));
	KIND(View, std::string_view, v % 2 ? "odd" : "even");
	KIND(WStr, std::wstring, v % 2 ? L"odd" : L"even");
	KIND(CStr, const char*, v % 2 ? "odd" : "even");
	KIND(Opt, std::optional<int>, v % 2 ? std::optional<int>{v} : std::nullopt);
	KIND(OptOpt, std::optional<std::optional<int>>, v % 2 ? std::optional<std::optional<int>>{std::optional<int>{}} : std::nullopt);
	KIND(Ptr, int*, nullptr);
	KIND(VoidPtr, void*, reinterpret_cast<void*>(static_cast<std::uintptr_t>(v)));
	KIND(Null, std::nullptr_t, nullptr);
	KIND(Fn, int (*)(int), nullptr);
	KIND(MemPtr, int Holder::*, v % 2 ? &Holder::x : nullptr);
	KIND(UPtr, std::unique_ptr<int>, std::make_unique<int>(v));
	KIND(SPtr, std::shared_ptr<int>, v % 2 ? std::make_shared<int>(v) : nullptr);
	KIND(MovOnly, MoveOnly, MoveOnly{v});
	KIND(MovOnlyRv, MoveOnly&&, MoveOnly{v});
	KIND(En, Plain, v % 2 ? Plain::a : Plain::b);
	KIND(Opq, Opaque, Opaque{v});
	KIND(Shw, Shown, Shown{v});
	KIND(ShwCRef, const Shown&, Shown{v});
	KIND(Vec, std::vector<int>, std::vector<int>(static_cast<std::size_t>(v % 4), v));
	KIND(VecBool, std::vector<bool>, std::vector<bool>{v % 2 != 0, true});
	KIND(Arr, std::array<int COMMA 2>, std::array<int, 2>{v, 1});
	KIND(Mp, std::map<std::string COMMA int>, std::map<std::string, int>{{"k", v}});
	KIND(Pair, std::pair<int COMMA std::string>, std::pair<int, std::string>{v, "p"});
	KIND(Tup0, std::tuple<>, std::tuple<>{});
	KIND(Tup1, std::tuple<int>, std::tuple<int>{v});
	KIND(Tup2, std::tuple<int COMMA std::string>, std::tuple<int, std::string>{v, "t"});
	KIND(TupTup, std::tuple<std::tuple<int>>, std::tuple<std::tuple<int>>{std::tuple<int>{v}});
	KIND(Any, std::any, v % 2 ? std::any{v} : std::any{});
	KIND(Var, std::variant<int COMMA std::string>, v % 2 ? std::variant<int, std::string>{v} : std::variant<int, std::string>{"x"});
	KIND(Func, std::function<void()>, std::function<void()>{});
	KIND(RefW, std::reference_wrapper<const int>, std::cref(mimicpp_kinds_int));
	KIND(RefWCRef, const std::reference_wrapper<const int>&, std::cref(mimicpp_kinds_int));
	KIND(RefWRef, std::reference_wrapper<const int>&, std::cref(mimicpp_kinds_int));
	KIND(NoAddr, NoAddressOf, NoAddressOf{v});
	KIND(Grd, Greedy, Greedy{});
	KIND(Conv, Convertible, Convertible{v});
	KIND(Com, Commas, Commas{v});
	KIND(Init, std::initializer_list<int>, std::initializer_list<int>{});
	KIND(Spn, std::span<const int>, std::span<const int>{});
	KIND(Path, std::filesystem::path, std::filesystem::path{"a/b"});
	KIND(Dur, std::chrono::seconds, std::chrono::seconds{v});
	KIND(Loc, std::source_location, rec::locs()[static_cast<std::size_t>(v)]);
	KIND(Wide, wchar_t, static_cast<wchar_t>(L'a' + v));
	KIND(LDbl, long double, v * 1.0L);
	KIND(Cplx, std::complex<double>, std::complex<double>(v, 1));
	KIND(Order, std::strong_ordering, v % 2 ? std::strong_ordering::less : std::strong_ordering::equal);
	KIND(Ex, std::exception_ptr, nullptr);
#undef KIND
	struct Abs : KindBase<Abstract&, Concrete> { static S make(int v) { Concrete c; c.v = v; return c; } };
	struct CAbs : KindBase<const Abstract&, Concrete> { static S make(int v) { Concrete c; c.v = v; return c; } };
	struct CArr3
	{
		using P = const int (&)[3];
		using S = std::array<int, 3>;
		static P pass(S& s) { return reinterpret_cast<const int (&)[3]>(*s.data()); }
		static S make(int v) { return {v, 1, 2}; }
		static std::string shown(S& s) { return mimicpp::print(pass(s)); }
	};
	struct CharArr
	{
		using P = char (&)[3];
		using S = std::array<char, 3>;
		static P pass(S& s) { return reinterpret_cast<char (&)[3]>(*s.data()); }
		static S make(int v) { return {static_cast<char>('a' + v), 'z', 0}; }
		static std::string shown(S& s) { return mimicpp::print(pass(s)); }
	};
	struct Volat
	{
		using P = volatile int&;
		using S = int;
		static P pass(S& s) { return s; }
		static S make(int v) { return v; }
		static std::string shown(S& s) { return mimicpp::print(pass(s)); }
	};

	//! what an action does with an argument it may modify
	struct Clobber
	{
		template <typename T> static void one(T& t)
		{
			if constexpr (std::is_const_v<T> || std::is_volatile_v<T>) {}
			else if constexpr (std::same_as<T, bool>) t = !t;
			else if constexpr (std::is_arithmetic_v<T>) t = static_cast<T>(t + 1);
			else if constexpr (requires { t.push_back('!'); }) t.push_back('!');
			else if constexpr (requires { t.reset(); }) t.reset();
			else if constexpr (std::same_as<T, Shown>) t.v += 50;
			else if constexpr (std::is_pointer_v<T>) t = nullptr;
			else if constexpr (std::same_as<T, Plain>) t = t == Plain::a ? Plain::b : Plain::a;
		}
		template <typename... Ts> void operator ()(Ts&&... ts) const { (one(ts), ...); }
	};
}

template <>
struct mimicpp::custom::Printer<kinds::Shown>
{
	template <typename Out>
	static Out print(Out out, const kinds::Shown& s) { return format::format_to(std::move(out), "Shown<{}>", s.v); }
};
