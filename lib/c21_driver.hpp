// C21: interface mocks. The observations of a call made through the base interface are compared with those of the same call
// made directly on the mock member, and with what the language prescribes for a plain override.
#pragma once
#include "mc.hpp"
#include "rec.hpp"
#include "ctx.hpp"
#include <map>
#include <memory>
#include <tuple>
#include <utility>

struct Cnt
{
	int id{};
	static inline int copies = 0;
	Cnt() = default;
	explicit Cnt(int i) : id{i} {}
	Cnt(const Cnt& o) : id{o.id} { ++copies; }
	Cnt(Cnt&& o) noexcept : id{o.id} { o.id = -1; }
	Cnt& operator=(const Cnt& o) { id = o.id; ++copies; return *this; }
	Cnt& operator=(Cnt&& o) noexcept { id = o.id; o.id = -1; return *this; }
	bool operator==(const Cnt& o) const { return id == o.id; }
};
struct Other { int id{}; };
using Uniq = std::unique_ptr<int>;
using Map = std::map<int, Cnt>;
using Pair = std::pair<int, Cnt>;

template <typename T> int id_of(const T& v)
{
	if constexpr (std::same_as<T, Cnt> || std::same_as<T, Other>) return v.id;
	else if constexpr (std::same_as<T, Uniq>) return v ? *v : -1;
	else if constexpr (std::same_as<T, Map>) return v.empty() ? -1 : v.begin()->first;
	else if constexpr (std::same_as<T, Pair>) return v.first;
	else if constexpr (std::is_pointer_v<T>) return v ? id_of(*v) : -1;
	else return static_cast<int>(v);
}
template <typename T> T make(int id)
{
	if constexpr (std::same_as<T, Cnt>) return Cnt{id};
	else if constexpr (std::same_as<T, Other>) return Other{id};
	else if constexpr (std::same_as<T, Uniq>) return std::make_unique<int>(id);
	else if constexpr (std::same_as<T, Map>) { Map m; m.try_emplace(id, id); return m; }
	else if constexpr (std::same_as<T, Pair>) return Pair{id, Cnt{id}};
	else if constexpr (std::is_pointer_v<T>) { using E = std::remove_cv_t<std::remove_pointer_t<T>>; static std::map<int, E> pool; auto it = pool.find(id); if (it == pool.end()) it = pool.emplace(id, make<E>(id)).first; return &it->second; }
	else return static_cast<T>(id);
}

// ---- overload descriptor -----------------------------------------------------------------------------------------------
template <bool C, bool R, bool N, typename Ret, typename... P>
struct Ov
{
	static constexpr bool isConst = C, isNoexcept = N;
	using Return = Ret;
	using Params = std::tuple<P...>;
	static constexpr std::size_t arity = sizeof...(P);
};

template <typename P> // accepts exactly the overload with this parameter
struct Exactly
{
	template <typename U>
		requires std::same_as<U, std::remove_reference_t<P>>
	static bool matches(U&) { return true; }
	static mimicpp::StringT describe() { return "anything of its type"; }
};

struct Seen
{
	int overload{-1};
	std::vector<const void*> addr;
	std::vector<int> cat; // 0: lvalue, 1: const lvalue, 2: rvalue, 3: const rvalue
	std::vector<int> ids;
	int copies{};
	bool operator==(const Seen&) const = default;
};
inline std::vector<Seen>& seen()
{
	static std::vector<Seen> s;
	return s;
}

template <typename T>
constexpr int category() { return (std::is_rvalue_reference_v<T> ? 2 : 0) + (std::is_const_v<std::remove_reference_t<T>> ? 1 : 0); }

template <typename R>
struct Results // two distinct results per overload
{
	using V = std::remove_cvref_t<R>;
	static V& object(int k)
	{
		static V a = make<V>(501), b = make<V>(502);
		return k ? b : a;
	}
	static R get(int k)
	{
		if constexpr (std::is_lvalue_reference_v<R>) return object(k);
		else if constexpr (std::is_rvalue_reference_v<R>) return std::move(object(k));
		else return make<V>(501 + k);
	}
};

template <typename O, int J>
struct OverloadTools
{
	using R = typename O::Return;
	static constexpr std::size_t N = O::arity;
	template <std::size_t I> using P = std::tuple_element_t<I, typename O::Params>;

	template <typename M> static auto& qualified(M& m)
	{
		if constexpr (O::isConst) return std::as_const(m);
		else return m;
	}

	template <typename M>
	static mimicpp::ScopedExpectation* expectation(M& m, int result)
	{
		auto action = [result](auto&&... args) -> R {
			Seen s{.overload = J, .copies = Cnt::copies};
			(s.addr.push_back(std::addressof(args)), ...);
			(s.cat.push_back(category<decltype(args)>()), ...);
			(s.ids.push_back(id_of(args)), ...);
			seen().push_back(std::move(s));
			if constexpr (!std::is_void_v<R>) return Results<R>::get(result);
			else (void)result;
		};
		return [&]<std::size_t... I>(std::index_sequence<I...>) {
			return new mimicpp::ScopedExpectation{
				qualified(m.foo_).expect_call(Exactly<P<I>>{}...)
				and mimicpp::expect::times(0, 9)
				and mimicpp::finally::returns_apply_all_result_of(action)};
		}(std::make_index_sequence<N>{});
	}

	struct Outcome
	{
		int thrown{};
		int result{};               // id of the result
		const void* resultAddr{};   // for references and pointers
		int copies{};
		std::vector<const void*> sourceAddr;
		std::vector<int> sourceIds; // identities handed in
		std::vector<int> afterwards; // what is left in the caller's objects
		Seen seen;
		std::string report;
	};

	static std::string text(const rec::Event& e)
	{
		std::string s = rec::name(e.kind);
		if (e.call)
		{
			for (auto& a : e.call->argDetails) s += std::string{"|"} + a.typeIndex.name();
			s += std::string{">"} + e.call->returnTypeIndex.name() + std::to_string(static_cast<int>(e.call->fromCategory)) + std::to_string(static_cast<int>(e.call->fromConstness));
		}
		s += "/" + std::to_string(e.matches.size());
		return s;
	}

	// way 0: through the base interface, 1: through the derived object, 2: directly on the mock
	// handover 0: values are handed over as rvalues, 1: as lvalues;  objects: which of two objects, per position
	template <typename I_, typename M>
	static Outcome call(M& m, int way, int handover, int objects)
	{
		Outcome o;
		auto store = [&]<std::size_t... I>(std::index_sequence<I...>) {
			return std::tuple<std::array<std::remove_cvref_t<P<I>>, 2>...>{
				std::array<std::remove_cvref_t<P<I>>, 2>{make<std::remove_cvref_t<P<I>>>(10 + 2 * static_cast<int>(I)), make<std::remove_cvref_t<P<I>>>(11 + 2 * static_cast<int>(I))}...};
		}(std::make_index_sequence<N>{});
		seen().clear();
		const auto before = rec::log().events.size();
		Cnt::copies = 0;
		try
		{
			[&]<std::size_t... I>(std::index_sequence<I...>) {
				auto pick = [&]<std::size_t K>(std::integral_constant<std::size_t, K>) -> auto& { return std::get<K>(store)[objects >> K & 1]; };
				(o.sourceAddr.push_back(std::addressof(pick(std::integral_constant<std::size_t, I>{}))), ...);
				(o.sourceIds.push_back(id_of(pick(std::integral_constant<std::size_t, I>{}))), ...);
				auto invoke = [&](auto&& callee) {
					auto finish = [&](auto&& f) {
						if constexpr (std::is_void_v<R>) f();
						else
						{
							decltype(auto) r = f();
							static_assert(std::same_as<decltype(r), R>);
							o.result = id_of(r);
							if constexpr (std::is_reference_v<R>) o.resultAddr = std::addressof(r);
							else if constexpr (std::is_pointer_v<R>) o.resultAddr = r;
						}
						o.copies = Cnt::copies;
					};
					auto as_lvalue_if_copyable = [&]<std::size_t K>(std::integral_constant<std::size_t, K> k) -> decltype(auto) {
						using T = P<K>;
						if constexpr (!std::is_reference_v<T> && std::is_copy_constructible_v<T>) return (pick(k));
						else return static_cast<T&&>(pick(k));
					};
					if (handover) finish([&]() -> R { return callee(as_lvalue_if_copyable(std::integral_constant<std::size_t, I>{})...); });
					else finish([&]() -> R { return callee(static_cast<P<I>&&>(pick(std::integral_constant<std::size_t, I>{}))...); });
				};
				if (way == 0) { I_& base = m; invoke([&](auto&&... a) -> R { return qualified(base).foo(std::forward<decltype(a)>(a)...); }); }
				else if (way == 1) invoke([&](auto&&... a) -> R { return qualified(m).foo(std::forward<decltype(a)>(a)...); });
				else invoke([&](auto&&... a) -> R { return qualified(m.foo_)(std::forward<decltype(a)>(a)...); });
				(o.afterwards.push_back(id_of(pick(std::integral_constant<std::size_t, I>{}))), ...);
			}(std::make_index_sequence<N>{});
		}
		catch (const rec::NoMatch&) { o.thrown = 1; }
		catch (const rec::Inapplicable&) { o.thrown = 2; }
		if (seen().size() == 1) o.seen = seen()[0];
		else if (!seen().empty()) o.seen.overload = -2;
		for (auto i = before; i < rec::log().events.size(); ++i) o.report += text(rec::log().events[i]) + ";";
		return o;
	}

	// what the language prescribes
	static void judge(const Outcome& o, int way, int handover, int result, bool expected)
	{
		const char* ways[]{"base interface", "derived object", "mock"};
		if (!expected)
		{
			mc::check(o.thrown == 1 && o.seen.overload == -1, "overload ", J, " via ", ways[way], ": a call without expectation was not rejected");
			return;
		}
		mc::check(o.thrown == 0, "overload ", J, " via ", ways[way], ": the call was rejected");
		if (mc::violated()) return;
		if (!mc::check(o.seen.overload == J, "overload ", J, " via ", ways[way], ": the call was answered by overload ", o.seen.overload)) return;
		if (!mc::check(o.seen.ids == o.sourceIds, "overload ", J, " via ", ways[way], ": the expectation saw other argument values")) return;
		int wantCopies = 0;
		[&]<std::size_t... I>(std::index_sequence<I...>) {
			((std::is_reference_v<P<I>>
				 ? (void)mc::check(o.seen.addr[I] == o.sourceAddr[I], "overload ", J, " via ", ways[way], ": reference argument ", I, " is a different object")
				 : (void)mc::check(o.seen.addr[I] != o.sourceAddr[I], "overload ", J, " via ", ways[way], ": by-value argument ", I, " is the caller's object")),
				...);
			auto copies = [&]<typename T>(std::type_identity<T>) { return !std::is_reference_v<T> && handover && std::is_copy_constructible_v<T> && (std::same_as<T, Cnt> || std::same_as<T, Map> || std::same_as<T, Pair>) ? 1 : 0; };
			((wantCopies += copies(std::type_identity<P<I>>{})), ...);
			((mc::check(o.seen.cat[I] == category<P<I>&&>() || o.seen.cat[I] == category<P<I>&>(), "overload ", J, " via ", ways[way], ": argument ", I, " arrived with another constness or category")), ...);
			auto moved = [&]<typename T>(std::type_identity<T>, std::size_t i) {
				const bool gone = !std::is_reference_v<T> && !(handover && std::is_copy_constructible_v<T>) && (std::same_as<T, Cnt> || std::same_as<T, Uniq> || std::same_as<T, Map>);
				mc::check((o.afterwards[i] == -1) == gone && (gone || o.afterwards[i] == o.sourceIds[i]), "overload ", J, " via ", ways[way], ": the caller's argument ", i, " was ", gone ? "not " : "", "moved from");
			};
			(moved(std::type_identity<P<I>>{}, I), ...);
		}(std::make_index_sequence<N>{});
		mc::check(o.seen.copies == wantCopies && o.copies == wantCopies, "overload ", J, " via ", ways[way], ": ", o.seen.copies, "/", o.copies, " copies were made, expected ", wantCopies);
		if constexpr (!std::is_void_v<R>)
		{
			mc::check(o.result == 501 + result, "overload ", J, " via ", ways[way], ": a different result was returned");
			if constexpr (std::is_reference_v<R>) mc::check(o.resultAddr == std::addressof(Results<R>::object(result)), "overload ", J, " via ", ways[way], ": the returned reference denotes another object");
			else if constexpr (std::is_pointer_v<R>) mc::check(o.resultAddr == make<R>(501 + result), "overload ", J, " via ", ways[way], ": a different pointer was returned");
		}
	}
};

template <typename Case>
struct Driver
{
	using M = typename Case::M;
	using I = typename Case::I;
	using Overloads = typename Case::Overloads;
	static constexpr std::size_t K = std::tuple_size_v<Overloads>;

	template <std::size_t J>
	static void one(M& m, int way, bool expected, const std::vector<int>& results)
	{
		using T = OverloadTools<std::tuple_element_t<J, Overloads>, static_cast<int>(J)>;
		const int handover = T::N ? mc::choose(2) : 0;
		int objects = 0;
		if constexpr (T::N == 1) objects = mc::choose(2);
		else if constexpr (T::N > 1) objects = mc::choose_bool() ? 0b101010 : 0b010101;
		mc::note("call overload ", J, " way ", way, " handover ", handover);
		auto o = T::template call<I>(m, way, handover, objects);
		T::judge(o, way, handover, results[J], expected);
		if (way != 2 && !mc::violated())
		{
			auto d = T::template call<I>(m, 2, handover, objects);
			mc::check(d.report == o.report, "the report of a call through the interface differs from that of a direct call: ", o.report, " vs ", d.report);
			mc::check(d.seen.cat == o.seen.cat, "an argument of a call through the interface has another category than in a direct call");
			mc::check(d.thrown == o.thrown && d.copies == o.copies && d.result == o.result && d.afterwards == o.afterwards, "a call through the interface has another outcome than a direct call");
		}
	}

	template <std::size_t J>
	static void statics()
	{
		using O = std::tuple_element_t<J, Overloads>;
		[&]<typename... P>(std::type_identity<std::tuple<P...>>) {
			using Q = std::conditional_t<O::isConst, const M, M>;
			mc::check(noexcept(std::declval<Q&>().foo(std::declval<P>()...)) == O::isNoexcept || !noexcept_args<P...>, "overload ", J, " is declared with the wrong noexcept");
			mc::check(noexcept(std::declval<Q&>().foo_(std::declval<P>()...)) == O::isNoexcept || !noexcept_args<P...>, "the mock of overload ", J, " has the wrong noexcept");
		}(std::type_identity<typename O::Params>{});
	}
	template <typename... P> static constexpr bool noexcept_args = (... && std::is_nothrow_constructible_v<P, P>);

	static void run(int calls)
	{
		rec::reset();
		mc::note(Case::name);
		M m{};
		const int subset = mc::choose(1 << K); // 0 stands for all of them
		std::vector<mimicpp::ScopedExpectation*> owned;
		std::vector<int> results;
		const int shift = mc::choose(2);
		auto has = [&](int j) { return !(subset >> j & 1); };
		[&]<std::size_t... J>(std::index_sequence<J...>) {
			(statics<J>(), ...);
			auto create = [&]<std::size_t L>(std::integral_constant<std::size_t, L>) {
				results.push_back((shift + static_cast<int>(L)) % 2);
				if (has(L)) owned.push_back(OverloadTools<std::tuple_element_t<L, Overloads>, static_cast<int>(L)>::expectation(m, results.back()));
			};
			(create(std::integral_constant<std::size_t, J>{}), ...);
		}(std::make_index_sequence<K>{});
		for (int c = 0; c < calls && !mc::violated(); ++c)
		{
			const int j = mc::choose(static_cast<int>(K));
			const int way = mc::choose(2);
			[&]<std::size_t... J>(std::index_sequence<J...>) {
				auto go = [&]<std::size_t L>(std::integral_constant<std::size_t, L>) {
					if (static_cast<int>(L) != j) return;
					if (std::tuple_element_t<L, Overloads>::isNoexcept && !has(L)) return; // would have to terminate
					one<L>(m, way, has(L), results);
				};
				(go(std::integral_constant<std::size_t, J>{}), ...);
			}(std::make_index_sequence<K>{});
			mc::observe(static_cast<std::uint64_t>(j * 2 + way));
		}
		for (auto* e : owned) delete e;
	}
};
