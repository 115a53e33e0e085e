// C07: overload and qualifier routing. The compiler's own overload resolution on a plain class is the oracle.
#pragma once
#include "mc.hpp"
#include "rec.hpp"
#include "ctx.hpp"

struct Overload { bool isConst; int cat; bool isNoexcept; };

template <int W, typename T>
constexpr decltype(auto) via(T& t) noexcept
{
	if constexpr (W == 0) return (t);
	else if constexpr (W == 1) return std::as_const(t);
	else if constexpr (W == 2) return std::move(t);
	else return std::move(std::as_const(t));
}
inline const char* const ways[]{"lvalue", "const lvalue", "rvalue", "const rvalue"};

template <int F>
constexpr auto arg_of()
{
	if constexpr (F == 0) return 1;
	else return std::string{"x"};
}

template <typename T, int W, int F>
concept callable = requires(T& t) { via<W>(t)(arg_of<F>()); };
template <typename T, int W, int F>
concept expectable = requires(T& t) { via<W>(t).expect_call(arg_of<F>()); };
template <typename T, int W, int F>
concept oracle_callable = requires(T& t) { via<W>(t).f(arg_of<F>()); };

inline int answered; // by a void function

template <typename Set>
struct Table
{
	using MockT = typename Set::MockT;
	struct Entry
	{
		bool legal{}, mockCallable{}, mockExpectable{}, noexceptCall{};
		int overload{-1}; // index among all overloads: 0.. of the first family, 10.. of the second
		mimicpp::ScopedExpectation* (*create)(MockT&, int id, int arg){};
		int (*call)(MockT&, int arg, const std::source_location&){};
	};
	Entry e[4][2];

	template <int W, int F>
	void fill()
	{
		using O = typename Set::Oracle;
		Entry& x = e[W][F];
		x.legal = oracle_callable<O, W, F>;
		x.mockCallable = callable<MockT, W, F>;
		x.mockExpectable = expectable<MockT, W, F>;
		if constexpr (oracle_callable<O, W, F> && callable<MockT, W, F> && expectable<MockT, W, F>)
		{
			x.overload = decltype(via<W>(std::declval<O&>()).f(arg_of<F>()))::value;
			if constexpr (F == 0) x.noexceptCall = noexcept(via<W>(std::declval<MockT&>())(1));
			else x.noexceptCall = noexcept(via<W>(std::declval<MockT&>())(std::declval<const std::string&>()));
			x.create = [](MockT& m, int id, int arg) {
				if constexpr (F == 0)
					return new mimicpp::ScopedExpectation{
						via<W>(m).expect_call(arg) and mimicpp::expect::times(0, 2) and mimicpp::finally::returns(1000 + id), rec::locs()[id]};
				else if constexpr (Set::isVoid)
					return new mimicpp::ScopedExpectation{
						via<W>(m).expect_call(std::string(static_cast<std::size_t>(arg), 'x')) and mimicpp::expect::times(0, 2) and mimicpp::then::invoke([id] { answered = 1000 + id; }), rec::locs()[id]};
				else
					return new mimicpp::ScopedExpectation{
						via<W>(m).expect_call(std::string(static_cast<std::size_t>(arg), 'x')) and mimicpp::expect::times(0, 2) and mimicpp::finally::returns(std::to_string(1000 + id)), rec::locs()[id]};
			};
			x.call = [](MockT& m, int arg, const std::source_location& loc) {
				if constexpr (F == 0) return via<W>(m)(std::move(arg), loc) - 1000;
				else if constexpr (Set::isVoid)
				{
					answered = 999;
					via<W>(m)(std::string(static_cast<std::size_t>(arg), 'x'), loc);
					return answered - 1000;
				}
				else return std::stoi(via<W>(m)(std::string(static_cast<std::size_t>(arg), 'x'), loc)) - 1000;
			};
		}
	}
	Table()
	{
		fill<0, 0>(); fill<1, 0>(); fill<2, 0>(); fill<3, 0>();
		fill<0, 1>(); fill<1, 1>(); fill<2, 1>(); fill<3, 1>();
	}
};

template <typename Set>
void scenario()
{
	static const Table<Set> tab{};
	rec::reset();
	mc::note("Mock<", Set::name, ">");
	typename Set::MockT mock{};
	struct Exp { int overload, arg, count; mimicpp::ScopedExpectation* p; };
	std::vector<Exp> exps;
	auto desc = [](int o) { return o < 10 ? Set::overloads[o] : Set::others[o - 10]; };

	struct Op { int w, f; };
	std::vector<Op> ops;
	for (int w = 0; w < 4; ++w)
		for (int f = 0; f < 2; ++f)
		{
			auto& x = tab.e[w][f];
			mc::check(x.legal == x.mockCallable, "calling through a ", ways[w], " is ", x.mockCallable ? "possible" : "impossible", " but C++ overload resolution says otherwise (", Set::name, ")");
			mc::check(x.legal == x.mockExpectable, "creating an expectation through a ", ways[w], " is ", x.mockExpectable ? "possible" : "impossible", " but C++ overload resolution says otherwise (", Set::name, ")");
			if (x.overload >= 0)
			{
				mc::check(x.noexceptCall == desc(x.overload).isNoexcept, "noexcept of the call operator differs from the signature: ", Set::name);
				ops.push_back({w, f});
			}
		}
	struct Cleanup { std::vector<Exp>& v; ~Cleanup() { for (auto& e : v) delete e.p; } } cleanup{exps};
	if (mc::violated() || ops.empty()) return;

	const int context = mc::choose(ctx::count);
	const int depth = context ? 2 : mc::by_tier(4, 5);
	if (context) mc::note("calls take place", ctx::name(context));
	for (int d = 0; d < depth && !mc::violated(); ++d)
	{
		const int nc = d + 1 < depth ? static_cast<int>(ops.size()) : 0;
		const int c = mc::choose(nc + static_cast<int>(ops.size()) * (d > 0 ? 2 : 1));
		if (c < nc)
		{
			auto [w, f] = ops[c];
			const int id = static_cast<int>(exps.size());
			const int arg = 1;
			mc::note("create E", id, " through ", ways[w], f ? " (string)" : " (int)");
			exps.push_back({tab.e[w][f].overload, arg, 0, tab.e[w][f].create(mock, id, arg)});
			continue;
		}
		auto [w, f] = ops[(c - nc) % static_cast<int>(ops.size())];
		const int arg = 1 + (c - nc) / static_cast<int>(ops.size()); // 2: no expectation accepts it
		auto& x = tab.e[w][f];
		int expected = -1;
		for (int i = static_cast<int>(exps.size()) - 1; i >= 0; --i)
			if (exps[i].overload == x.overload && exps[i].count < 2 && arg == exps[i].arg) { expected = i; break; }
		if (expected < 0 && desc(x.overload).isNoexcept) return; // a rejected call may not leave a noexcept function
		auto before = rec::log().events.size();
		int got = -1;
		const int loc = 20 + d % 4;
		try { ctx::run(context, [&] { got = x.call(mock, arg, rec::locs()[loc]); }); }
		catch (const rec::NoMatch&) {}
		catch (const rec::Inapplicable&) {}
		mc::note("call through ", ways[w], f ? " (string" : " (int", arg, ") -> ", got);
		mc::observe(static_cast<std::uint64_t>(got + 2));
		mc::check_eq(got, expected, Set::name, ": call through ", ways[w], " (family ", f, ") was answered by the wrong expectation");
		if (mc::check(rec::log().events.size() == before + 1 && rec::log().events.back().call, "a call must issue exactly one report"))
		{
			auto& ev = rec::log().events.back();
			const auto o = desc(x.overload);
			using mimicpp::ValueCategory;
			mc::check(ev.call->fromConstness == (o.isConst ? mimicpp::Constness::as_const : mimicpp::Constness::non_const), Set::name, ": wrong constness in the call report");
			mc::check(ev.call->fromCategory == (o.cat == 0 ? ValueCategory::any : o.cat == 1 ? ValueCategory::lvalue : ValueCategory::rvalue), Set::name, ": wrong value category in the call report");
			mc::check(ev.call->returnTypeIndex == (f ? Set::isVoid ? typeid(void) : typeid(std::string) : typeid(int)), "wrong return type");
			mc::check(ev.call->argDetails.size() == 1 && ev.call->argDetails[0].typeIndex == (f ? typeid(const std::string&) : typeid(int)), "wrong argument type");
			mc::check_eq(rec::id_of(ev.call->fromLoc), loc, "wrong call location");
			bool saturated = false;
			for (auto& q : exps) saturated = saturated || (q.overload == x.overload && q.count == 2 && q.arg == arg);
			mc::check(ev.kind == (expected >= 0 ? rec::Kind::full : saturated ? rec::Kind::inapplicable : rec::Kind::no_match), Set::name, ": wrong kind of report: ", rec::name(ev.kind));
			for (auto& r : ev.matches)
			{
				const int id = rec::id_of(r.sourceLocation);
				if (ev.kind != rec::Kind::no_match) mc::check(id >= 0 && exps[id].overload == x.overload, Set::name, ": an expectation of another overload is reported as match");
			}
		}
		if (expected >= 0) ++exps[expected].count;
		std::string k;
		for (auto& q : exps)
		{
			k += std::to_string(q.overload) + ":" + std::to_string(q.count) + ",";
			mc::check(q.p->is_satisfied(), "times(0,2) is always satisfied");
		}
		mc::state(k);
	}
}
