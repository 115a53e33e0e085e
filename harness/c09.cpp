// C09: side effects in order on the caller's actual arguments, then the finalizer; nothing of other expectations.
// FIN selects the finalizer of the expectation under test (the combinations are compile-time types).
#include "mc.hpp"
#include "rec.hpp"
#include "ctx.hpp"
#include <array>
namespace mpp = mimicpp;

#ifndef FIN
#define FIN 0
#endif

using Sig = int(int, int&, const int&, int&&);

struct Seen { int exp, pos, kind; std::vector<std::pair<const int*, int>> args; };
static std::vector<Seen> trace;
static int external = 500;
static int finalizerRuns;
struct Thrown // knows where it lives and whether somebody moved from it
{
	int v; const Thrown* self;
	Thrown(int x) : v{x}, self{this} {}
	Thrown(const Thrown& o) : v{o.v}, self{this} {}
	Thrown(Thrown&& o) noexcept : v{std::exchange(o.v, -999)}, self{this} {}
	Thrown& operator=(const Thrown& o) { v = o.v; return *this; }
	Thrown& operator=(Thrown&& o) noexcept { v = std::exchange(o.v, -999); return *this; }
};

constexpr int kinds = 9;
// argument indices handled by an effect kind, in order
static const std::vector<int> indices[kinds]{{}, {0}, {1}, {2}, {3}, {1, 0}, {3, 1, 0}, {0, 0}, {0, 1, 2, 3}};

struct Act
{
	int exp, pos, kind;
	template <typename... Ts>
	void operator()(Ts&... ts) const
	{
		++rec::log().effects;
		Seen s{exp, pos, kind, {}};
		(s.args.emplace_back(&ts, static_cast<int>(ts)), ...);
		int j = 0;
		auto modify = [&]<typename T>(T& t) {
			if constexpr (!std::is_const_v<T>) t = t * 3 + pos + 1 + j;
			++j;
		};
		(modify(ts), ...);
		trace.push_back(std::move(s));
	}
};

template <int K>
auto effect(int exp, int pos)
{
	Act a{exp, pos, K};
	namespace t = mpp::then;
	if constexpr (K == 0) return t::invoke([a] { a(); });
	else if constexpr (K == 1) return t::apply_arg<0>(a);
	else if constexpr (K == 2) return t::apply_arg<1>(a);
	else if constexpr (K == 3) return t::apply_arg<2>(a);
	else if constexpr (K == 4) return t::apply_arg<3>(a);
	else if constexpr (K == 5) return t::apply_args<1, 0>(a);
	else if constexpr (K == 6) return t::apply_args<3, 1, 0>(a);
	else if constexpr (K == 7) return t::apply_args<0, 0>(a);
	else return t::apply_all(a);
}

static std::vector<std::pair<const int*, int>> finArgs;
template <int F>
auto finalizer()
{
	namespace f = mpp::finally;
	auto sum = [](auto&... ts) {
		++finalizerRuns;
		(finArgs.emplace_back(&ts, static_cast<int>(ts)), ...);
		int r = 1;
		((r = r * 7 + ts), ...);
		return r;
	};
	if constexpr (F == 0) return f::returns(42);
	else if constexpr (F == 1) return f::returns(std::ref(external));
	else if constexpr (F == 2) return f::returns_arg<0>();
	else if constexpr (F == 3) return f::returns_arg<1>();
	else if constexpr (F == 4) return f::returns_arg<3>();
	else if constexpr (F == 5) return f::returns_apply_result_of<3, 1>(sum);
	else if constexpr (F == 6) return f::returns_apply_all_result_of(sum);
	else if constexpr (F == 7) return f::returns_result_of([n = 10]() mutable { ++finalizerRuns; return n++; });
	else return f::throws(Thrown{7});
}

static auto base_builder(mpp::Mock<Sig>& m, int accepted)
{
	using mpp::matches::_;
	return m.expect_call(mpp::matches::predicate([accepted](const int& v) { return (accepted >> v & 1) != 0; }), _, _, _) && mpp::expect::times(0, 2);
}

// Before: the finalizer is written before the side effects
template <bool Before, typename... Policies>
mpp::ScopedExpectation assemble(mpp::Mock<Sig>& m, int id, int accepted, Policies&&... ps)
{
	if constexpr (Before)
	{
		auto all = ((base_builder(m, accepted) && finalizer<FIN>()) && ... && std::move(ps));
		return mpp::ScopedExpectation{std::move(all), rec::locs()[id]};
	}
	else
	{
		auto all = (base_builder(m, accepted) && ... && std::move(ps));
		return mpp::ScopedExpectation{std::move(all) && finalizer<FIN>(), rec::locs()[id]};
	}
}

using Maker = mpp::ScopedExpectation (*)(mpp::Mock<Sig>&);
struct Combo { std::vector<int> kinds; Maker make; };

template <int... Ks>
Combo combo()
{
	return {{Ks...}, [](mpp::Mock<Sig>& m) {
		return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
			return assemble<(1 + ... + Ks) % 2 == 0>(m, 0, 0b110, effect<Ks>(0, static_cast<int>(Is))...);
		}(std::make_index_sequence<sizeof...(Ks)>{});
	}};
}

static const std::vector<Combo>& combos()
{
	static const std::vector<Combo> c = [] {
		std::vector<Combo> v;
		v.push_back(combo<>());
		[&]<std::size_t... Ks>(std::index_sequence<Ks...>) { (v.push_back(combo<static_cast<int>(Ks)>()), ...); }(std::make_index_sequence<kinds>{});
#if FIN == 6
			[&]<std::size_t... Ks>(std::index_sequence<Ks...>) { (v.push_back(combo<static_cast<int>(Ks / kinds), static_cast<int>(Ks % kinds)>()), ...); }(std::make_index_sequence<kinds * kinds>{});
#else
		{
			constexpr std::array<int, 4> some{0, 2, 5, 8};
			[&]<std::size_t... Ks>(std::index_sequence<Ks...>) { (v.push_back(combo<some[Ks / 4], some[Ks % 4]>()), ...); }(std::make_index_sequence<16>{});
		}
#endif
#if FIN == 2 || FIN == 5
		{
			constexpr std::array<int, 3> few{0, 5, 8};
			[&]<std::size_t... Ks>(std::index_sequence<Ks...>) { (v.push_back(combo<few[Ks / 9], few[Ks / 3 % 3], few[Ks % 3]>()), ...); }(std::make_index_sequence<27>{});
		}
#endif
		return v;
	}();
	return c;
}

static void scenario(int calls, bool contexts)
{
	rec::reset();
	trace.clear();
	const Combo& c = mc::pick_from(combos());
	const bool competitorNewer = mc::choose_bool();
	std::string text;
	for (int k : c.kinds) text += std::to_string(k) + " ";
	mc::note("effects ", text);
	const int context = contexts ? 1 + mc::choose(ctx::count - 1) : 0;
	if (context) mc::note("calls take place", ctx::name(context));
	mpp::Mock<Sig> mock{};
	int competitorRuns = 0;
	auto competitor = [&] {
		return mpp::ScopedExpectation{
			mock.expect_call(1, mpp::matches::_, mpp::matches::_, mpp::matches::_)
			and mpp::expect::times(0, 1)
			and mpp::then::invoke([&] { ++competitorRuns; })
			and mpp::then::apply_arg<1>([](int& v) { v += 1000000; })
			and mpp::finally::returns(-5), rec::locs()[1]};
	};
	std::optional<mpp::ScopedExpectation> comp;
	if (!competitorNewer) comp.emplace(competitor());
	mpp::ScopedExpectation e0 = c.make(mock);
	if (competitorNewer) comp.emplace(competitor());
	int n0 = 0, n1 = 0, resultRuns = 0;
	for (int call = 0; call < calls && !mc::violated(); ++call)
	{
		const int a0 = 1 + mc::choose(3);
		int p0 = a0, p1 = 10 + call, p2 = 20 + call, p3 = 30 + call;
		external = 500 + call;
		trace.clear();
		finArgs.clear();
		finalizerRuns = 0;
		const int compBefore = competitorRuns;
		enum { rejected, value, thrown } how = rejected;
		int result = 0;
		try { ctx::run(context, [&] { result = mock(p0, p1, p2, std::move(p3)); how = value; }); }
		catch (const Thrown& t) { how = thrown; result = t.v; mc::check(t.self == &t, "the thrown object is not a copy"); }
		catch (const rec::NoMatch&) {}
		catch (const rec::Inapplicable&) {}
		mc::note("call ", a0, " -> ", how == rejected ? "rejected" : how == thrown ? "thrown " : "", result);
		mc::observe(static_cast<std::uint64_t>(result * 4 + how));
		// oracle
		const bool can1 = a0 == 1 && n1 < 1, can0 = (a0 == 1 || a0 == 2) && n0 < 2;
		const int who = can1 && (competitorNewer || !can0) ? 1 : can0 ? 0 : -1;
		int m[4] = {a0, 10 + call, 20 + call, 30 + call};
		if (who == 1)
		{
			m[1] += 1000000;
			++n1;
			mc::check(how == value && result == -5, "the competitor's result is expected");
		}
		mc::check_eq(competitorRuns - compBefore, who == 1 ? 1 : 0, "runs of the competitor's side effect");
		std::vector<Seen> want;
		if (who == 0)
		{
			++n0;
			for (std::size_t p = 0; p < c.kinds.size(); ++p)
			{
				Seen s{0, static_cast<int>(p), c.kinds[p], {}};
				for (int i : indices[c.kinds[p]]) s.args.emplace_back(nullptr, m[i]);
				int j = 0;
				for (int i : indices[c.kinds[p]]) { if (i != 2) m[i] = m[i] * 3 + static_cast<int>(p) + 1 + j; ++j; }
				want.push_back(s);
			}
		}
		const int* const homes[4]{nullptr, &p1, &p2, &p3};
		const int* home0 = nullptr;
		auto at = [&](int index, const int* addr, const char* where) {
			if (index == 0)
			{
				if (!home0) home0 = addr;
				mc::check(addr == home0 && addr != &p0, where, ": the by-value argument is not one and the same object");
			}
			else mc::check(addr == homes[index], where, ": argument ", index, " is not the caller's object");
		};
		if (mc::check(trace.size() == want.size(), "side effects executed: ", trace.size(), ", expected ", want.size()))
			for (std::size_t p = 0; p < want.size(); ++p)
			{
				mc::check(trace[p].pos == want[p].pos && trace[p].kind == want[p].kind, "side effects ran in the wrong order");
				if (!mc::check(trace[p].args.size() == want[p].args.size(), "wrong number of arguments")) continue;
				for (std::size_t i = 0; i < want[p].args.size(); ++i)
				{
					const int index = indices[want[p].kind][i];
					mc::check_eq(trace[p].args[i].second, want[p].args[i].second, "value of argument ", index, " seen by effect ", p, " (kind ", want[p].kind, ")");
					at(index, trace[p].args[i].first, "effect");
				}
			}
		if (who == 0)
		{
			int expect = 0;
			std::vector<int> fin;
			switch (FIN)
			{
			case 0: expect = 42; break;
			case 1: expect = 500 + call; break;
			case 2: expect = m[0]; break;
			case 3: expect = m[1]; break;
			case 4: expect = m[3]; break;
			case 5: fin = {3, 1}; break;
			case 6: fin = {0, 1, 2, 3}; break;
			case 7: expect = 10 + resultRuns++; break;
			default: expect = 7; break;
			}
			if (!fin.empty())
			{
				expect = 1;
				for (int i : fin) expect = expect * 7 + m[i];
				if (mc::check(finArgs.size() == fin.size(), "finalizer got ", finArgs.size(), " arguments"))
					for (std::size_t i = 0; i < fin.size(); ++i) at(fin[i], finArgs[i].first, "finalizer");
			}
			mc::check(how == (FIN == 8 ? thrown : value), "the call did not end as its finalizer says");
			mc::check_eq(result, expect, "result of finalizer ", FIN);
			mc::check_eq(finalizerRuns, FIN >= 5 && FIN <= 7 ? 1 : 0, "runs of the finalizer");
		}
		else
		{
			mc::check(finalizerRuns == 0, "a finalizer of an expectation that did not answer was executed");
			if (who < 0) mc::check(how == rejected, "call should have been rejected");
		}
		mc::check_eq(p0, a0, "caller's by-value argument");
		mc::check_eq(p1, m[1], "caller's lvalue argument after the call");
		mc::check_eq(p2, 20 + call, "caller's const argument");
		mc::check_eq(p3, m[3], "caller's rvalue argument after the call");
		mc::state(text + std::to_string(n0) + std::to_string(n1) + std::to_string(m[1]));
	}
}

#if FIN == 0
// reference and move-only results, void mocks, callables with differing noexcept overloads
struct Tricky
{
	int* runs;
	int operator()() & { ++*runs; throw Thrown{3}; }
	int operator()() && noexcept { return 1; }
	int operator()() const& noexcept { return 2; }
};
// throws for exactly the argument the library has to hand over
struct TrickyArg
{
	template <typename T>
	static constexpr bool isMutableLvalue = std::is_lvalue_reference_v<T> && !std::is_const_v<std::remove_reference_t<T>>;
	template <typename... Ts>
	int operator()(Ts&&...) const noexcept(!(isMutableLvalue<Ts&&> && ...))
	{
		if constexpr ((isMutableLvalue<Ts&&> && ...)) throw Thrown{3};
		return 1;
	}
};
struct Source { };
struct FromR { FromR(Source&&) { throw Thrown{3}; } FromR(const Source&) noexcept {} FromR(Source&) noexcept {} };
struct FromL { FromL(Source&&) noexcept {} FromL(const Source&) noexcept {} FromL(Source&) { throw Thrown{3}; } };
template <typename Return, typename... Params, typename Fin, typename... Args>
static void arrives(Fin&& fin, Args&&... args)
{
	const int st = mc::in_child([&] {
		mpp::Mock<Return(Params...)> m;
		int v = 0;
		mpp::ScopedExpectation e{m.expect_call((static_cast<void>(args), mpp::matches::_)...) and std::forward<Fin>(fin)};
		try { (void)m(std::forward<Args>(args)...); }
		catch (const Thrown& t) { v = t.v; }
		mc::check(v == 3, "the exception did not arrive");
	});
	mc::check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the exception of a finalizer terminated the process");
}
static void exceptions()
{
	namespace f = mpp::finally;
	int a = 1;
	const int which = mc::choose(11);
	mc::note("exception case ", which);
	rec::reset();
	switch (which)
	{
	case 0: arrives<int, int>(f::returns_apply_all_result_of(TrickyArg{}), 1); break;
	case 1: arrives<int, int&&>(f::returns_apply_all_result_of(TrickyArg{}), 1); break;
	case 2: arrives<int, int, int&>(f::returns_apply_all_result_of(TrickyArg{}), 1, a); break;
	case 3: arrives<int, int>(f::returns_apply_result_of<0>(TrickyArg{}), 1); break;
	case 4: arrives<int, int&&, int>(f::returns_apply_result_of<1, 0>(TrickyArg{}), 1, 2); break;
	case 5: arrives<FromR>(f::returns_result_of([] { return Source{}; })); break;
	case 6: arrives<FromR>(f::returns_result_of([]() noexcept { return Source{}; })); break;
	case 7: arrives<FromL>(f::returns(Source{})); break;
	case 8: arrives<FromR, Source>(f::returns_arg<0>(), Source{}); break;
	case 9: arrives<FromR, Source>(f::returns_apply_result_of<0>([](Source&) noexcept { return Source{}; }), Source{}); break;
	default: arrives<int>(f::throws(Thrown{3})); break;
	}
}
static void references()
{
	rec::reset();
	using mpp::matches::_;
	int a = 1, b = 2, ext = 3;
	const int which = mc::choose(13);
	mc::note("finalizer case ", which);
	switch (which)
	{
	case 0: { mpp::Mock<int&(int&, int&)> m; mpp::ScopedExpectation e{m.expect_call(_, _) and mpp::finally::returns_arg<1>()}; mc::check(&m(a, b) == &b, "returns_arg<1> of a reference is not the caller's object"); break; }
	case 1: { mpp::Mock<const int&(int&, const int&)> m; mpp::ScopedExpectation e{m.expect_call(_, _) and mpp::finally::returns_arg<1>()}; mc::check(&m(a, b) == &b, "returns_arg of a const reference is not the caller's object"); break; }
	case 2: { mpp::Mock<int&()> m; mpp::ScopedExpectation e{m.expect_call() and mpp::finally::returns(std::ref(ext))}; mc::check(&m() == &ext, "returns(ref) is not the referenced object"); break; }
	case 3: { mpp::Mock<int&()> m; mpp::ScopedExpectation e{m.expect_call() and mpp::finally::returns(5) and mpp::expect::twice()}; int& r = m(); mc::check_eq(r, 5, "returns(value) by reference"); r = 6; mc::check_eq(m(), 6, "stored value by reference"); break; }
	case 4: { mpp::Mock<std::unique_ptr<int>(std::unique_ptr<int>)> m; mpp::ScopedExpectation e{m.expect_call(_) and mpp::finally::returns_arg<0>()}; auto p = std::make_unique<int>(4); int* raw = p.get(); mc::check(m(std::move(p)).get() == raw, "returns_arg of a move-only argument"); break; }
	case 5: { mpp::Mock<int&&(int&&)> m; mpp::ScopedExpectation e{m.expect_call(_) and mpp::finally::returns_arg<0>()}; int&& r = m(std::move(a)); mc::check(&r == &a, "returns_arg of an rvalue"); break; }
	case 6: { mpp::Mock<std::string()> m; std::string s(40, 'x'); mpp::ScopedExpectation e{m.expect_call() and mpp::expect::times(3) and mpp::finally::returns(s)}; for (int i = 0; i < 3; ++i) mc::check_eq(m(), s, "returns(value) at call ", i); break; }
	case 7: { mpp::Mock<std::string(std::string&&)> m; mpp::ScopedExpectation e{m.expect_call(_) and mpp::finally::returns_arg<0>()}; std::string s(40, 'y'); mc::check_eq(m(std::move(s)), std::string(40, 'y'), "returns_arg of string&&"); break; }
	case 8: { mpp::Mock<void(int&)> m; mpp::ScopedExpectation e{m.expect_call(_) and mpp::then::apply_arg<0>([](int& v) { v = 9; })}; m(a); mc::check_eq(a, 9, "void mock"); break; }
	case 9: { mpp::Mock<void()> m; mpp::ScopedExpectation e{m.expect_call() and mpp::expect::twice() and mpp::finally::throws(Thrown{4})}; for (int i = 0; i < 2; ++i) { int v = 0; try { m(); } catch (const Thrown& t) { v = t.v; } mc::check_eq(v, 4, "throws on a void mock"); } break; }
	case 10: { mpp::Mock<int&(std::vector<int>&)> m; mpp::ScopedExpectation e{m.expect_call(_) and mpp::finally::returns_apply_result_of<0>([](std::vector<int>& v) -> int& { return v[1]; })}; std::vector<int> v{1, 2}; mc::check(&m(v) == &v[1], "reference result of a callable"); break; }
	case 11: { mpp::Mock<long(short)> m; mpp::ScopedExpectation e{m.expect_call(_) and mpp::finally::returns_arg<0>()}; mc::check_eq(m(-3), -3L, "converted argument"); break; }
	default:
	{
		// the callable is invoked as lvalue; whatever it throws has to arrive at the caller
		int runs = 0, v = 0;
		const int st = mc::in_child([&] {
			mpp::Mock<int()> m;
			const Tricky constant{&runs};
			mpp::ScopedExpectation e{mc::choose_bool() ? mpp::ScopedExpectation{m.expect_call() and mpp::finally::returns_result_of(Tricky{&runs})}
				: mpp::ScopedExpectation{m.expect_call() and mpp::finally::returns_result_of(constant)}};
			try { (void)m(); }
			catch (const Thrown& t) { v = t.v; }
			mc::check(runs == 1 && v == 3, "the callable's exception did not arrive");
		});
		mc::check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the callable's exception terminated the process");
	}
	}
}
#endif

int main(int argc, char** argv)
{
	std::vector<mc::Scenario> s{{"effects-then-finalizer-" + std::to_string(FIN), [] { scenario(3, false); }}, {"contexts-" + std::to_string(FIN), [] { scenario(mc::by_tier(1, 2), true); }}};
#if FIN == 0
	s.push_back({"result-categories", references});
	s.push_back({"exceptions-of-finalizers", exceptions});
#endif
	return mc::main(argc, argv, std::move(s), 2);
}
