// C13 / C14: lifetime- and relocation-watched objects under every history of special member functions.
//   TYPE selects the watched type.
#include "mc.hpp"
#include "rec.hpp"
#include "ctx.hpp"
#include <memory>
#ifndef TYPE
#define TYPE 0
#endif
namespace mpp = mimicpp;
namespace expect = mimicpp::expect;
using Scoped = mpp::ScopedExpectation;

struct Base // everything may throw, so that reports can leave the special member functions
{
	int v{};
	Base() = default;
	explicit Base(int x) : v{x} {}
	Base(const Base&) = default;
	Base& operator=(const Base&) = default;
	Base(Base&& o) noexcept(false) : v{std::exchange(o.v, -1)} {}
	Base& operator=(Base&& o) noexcept(false) { v = std::exchange(o.v, -1); return *this; }
	~Base() noexcept(false) {}
};
struct VirtualBase
{
	int v{};
	VirtualBase() = default;
	explicit VirtualBase(int x) : v{x} {}
	VirtualBase(const VirtualBase&) = default;
	VirtualBase& operator=(const VirtualBase&) = default;
	VirtualBase(VirtualBase&& o) noexcept(false) : v{std::exchange(o.v, -1)} {}
	VirtualBase& operator=(VirtualBase&& o) noexcept(false) { v = std::exchange(o.v, -1); return *this; }
	virtual ~VirtualBase() noexcept(false) {}
};
template <typename Watcher>
struct Direct : Watcher // a user type that inherits the watcher directly
{
	int v{};
	Direct() = default;
	explicit Direct(int x) : v{x} {}
	Direct(const Direct&) = default;
	Direct& operator=(const Direct&) = default;
	Direct(Direct&& o) noexcept(false) : Watcher(std::move(o)), v{std::exchange(o.v, -1)} {}
	Direct& operator=(Direct&& o) noexcept(false) { Watcher::operator=(std::move(o)); v = std::exchange(o.v, -1); return *this; }
	~Direct() noexcept(false) {}
};

struct Plain // the usual base: nothing may throw, hence nothing may be violated either
{
	int v{};
	Plain() = default;
	explicit Plain(int x) : v{x} {}
	Plain(const Plain&) = default;
	Plain& operator=(const Plain&) = default;
	Plain(Plain&& o) noexcept : v{std::exchange(o.v, -1)} {}
	Plain& operator=(Plain&& o) noexcept { v = std::exchange(o.v, -1); return *this; }
};

using L = mpp::LifetimeWatcher;
using R = mpp::RelocationWatcher;
#if TYPE == 0
using Obj = Direct<L>; constexpr bool hasL = true, hasR = false;
#elif TYPE == 1
using Obj = mpp::Watched<Base, L>; constexpr bool hasL = true, hasR = false;
#elif TYPE == 2
using Obj = mpp::Watched<VirtualBase, L>; constexpr bool hasL = true, hasR = false;
#elif TYPE == 3
using Obj = Direct<R>; constexpr bool hasL = false, hasR = true;
#elif TYPE == 4
using Obj = mpp::Watched<Base, R>; constexpr bool hasL = false, hasR = true;
#elif TYPE == 5
using Obj = mpp::Watched<VirtualBase, R>; constexpr bool hasL = false, hasR = true;
#elif TYPE == 6
using Obj = mpp::Watched<Base, L, R>; constexpr bool hasL = true, hasR = true;
#elif TYPE == 7
using Obj = mpp::Watched<VirtualBase, R, L>; constexpr bool hasL = true, hasR = true;
#else
using Obj = mpp::Watched<Plain, R, L>; constexpr bool hasL = true, hasR = true;
#endif
constexpr bool quiet = TYPE == 8; // only histories without violations

struct MExp { bool destruct; int route; int min{1}, max{1}, count{}; bool alive{true}; };
struct MObj { bool exists{}; int life{-1}, reloc{-1}; int value{}; };

struct World
{
	std::vector<Obj*> obj;
	std::vector<MObj> m;
	std::vector<MExp> exps;
	std::vector<Scoped*> real;
	std::vector<bool> expected; // per lifetime: was a destruct expectation ever created
	int routes{}, values{};
	int context{}; // circumstances of every operation
	bool ended{}; // a reporter exception left the objects in an unspecified state

	explicit World(int slots) : obj(static_cast<std::size_t>(slots)), m(static_cast<std::size_t>(slots)) { rec::reset(); }
	~World()
	{
		rec::log().throwUnfulfilled = false;
		for (auto* p : real) delete p;
		if (!quiet) for (auto* p : obj) { try { delete p; } catch (...) { } }
	}

	int fresh_life() { expected.push_back(false); return static_cast<int>(expected.size()) - 1; }
	void fresh(MObj& o)
	{
		if (hasL) o.life = fresh_life();
		if (hasR) o.reloc = routes++;
	}

	enum Out { nothing, full, noMatch, inapplicable };
	struct Want { Out out{nothing}; int exp{-1}; };

	// the outcome of calling a destruction/relocation mock
	Want predict(bool destruct, int route) const
	{
		Want w{noMatch, -1};
		for (int i = static_cast<int>(exps.size()) - 1; i >= 0; --i)
		{
			auto& e = exps[i];
			if (!e.alive || e.destruct != destruct || e.route != route) continue;
			if (e.count < e.max) return {full, i};
			w.out = inapplicable;
		}
		return w;
	}

	// runs an operation that has to cause exactly the given report
	template <typename Fn>
	bool run(const std::string& what, Want want, Fn fn)
	{
		mc::note(what, want.out == nothing ? "" : want.out == full ? " -> reports E" + std::to_string(want.exp) : want.out == noMatch ? " -> no match" : " -> inapplicable");
		const auto before = rec::log().events.size();
		Out out = nothing;
		try { ctx::run(context, fn); }
		catch (const rec::NoMatch&) { out = noMatch; }
		catch (const rec::Inapplicable&) { out = inapplicable; }
		const auto n = rec::log().events.size() - before;
		mc::check_eq(n, want.out == nothing ? 0u : 1u, what, ": number of reports");
		if (n == 1)
		{
			auto& ev = rec::log().events.back();
			const Out got = ev.kind == rec::Kind::full ? full : ev.kind == rec::Kind::no_match ? noMatch : ev.kind == rec::Kind::inapplicable ? inapplicable : nothing;
			mc::check(got == want.out && (got == full || got == out), what, ": reported ", rec::name(ev.kind));
			if (got == full)
				mc::check_eq(rec::id_of(ev.matches[0].sourceLocation), want.exp, what, ": reported on another expectation");
			if (got == full) mc::check(out == nothing, what, ": an exception left the operation");
		}
		else mc::check(out == nothing, what, ": an exception left the operation");
		if (want.out == full) ++exps[want.exp].count;
		return want.out == nothing || want.out == full;
	}

	Want destruction(const MObj& o) const { return hasL && o.life >= 0 ? predict(true, o.life) : Want{}; }
	Want relocation(const MObj& o) const { return hasR ? predict(false, o.reloc) : Want{}; }

	void create(int j)
	{
		const int v = values++;
		run("create O" + std::to_string(j), {}, [&] { obj[j] = new Obj(v); });
		m[j] = {.exists = true, .value = v};
		fresh(m[j]);
	}
	void copy_construct(int j, int i)
	{
		run("O" + std::to_string(j) + " copied from O" + std::to_string(i), {}, [&] { obj[j] = new Obj(std::as_const(*obj[i])); });
		m[j] = {.exists = true, .value = m[i].value};
		fresh(m[j]);
	}
	void move_construct(int j, int i)
	{
		const auto want = relocation(m[i]);
		if (!run("O" + std::to_string(j) + " moved from O" + std::to_string(i), want, [&] { obj[j] = new Obj(std::move(*obj[i])); }))
		{
			// the new object never came into being; a relocation watcher keeps its expectations where they are
			return;
		}
		m[j] = m[i];
		m[i].life = m[i].reloc = m[i].value = -1;
	}
	void copy_assign(int j, int i)
	{
		const auto want = destruction(m[j]);
		if (!run("O" + std::to_string(j) + " = O" + std::to_string(i), want, [&] { *obj[j] = std::as_const(*obj[i]); }))
		{
			ended = true;
			return;
		}
		m[j].value = m[i].value;
		fresh(m[j]);
	}
	void move_assign(int j, int i)
	{
		const auto want = relocation(m[i]);
		if (!run("O" + std::to_string(j) + " = move(O" + std::to_string(i) + ")", want, [&] { *obj[j] = std::move(*obj[i]); })) return;
		m[j] = m[i];
		m[i].life = m[i].reloc = m[i].value = -1;
	}
	void destroy(int i)
	{
		const auto want = destruction(m[i]);
		run("destroy O" + std::to_string(i), want, [&] { delete std::exchange(obj[i], nullptr); });
		m[i] = {};
	}
	template <typename O = Obj>
	void expect_destruct([[maybe_unused]] int i)
	{
		if constexpr (hasL)
		{
			const int id = static_cast<int>(exps.size());
			mc::note("E", id, ": expect destruction of O", i);
			const bool allowed = !expected[m[i].life];
			const auto before = rec::log().events.size();
			bool refused = false;
			try { ctx::run(context, [&] { real.push_back(new Scoped{static_cast<O*>(obj[i])->expect_destruct(), rec::locs()[id]}); }); }
			catch (const std::logic_error&) { refused = true; }
			mc::check_eq(refused, !allowed, "second destruct expectation for one lifetime refused");
			mc::check_eq(rec::log().events.size(), before, "reports while creating an expectation");
			if (allowed) { exps.push_back({.destruct = true, .route = m[i].life}); expected[m[i].life] = true; }
		}
	}
	template <typename O = Obj>
	void expect_relocate([[maybe_unused]] int i, [[maybe_unused]] int kind)
	{
		if constexpr (hasR)
		{
			const int id = static_cast<int>(exps.size());
			mc::note("E", id, ": expect relocation of O", i, kind ? " up to twice" : "");
			if (kind == 0) real.push_back(new Scoped{static_cast<O*>(obj[i])->expect_relocate(), rec::locs()[id]});
			else real.push_back(new Scoped{static_cast<O*>(obj[i])->expect_relocate() and expect::times(1, 2), rec::locs()[id]});
			exps.push_back({.destruct = false, .route = m[i].reloc, .max = kind ? 2 : 1});
		}
	}
	void drop(int k)
	{
		mc::note("remove E", k);
		auto& e = exps[k];
		const auto before = rec::log().events.size();
		rec::log().throwUnfulfilled = true;
		bool threw = false;
		try { ctx::run(context, [&] { delete std::exchange(real[k], nullptr); }); }
		catch (const rec::Unfulfilled&) { threw = true; }
		rec::log().throwUnfulfilled = false;
		const bool unmet = e.count < e.min;
		mc::check_eq(rec::log().events.size() - before, unmet ? 1u : 0u, "reports when expectation E", k, " is removed");
		mc::check_eq(threw, unmet && !ctx::in_flight(context), "the reporter's exception");
		if (unmet && !mc::violated())
		{
			auto& ev = rec::log().events.back();
			mc::check(ev.kind == rec::Kind::unfulfilled && rec::id_of(ev.exp->sourceLocation) == k, "unfulfilled report names another expectation");
		}
		e.alive = false;
	}
	void observe_all()
	{
		std::string key;
		for (std::size_t i = 0; i < m.size(); ++i)
		{
			if (!m[i].exists) { key += '-'; continue; }
			mc::check_eq(obj[i]->v, m[i].value, "value of O", i);
			key += 'o' + std::to_string(m[i].life) + ',' + std::to_string(m[i].reloc);
		}
		for (std::size_t k = 0; k < exps.size(); ++k)
		{
			if (!exps[k].alive) { key += 'x'; continue; }
			const bool sat = exps[k].count >= exps[k].min;
			mc::check_eq(real[k]->is_satisfied(), sat, "E", k, " satisfied");
			mc::check_eq(rec::id_of(real[k]->from()), static_cast<int>(k), "E", k, " location");
			key += std::to_string(exps[k].count) + (exps[k].destruct ? 'd' : 'r') + std::to_string(exps[k].route);
		}
		mc::state(key);
	}
};

static void histories(int depth, int slots, bool withRelocationKinds, bool contexts = false)
{
	World w{slots};
	if (contexts) mc::note("everything", ctx::name(w.context = 1 + mc::choose(ctx::count - 1)));
	// non-initial start: one object with its expectations
	w.create(0);
	for (int d = 0; d < depth && !mc::violated() && !w.ended; ++d)
	{
		struct Op { int kind, a, b; };
		std::vector<Op> ops;
		int freeSlot = -1;
		for (int i = slots - 1; i >= 0; --i) if (!w.m[i].exists) freeSlot = i;
		const bool last = d + 1 == depth;
		if (freeSlot >= 0 && !last) ops.push_back({0, freeSlot, 0});
		for (int i = 0; i < slots; ++i)
		{
			if (!w.m[i].exists) continue;
			const bool carries = (!hasL || w.m[i].life >= 0) && (!hasR || w.m[i].reloc >= 0);
			const bool mayEnd = !quiet || w.destruction(w.m[i]).out == World::full || w.destruction(w.m[i]).out == World::nothing;
			const bool mayMove = carries && (!(hasL && hasR) || w.relocation(w.m[i]).out == World::full);
			if (freeSlot >= 0) { ops.push_back({1, freeSlot, i}); if (mayMove || (!hasR && w.m[i].exists)) ops.push_back({2, freeSlot, i}); }
			for (int j = 0; j < slots; ++j)
			{
				if (!w.m[j].exists) continue;
				if (const auto end = w.destruction(w.m[j]).out; !quiet || end == World::full || end == World::nothing)
					ops.push_back({3, j, i}); // also onto itself
				if (i != j && (mayMove || !hasR)) ops.push_back({4, j, i});
			}
			if (mayEnd) ops.push_back({5, i, 0});
			if (hasL && w.m[i].life >= 0 && !last) ops.push_back({6, i, 0});
			if (hasR && w.m[i].reloc >= 0 && !last && w.exps.size() < 12)
				for (int k = 0; k < (withRelocationKinds ? 2 : 1); ++k) ops.push_back({7, i, k});
		}
		for (std::size_t k = 0; k < w.exps.size(); ++k) if (w.exps[k].alive && (!quiet || w.exps[k].count >= w.exps[k].min)) ops.push_back({8, static_cast<int>(k), 0});
		if (ops.empty()) break;
		const Op o = mc::pick_from(ops);
		switch (o.kind)
		{
		case 0: w.create(o.a); break;
		case 1: w.copy_construct(o.a, o.b); break;
		case 2: w.move_construct(o.a, o.b); break;
		case 3: w.copy_assign(o.a, o.b); break;
		case 4: w.move_assign(o.a, o.b); break;
		case 5: w.destroy(o.a); break;
		case 6: w.expect_destruct(o.a); break;
		case 7: w.expect_relocate(o.a, o.b); break;
		default: w.drop(o.a);
		}
		if (!w.ended) w.observe_all();
	}
	if (w.ended || mc::violated()) return;
	if (quiet)
		for (int i = 0; i < slots; ++i) if (w.m[i].exists && w.m[i].life >= 0 && !w.expected[w.m[i].life]) w.expect_destruct(i);
	// everything ends, objects first or expectations first
	const bool expectationsFirst = !quiet && mc::choose_bool();
	auto objects = [&] { for (int i = 0; i < slots && !mc::violated(); ++i) if (w.m[i].exists) w.destroy(i); };
	auto expectations = [&] { for (std::size_t k = 0; k < w.exps.size() && !mc::violated(); ++k) if (w.exps[k].alive) w.drop(static_cast<int>(k)); };
	if (expectationsFirst) { expectations(); objects(); }
	else { objects(); expectations(); }
}

#if TYPE == 1 || TYPE == 6
// ordered destructions / relocations of two objects
static void sequenced()
{
	rec::reset();
	mpp::SequenceT seq{};
	auto* a = new Obj(0);
	auto* b = new Obj(1);
	int effects = 0;
	auto* ea = new Scoped{a->expect_destruct() and expect::in_sequence(seq) and mpp::then::invoke([&] { effects = effects * 10 + 1; }), rec::locs()[0]};
	auto* eb = new Scoped{b->expect_destruct() and expect::in_sequence(seq) and mpp::then::invoke([&] { effects = effects * 10 + 2; }), rec::locs()[1]};
	const bool inOrder = mc::choose_bool();
	mc::note(inOrder ? "in order" : "out of order");
	bool first = true, second = true;
	try { delete (inOrder ? a : b); } catch (const rec::Inapplicable&) { first = false; }
	try { delete (inOrder ? b : a); } catch (const rec::Inapplicable&) { second = false; }
	mc::check_eq(first, inOrder, "first destruction accepted");
	mc::check_eq(second, true, "second destruction accepted");
	mc::check_eq(effects, inOrder ? 12 : 1, "side effects of the destruct expectations");
	const auto before = rec::log().events.size();
	delete ea;
	delete eb;
	mc::check_eq(rec::log().events.size() - before, inOrder ? 0u : 1u, "unfulfilled reports");
}
#endif

#if TYPE == 2 || TYPE == 7
// destruction through the base class
static void through_base()
{
	rec::reset();
	const bool expected = mc::choose_bool();
	VirtualBase* p = nullptr;
	auto* o = new Obj(5);
	p = o;
	Scoped* e = expected ? new Scoped{o->expect_destruct(), rec::locs()[0]} : nullptr;
	bool threw = false;
	const auto before = rec::log().events.size();
	try { delete p; } catch (const rec::NoMatch&) { threw = true; }
	mc::check_eq(threw, !expected, "unexpected destruction through the base");
	mc::check_eq(rec::log().events.size() - before, 1u, "reports of a destruction through the base");
	delete e;
	mc::check_eq(rec::log().events.size() - before, 1u, "reports after removing the fulfilled expectation");
}
#endif

// Watched mirrors what its base offers
static void traits()
{
	struct N { };
	struct V { virtual ~V() = default; };
	struct ThrowingMove { ThrowingMove() = default; ThrowingMove(ThrowingMove&&) noexcept(false) {} ThrowingMove& operator=(ThrowingMove&&) noexcept(false) { return *this; } };
	auto same = [](auto* p, auto* q, const char* what) {
		using B = std::remove_pointer_t<decltype(p)>;
		using W = std::remove_pointer_t<decltype(q)>;
		mc::check_eq(std::is_nothrow_move_constructible_v<W>, std::is_nothrow_move_constructible_v<B>, what, ": nothrow move construction");
		mc::check_eq(std::is_nothrow_move_assignable_v<W>, std::is_nothrow_move_assignable_v<B>, what, ": nothrow move assignment");
		mc::check_eq(std::is_nothrow_destructible_v<W>, std::is_nothrow_destructible_v<B>, what, ": nothrow destruction");
		mc::check_eq(std::has_virtual_destructor_v<W>, std::has_virtual_destructor_v<B>, what, ": virtual destructor");
	};
	same(static_cast<N*>(nullptr), static_cast<mpp::Watched<N, L, R>*>(nullptr), "plain base");
	same(static_cast<V*>(nullptr), static_cast<mpp::Watched<V, L, R>*>(nullptr), "virtual base");
	same(static_cast<ThrowingMove*>(nullptr), static_cast<mpp::Watched<ThrowingMove, L, R>*>(nullptr), "base with throwing moves");
	same(static_cast<Base*>(nullptr), static_cast<mpp::Watched<Base, R, L>*>(nullptr), "base with throwing destructor");
}

// the base is a part of the watched object: it ends before the destruction is reported, and moves only after the relocation was
#if TYPE == 1 || TYPE == 4 || TYPE == 6 || TYPE == 7
static std::string trace;
struct Seen
{
	Seen() = default;
	Seen(const Seen&) { trace += "copy "; }
	Seen& operator=(const Seen&) { trace += "copy= "; return *this; }
	Seen(Seen&&) noexcept(false) { trace += "move "; }
	Seen& operator=(Seen&&) noexcept(false) { trace += "move= "; return *this; }
#if TYPE == 7
	virtual
#endif
	~Seen() noexcept(false) { trace += "end "; }
};
#if TYPE == 1
using SeenObj = mpp::Watched<Seen, L>;
#elif TYPE == 4
using SeenObj = mpp::Watched<Seen, R>;
#elif TYPE == 6
using SeenObj = mpp::Watched<Seen, L, R>;
#else
using SeenObj = mpp::Watched<Seen, R, L>;
#endif
template <typename O>
static void order()
{
	rec::reset();
	trace.clear();
	auto* o = new O;
	std::vector<Scoped*> exps;
	const bool destruct = mc::choose_bool(), relocate = mc::choose_bool();
	if constexpr (hasL) if (destruct) exps.push_back(new Scoped{o->expect_destruct() and mpp::then::invoke([] { trace += "reported-end "; }), rec::locs()[0]});
	if constexpr (hasR) if (relocate) exps.push_back(new Scoped{o->expect_relocate() and expect::times(0, 5) and mpp::then::invoke([] { trace += "reported-move "; }), rec::locs()[1]});
	std::string want;
	auto step = [&](const char* what, std::string expected, auto fn) {
		trace.clear();
		mc::note(what);
		try { fn(); } catch (const rec::NoMatch&) { trace += "refused "; }
		mc::check_eq(trace, expected, what, ": what happened to the object");
	};
	O* other = nullptr;
	// a refusal after the lifetime has been transferred already would end that lifetime while unwinding
	const int how = TYPE == 6 && !relocate ? 0 : mc::choose(3);
	const std::string moved = hasR ? relocate ? "reported-move " : "refused " : "";
	const std::string ended = hasL ? destruct ? "reported-end " : "refused " : "";
	if (how == 0) step("destroy", "end " + ended, [&] { delete o; });
	if (how == 1)
	{
		step("move construct", hasR && !relocate ? "refused " : moved + "move ", [&] { other = new O(std::move(*o)); });
		if (other && !mc::violated()) step("destroy", "end " + ended, [&] { delete other; });
	}
	if (how == 2)
	{
		other = new O;
		step("move assign", hasR && !relocate ? "refused " : moved + "move= ", [&] { *other = std::move(*o); });
		if (!(hasR && !relocate) && !mc::violated()) step("destroy", "end " + ended, [&] { delete other; });
	}
	rec::log().throwUnfulfilled = false;
	for (auto* e : exps) delete e;
	// whatever is left stays allocated
}
#endif

int main(int argc, char** argv)
{
	using mc::by_tier;
#ifdef __SANITIZE_ADDRESS__
	const int less = 1;
#else
	const int less = 0;
#endif
	std::vector<mc::Scenario> s{
		{"two-objects", [=] { histories(by_tier(hasL ? 7 : 6, 8) - less, 2, false); }},
		{"three-objects", [=] { histories(by_tier(hasL && hasR ? 6 : 5, 7) - less, 3, false); }},
	};
	s.push_back({"contexts", [=] { histories(by_tier(5, 6), 2, false, true); }});
	if (hasR) s.push_back({"two-objects-relocation-kinds", [=] { histories(by_tier(6, 8) - less, 2, true); }});
	s.push_back({"watched-type-traits", traits});
#if TYPE == 1 || TYPE == 4 || TYPE == 6 || TYPE == 7
	s.push_back({"order", order<SeenObj>});
#endif
#if TYPE == 1 || TYPE == 6
	s.push_back({"sequenced", sequenced});
#endif
#if TYPE == 2 || TYPE == 7
	s.push_back({"through-base", through_base});
#endif
	return mc::main(argc, argv, std::move(s), 3);
}
