// C19: side effects and finalizers may use the mocks themselves.
// Whenever a callback runs, the exploration may issue up to the remaining number of operations from inside it.
#define CORE_MAX_SEQS 1
#include "core.hpp"
using namespace core;
namespace mpp = mimicpp;
namespace expect = mimicpp::expect;
using Scoped = mpp::ScopedExpectation;

struct Rejected { int frame; };
struct Frame { int id; int stage; std::optional<int> thrown; std::size_t reports; };

struct W
{
	Model m{};
	std::vector<MockT> mocks;
	std::vector<Scoped*> real;
	std::unique_ptr<mpp::LazySequence> lazy;
	std::unique_ptr<mpp::GreedySequence> greedy;
	std::vector<Frame> frames;
	std::vector<Spec> specs;
	int budget, maxExps, maxNesting;
	bool finalizerOnly{}, mayThrow{true}, ending{};

	W(int nMocks, std::vector<Spec> s, int b, int exps, int nesting, int seq = 0)
		: mocks(nMocks), specs{std::move(s)}, budget{b}, maxExps{exps}, maxNesting{nesting}
	{
		rec::reset();
		if (seq == 1) lazy = std::make_unique<mpp::LazySequence>();
		if (seq == 2) greedy = std::make_unique<mpp::GreedySequence>();
		if (seq) m.seqs.push_back({.greedy = seq == 2});
	}
	~W() { budget = 0; ending = true; for (auto*& p : real) delete std::exchange(p, nullptr); }

	void create(const Spec& sp)
	{
		const int id = m.create(sp);
		indent(); mc::note("create E", id, ": ", sp.text());
		auto base = [&] {
			return mocks[sp.mock].expect_call(mpp::matches::predicate([mask = sp.mask](const int& v) { return (mask >> v & 1) != 0; }))
				and expect::times(sp.min, sp.max)
				and mpp::then::invoke([this, id] { callback(id, 0); })
				and mpp::then::apply_arg<0>([this, id](int&) { callback(id, 1); })
				and mpp::finally::returns_result_of([this, id] { callback(id, 2); return 1000 + id; });
		};
		const auto events = rec::log().events.size();
		real.push_back(nullptr);
		Scoped* p;
		const auto& loc = rec::locs()[static_cast<std::size_t>(id)];
		if (sp.seqs.empty()) p = new Scoped{base(), loc};
		else if (lazy) p = new Scoped{base() and expect::in_sequence(*lazy), loc};
		else p = new Scoped{base() and expect::in_sequence(*greedy), loc};
		real[static_cast<std::size_t>(id)] = p;
		mc::check_eq(rec::log().events.size(), events, "reports of a creation");
		after();
	}
	void remove(int id)
	{
		indent(); mc::note("remove E", id);
		auto& e = m.exps[id];
		e.alive = false;
		const auto events = rec::log().events.size();
		delete std::exchange(real[id], nullptr);
		int unfulfilled = 0;
		for (auto i = events; i < rec::log().events.size(); ++i) unfulfilled += rec::log().events[i].kind == rec::Kind::unfulfilled && rec::id_of(rec::log().events[i].exp->sourceLocation) == id;
		mc::check_eq(unfulfilled, e.satisfied() ? 0 : 1, "unfulfilled reports of E", id);
		after();
	}
	// returns false if the call has been rejected
	bool call(int mock, int arg)
	{
		const int want = m.choose(mock, arg);
		indent(); mc::note("call m", mock, "(", arg, "), expected answer: ", want < 0 ? std::string{"rejected"} : "E" + std::to_string(want));
		if (want >= 0) m.consume(want);
		const auto events = rec::log().events.size();
		const auto depth = frames.size();
		if (want >= 0) frames.push_back({want, 0, {}, events});
		int got = -1, v = arg, thrown = -1;
		bool rejected = false;
		try { got = mocks[mock](v, rec::locs()[20]) - 1000; }
		catch (const rec::NoMatch&) { rejected = true; }
		catch (const rec::Inapplicable&) { rejected = true; }
		catch (const Rejected& r) { thrown = r.frame; }
		if (mc::violated()) { frames.resize(depth); return !rejected; }
		if (want < 0)
		{
			mc::check(rejected && thrown < 0, "a call that should be rejected was answered by E", got);
			mc::check_eq(rec::log().events.size(), events + 1, "reports of a rejected call");
		}
		else
		{
			const Frame f = frames.back();
			mc::check_eq(frames.size(), depth + 1, "nesting");
			frames.pop_back();
			mc::check(!rejected, "a call that should be answered was rejected");
			if (f.thrown) mc::check_eq(thrown, *f.thrown, "the exception of the finalizer did not leave the call");
			else mc::check(thrown < 0 && got == want, "result of the call: E", got, " instead of E", want);
			mc::check_eq(f.stage, 3, "callbacks that ran for the call");
		}
		mc::observe(static_cast<std::uint64_t>((got + 2) * 8) + frames.size());
		after();
		return want >= 0;
	}
	void callback(int id, int stage)
	{
		if (mc::violated()) return;
		if (frames.empty()) { mc::fail("a callback of E", id, " ran outside of any call"); return; }
		const std::size_t me = frames.size() - 1;
		if (!mc::check(frames[me].id == id && frames[me].stage == stage, "callback ", stage, " of E", id, " ran; expected callback ", frames[me].stage, " of E", frames[me].id)) return;
		frames[me].stage = stage + 1;
		if (stage == 0)
		{
			auto& ev = rec::log().events;
			mc::check(ev.size() == frames[me].reports + 1 && ev.back().kind == rec::Kind::full && rec::id_of(ev.back().matches.at(0).sourceLocation) == id, "the report of the call was not issued before its effects");
		}
		after();
		if (static_cast<int>(frames.size()) > maxNesting || ending) return;
		if (finalizerOnly && stage != 2) return;
		while (budget > 0 && !mc::violated())
		{
			const auto before = m.key();
			if (!operation(stage == 2, me)) break;
		}
	}
	// one operation, or nothing
	bool operation(bool inFinalizer, std::size_t frame)
	{
		std::vector<int> live;
		for (std::size_t i = 0; i < real.size(); ++i) if (real[i]) live.push_back(static_cast<int>(i));
		const int n = static_cast<int>(live.size()), calls = 2 * static_cast<int>(mocks.size());
		const int create_ = static_cast<int>(real.size()) < maxExps ? static_cast<int>(specs.size()) : 0;
		int c = mc::choose(1 + calls + n + create_ + (inFinalizer && mayThrow));
		if (c == 0) return false;
		--budget;
		--c;
		if (c < calls) { call(c / 2, c % 2); return true; }
		c -= calls;
		if (c < n) { remove(live[c]); return true; }
		c -= n;
		if (c < create_) { create(specs[c]); return true; }
		indent(); mc::note("the finalizer throws");
		frames[frame].thrown = static_cast<int>(frame);
		throw Rejected{static_cast<int>(frame)};
	}
	void indent() const { std::string s; for (std::size_t i = 0; i < frames.size(); ++i) s += "  E" + std::to_string(frames[i].id) + "." + std::to_string(frames[i].stage) + ">"; if (!s.empty()) mc::note(s); }
	void after()
	{
		for (std::size_t i = 0; i < real.size(); ++i)
			if (real[i] && m.exps[i].alive) mc::check_eq(real[i]->is_satisfied(), m.exps[i].satisfied(), "E", i, " satisfied");
		mc::state(m.key() + std::to_string(frames.size()));
	}
	void run()
	{
		while (budget > 0 && !mc::violated()) if (!operation(false, 0)) break;
		for (std::size_t i = 0; i < real.size() && !mc::violated(); ++i) if (real[i]) remove(static_cast<int>(i));
	}
};

// Requirements that use another mock while they are evaluated (the own one is locked at that point).
// The answer has to be what it would be if the requirement had not done so, however often it is evaluated.
static void matchers(int nOuter, int nCalls)
{
	rec::reset();
	Model m{};
	MockT outer{}, inner{};
	using mpp::matches::_;
	int answers[2]{};
	Scoped zero{inner.expect_call(0) and expect::at_least(0) and mpp::finally::returns_result_of([&] { ++answers[0]; return 70; })};
	Scoped one{inner.expect_call(1) and expect::at_least(0) and mpp::finally::returns_result_of([&] { ++answers[1]; return 71; })};
	Scoped never{inner.expect_call(3) and expect::times(0) and mpp::finally::returns(72)};
	std::vector<Scoped*> real;
	auto nested = [&](int how) -> bool { // true if everything went as it had to
		switch (how)
		{
		case 0: return true;
		case 1: { int v = 0; const int n = answers[0]; return inner(v) == 70 && answers[0] == n + 1; }
		case 2: { int v = 1; const int n = answers[1]; return inner(v) == 71 && answers[1] == n + 1; }
		case 3: { int v = 2; try { (void)inner(v); return false; } catch (const rec::NoMatch&) { return true; } }
		case 4: { int v = 3; try { (void)inner(v); return false; } catch (const rec::Inapplicable&) { return true; } }
		default:
		{
			Scoped temp{inner.expect_call(_) and mpp::finally::returns(80)};
			int v = 1;
			return inner(v) == 80;
		}
		}
	};
	const std::vector<Spec> specs{{.mask = 1, .min = 0, .max = 1}, {.mask = 3, .min = 0, .max = 2}, {.mask = 2, .min = 1, .max = 1}};
	for (int i = 0; i < nOuter; ++i)
	{
		const Spec sp = mc::pick_from(specs);
		const int how = mc::choose(6);
		m.create(sp);
		mc::note("create E", i, ": ", sp.text(), ", nested operation ", how);
		real.push_back(new Scoped{outer.expect_call(mpp::matches::predicate([&nested, how, mask = sp.mask](const int& v) {
				mc::check(nested(how), "an operation on another mock, issued from a requirement, went wrong: ", how);
				return (mask >> v & 1) != 0;
			})) and expect::times(sp.min, sp.max) and mpp::finally::returns(1000 + i), rec::locs()[static_cast<std::size_t>(i)]});
	}
	for (int c = 0; c < nCalls && !mc::violated(); ++c)
	{
		const int arg = mc::choose(2);
		const int want = m.choose(0, arg);
		mc::note("call(", arg, "), expected answer ", want);
		std::vector<int> none, sat;
		for (int i = 0; i < nOuter; ++i)
			switch (m.evaluate(m.exps[static_cast<std::size_t>(i)], arg))
			{
			case Verdict::none: none.push_back(i); break;
			case Verdict::inapplicable: sat.push_back(i); break;
			default: break;
			}
		if (want >= 0) m.consume(want);
		int v = arg, got = -1;
		try { got = outer(v) - 1000; }
		catch (const rec::NoMatch&) { got = -1; }
		catch (const rec::Inapplicable&) { got = -2; }
		mc::check_eq(got, want >= 0 ? want : sat.empty() ? -1 : -2, "answer of the outer call");
		const auto& e = rec::log().events.back();
		std::vector<int> ids;
		for (auto& r : e.matches) ids.push_back(rec::id_of(r.sourceLocation));
		std::ranges::sort(ids);
		mc::check(ids == (want >= 0 ? std::vector{want} : sat.empty() ? none : sat), "expectations in the report of the outer call");
		mc::check(!e.call->argDetails.empty() && e.call->argDetails[0].stateString == std::to_string(arg), "argument in the report of the outer call");
		mc::observe(static_cast<std::uint64_t>(got + 3));
		mc::state(m.key());
	}
	for (int i = 0; i < nOuter; ++i)
	{
		const auto n = rec::log().events.size();
		delete real[static_cast<std::size_t>(i)];
		mc::check_eq(rec::log().events.size() - n, m.exps[static_cast<std::size_t>(i)].satisfied() ? 0u : 1u, "unfulfilled reports of E", i);
	}
}

int main(int argc, char** argv)
{
	using mc::by_tier;
#ifdef SMALL
	const int less = 2;
#else
	const int less = 0;
#endif
	const std::vector<Spec> plain{{.mask = 1, .min = 1, .max = 2}, {.mask = 3, .min = 0, .max = 1}};
	return mc::main(argc, argv, {
		{"one mock", [=] { W w{1, plain, by_tier(7, 8) - less, 3, 2}; w.run(); }},
		{"deep", [=] { W w{1, {{.mask = 1, .min = 1, .max = 3}}, by_tier(7, 8) - less, 2, 4}; w.run(); }},
		{"two mocks", [=] { W w{2, {{.mock = 0, .mask = 1}, {.mock = 1, .mask = 1, .min = 0, .max = 2}}, by_tier(6, 7) - less, 3, 2}; w.run(); }},
		{"sequence", [=] { W w{1, {{.mask = 1, .min = 1, .max = 2, .seqs = {0}}, {.mask = 3, .min = 0, .max = 1, .seqs = {0}}, {.mask = 1}}, by_tier(6, 7) - less, 3, 2, 1 + mc::choose(2)}; w.run(); }},
		{"requirements", [=] { matchers(3, by_tier(3, 4)); }},
		{"prepared", [=] { // three expectations that exist from the start
			W w{1, {{.mask = 1, .min = 1, .max = 3}}, by_tier(5, 6) - less, 5, 3};
			for (int i = 0; i < 3; ++i) w.create(plain[static_cast<std::size_t>(mc::choose(2))]);
			w.run();
		}},
	}, 4);
}
