// C16: an expectation whose evaluation throws takes no part in the call; nothing else changes.
#define CORE_MAX_SEQS 2
#include "core.hpp"
using namespace core;
namespace mpp = mimicpp;
namespace expect = mimicpp::expect;
using Scoped = mpp::ScopedExpectation;

enum Site { POS, PROJ, ARG, ALL, POLICY, HOOK, sites };
static const char* const siteNames[] = {"positional matcher", "projection", "argument matcher", "second argument matcher", "policy", "member matcher"};

struct BoomA { int id; };
struct BoomStd : std::runtime_error { int id; explicit BoomStd(int i) : std::runtime_error{"boom " + std::to_string(i)}, id{i} { } };

struct Switch // of one expectation
{
	int id{};
	int site{};
	bool armed{};
	int kind{};
	int thrown{};
	void at(int s)
	{
		if (!armed || s != site) return;
		++thrown;
		switch (kind)
		{
		case 0: throw BoomStd{id};
		case 1: throw BoomA{id};
		case 2: throw 100 + id;
		default: throw rec::NoMatch{}; // even the type the reporter uses
		}
	}
};

static bool is_from(const std::exception_ptr& p, const Switch& s)
{
	if (!p) return false;
	try { std::rethrow_exception(p); }
	catch (const BoomStd& e) { return s.kind == 0 && e.id == s.id && e.what() == "boom " + std::to_string(s.id); }
	catch (const BoomA& e) { return s.kind == 1 && e.id == s.id; }
	catch (int i) { return s.kind == 2 && i == 100 + s.id; }
	catch (const rec::NoMatch&) { return s.kind == 3; }
	catch (...) { }
	return false;
}

struct Policy
{
	Switch* s;
	int* consumed;
	bool is_satisfied() const noexcept { return true; }
	bool matches(const auto&) const { s->at(POLICY); return true; }
	std::optional<mpp::StringT> describe() const { return "policy"; }
	void consume(const auto&) { ++*consumed; }
};
struct HookMatcher
{
	Switch* s;
	bool matches(const int&) const { s->at(HOOK); return true; }
	mpp::StringT describe() const { return "hook"; }
};

using M = mpp::Mock<int(int&, int)>;
struct W
{
	Model m{};
	M mock{};
	std::vector<std::unique_ptr<Switch>> sw;
	std::vector<std::unique_ptr<int>> consumed;
	std::vector<int> wantConsumed;
	std::vector<Scoped*> real;
	std::vector<std::unique_ptr<mpp::LazySequence>> lazy;
	std::vector<std::unique_ptr<mpp::GreedySequence>> greedy;
	std::vector<int> effects;
	int kind;

	explicit W(int k, std::vector<bool> seqs = {}) : kind{k}
	{
		rec::reset();
		for (bool g : seqs)
		{
			m.seqs.push_back({.greedy = g});
			lazy.push_back(g ? nullptr : std::make_unique<mpp::LazySequence>());
			greedy.push_back(g ? std::make_unique<mpp::GreedySequence>() : nullptr);
		}
	}
	~W() { for (auto* p : real) delete p; }

	int create(const Spec& sp, int site)
	{
		const int id = m.create(sp);
		mc::note("create E", id, ": ", sp.text(), ", may throw in its ", siteNames[site]);
		auto* s = sw.emplace_back(std::make_unique<Switch>(id, site, false, kind)).get();
		auto* c = consumed.emplace_back(std::make_unique<int>(0)).get();
		wantConsumed.push_back(0);
		auto base = [&] {
			return mock.expect_call(
						mpp::matches::predicate([s, mask = sp.mask](const int& v) { s->at(POS); return (mask >> v & 1) != 0; }),
						HookMatcher{s})
					and expect::times(sp.min, sp.max)
					and expect::arg<1>(mpp::matches::predicate([s](const int& v) { s->at(ARG); return v == -7; }), [s](const int& v) { s->at(PROJ); return -v; })
					and expect::arg<0>(mpp::matches::predicate([s](const int&) { s->at(ALL); return true; }))
					and Policy{s, c}
					and mpp::finally::returns(1000 + id)
					and mpp::then::invoke([this, id] { effects.push_back(id); });
		};
		if (sp.seqs.empty()) real.push_back(new Scoped{base(), rec::locs()[id]});
		else if (lazy[sp.seqs[0]]) real.push_back(new Scoped{base() and expect::in_sequence(*lazy[sp.seqs[0]]), rec::locs()[id]});
		else real.push_back(new Scoped{base() and expect::in_sequence(*greedy[sp.seqs[0]]), rec::locs()[id]});
		return id;
	}

	void call(int arg, unsigned armed, bool unwinding)
	{
		for (std::size_t i = 0; i < sw.size(); ++i) { sw[i]->armed = armed >> i & 1; sw[i]->thrown = 0; }
		const std::size_t events = rec::log().events.size(), eff = effects.size();
		const int locId = 20;
		int got = -1, value = arg;
		std::optional<rec::Kind> left;
		auto go = [&] {
			try { got = mock(value, 7, rec::locs()[locId]) - 1000; }
			catch (const rec::NoMatch&) { left = rec::Kind::no_match; }
			catch (const rec::Inapplicable&) { left = rec::Kind::inapplicable; }
			catch (...) { mc::fail("an exception raised while matching left the call"); }
		};
		if (!unwinding) go();
		else
		{
			struct Guard { decltype(go)& f; ~Guard() { f(); } };
			try { Guard g{go}; throw BoomA{-1}; } catch (const BoomA&) { }
		}
		// the expectations that threw are absent from the model for this call
		std::vector<int> threw;
		Model absent = m;
		for (std::size_t i = 0; i < sw.size(); ++i)
		{
			if (!sw[i]->thrown) continue;
			threw.push_back(static_cast<int>(i));
			absent.exps[i].spec.mock = -1;
			mc::check(absent.exps[i].alive, "a removed expectation was evaluated");
		}
		const int want = absent.choose(0, arg);
		mc::note("call(", arg, ")", unwinding ? " while unwinding" : "", ", armed ", armed, ", threw ", threw.size(), " -> ", got < 0 ? std::string{"rejected"} : "E" + std::to_string(got));
		mc::observe(static_cast<std::uint64_t>((got + 2) * 16) + threw.size());
		mc::check_eq(got, want, "answer of the call");
		if (mc::violated()) return;
		// reports
		std::vector<int> reported;
		std::optional<rec::Event> final;
		for (auto i = events; i < rec::log().events.size(); ++i)
		{
			auto& ev = rec::log().events[i];
			if (ev.kind == rec::Kind::unhandled)
			{
				mc::check(!final, "an exception was reported after the call's outcome");
				const int id = rec::id_of(ev.exp->sourceLocation);
				mc::check(id >= 0 && id < static_cast<int>(sw.size()), "unhandled-exception report names no expectation");
				if (mc::violated()) return;
				reported.push_back(id);
				mc::check(is_from(ev.ex, *sw[id]), "the report does not carry the exception thrown by E", id);
				mc::check(ev.exp->timesDescription.has_value(), "the expectation report is incomplete");
				check_call(*ev.call, arg, locId);
			}
			else { mc::check(!final, "more than one outcome reported"); final = ev; }
		}
		std::ranges::sort(reported);
		mc::check(reported == threw, "unhandled-exception reports: ", reported.size(), " for ", threw.size(), " throwing expectations");
		if (!final) { mc::fail("no outcome reported"); return; }
		std::vector<int> sat, none, listed;
		for (std::size_t i = 0; i < m.exps.size(); ++i)
		{
			if (!absent.exps[i].alive || absent.exps[i].spec.mock != 0) continue;
			switch (absent.evaluate(absent.exps[i], arg))
			{
			case Verdict::inapplicable: sat.push_back(static_cast<int>(i)); break;
			case Verdict::none: none.push_back(static_cast<int>(i)); break;
			default:;
			}
		}
		for (auto& r : final->matches) listed.push_back(rec::id_of(r.sourceLocation));
		std::ranges::sort(listed);
		const rec::Kind kindWanted = want >= 0 ? rec::Kind::full : sat.empty() ? rec::Kind::no_match : rec::Kind::inapplicable;
		mc::check_eq(static_cast<int>(final->kind), static_cast<int>(kindWanted), "kind of the outcome report");
		mc::check(listed == (want >= 0 ? std::vector<int>{want} : sat.empty() ? none : sat), "expectations listed by the outcome report");
		mc::check(left.has_value() == (want < 0) && (!left || *left == kindWanted), "the rejection did not leave the call");
		check_call(*final->call, arg, locId);
		if (want >= 0) { m.consume(want); ++wantConsumed[want]; }
		mc::check(effects.size() == eff + (want >= 0) && (want < 0 || effects.back() == want), "side effects");
		after();
	}
	static void check_call(const mpp::CallReport& c, int arg, int locId)
	{
		mc::check(c.argDetails.size() == 2 && c.argDetails[0].stateString == std::to_string(arg) && c.argDetails[1].stateString == "7", "arguments in the report");
		mc::check(rec::id_of(c.fromLoc) == locId, "location of the call in the report");
	}
	void after()
	{
		for (std::size_t i = 0; i < real.size(); ++i)
		{
			mc::check_eq(*consumed[i], wantConsumed[i], "consumptions of E", i);
			if (real[i]) mc::check_eq(real[i]->is_satisfied(), m.exps[i].satisfied(), "E", i, " satisfied");
		}
		mc::state(m.key());
	}
	void remove(int id)
	{
		mc::note("remove E", id);
		m.exps[id].alive = false;
		const std::size_t events = rec::log().events.size();
		delete std::exchange(real[id], nullptr);
		std::size_t n = 0;
		for (auto i = events; i < rec::log().events.size(); ++i) n += rec::log().events[i].kind == rec::Kind::unfulfilled;
		mc::check_eq(n, m.exps[id].satisfied() ? 0u : 1u, "unfulfilled reports");
	}
	void finish() { for (std::size_t i = 0; i < real.size() && !mc::violated(); ++i) if (real[i]) remove(static_cast<int>(i)); }
};

// a fixed set of expectations, every string of calls with every set of throwing expectations
static void fixed(int n, int calls, bool siteEach, int nSpecs)
{
	const std::vector<Spec> specs{{.mask = 1}, {.mask = 3, .min = 1, .max = 2}, {.mask = 2, .min = 0, .max = 1}};
	W w{mc::choose(4)};
	int site = mc::choose(sites);
	for (int i = 0; i < n; ++i)
	{
		w.create(specs[mc::choose(nSpecs)], site);
		if (siteEach && i + 1 < n) site = mc::choose(sites); else site = (site + 1) % sites;
	}
	for (int c = 0; c < calls && !mc::violated(); ++c)
	{
		const int arg = mc::choose(2);
		w.call(arg, static_cast<unsigned>(mc::choose(1 << n)), false);
	}
	if (!mc::violated()) w.finish();
}

static void in_sequence(int n, int calls)
{
	W w{mc::choose(2), {mc::choose_bool()}};
	const std::vector<Spec> specs{{.mask = 1, .seqs = {0}}, {.mask = 3, .min = 0, .max = 2, .seqs = {0}}, {.mask = 3, .min = 1, .max = 2, .seqs = {0}}, {.mask = 1}};
	const int site = mc::choose(sites);
	for (int i = 0; i < n; ++i) w.create(specs[mc::choose(4)], (site + i) % sites);
	for (int c = 0; c < calls && !mc::violated(); ++c)
	{
		const int arg = mc::choose(2);
		w.call(arg, static_cast<unsigned>(mc::choose(1 << n)), false);
	}
	if (!mc::violated()) w.finish();
}

static void histories(int depth)
{
	W w{mc::choose(4)};
	const int site = mc::choose(sites);
	const std::vector<Spec> specs{{.mask = 1}, {.mask = 3, .min = 0, .max = 2}};
	for (int d = 0; d < depth && !mc::violated(); ++d)
	{
		std::vector<int> live;
		for (std::size_t i = 0; i < w.real.size(); ++i) if (w.real[i]) live.push_back(static_cast<int>(i));
		const int n = static_cast<int>(live.size());
		const int subsets = 1 << n;
		int c = mc::choose(2 * subsets + 2 * (d + 1 < depth) + n);
		if (c < 2 * subsets)
		{
			unsigned armed = 0;
			for (int k = 0; k < n; ++k) if (c / 2 >> k & 1) armed |= 1u << live[k];
			w.call(0, armed, c & 1);
		}
		else if (c -= 2 * subsets; c < n) w.remove(live[c]);
		else w.create(specs[c - n], (site + static_cast<int>(w.real.size())) % sites);
	}
	if (!mc::violated()) w.finish();
}

int main(int argc, char** argv)
{
	using mc::by_tier;
	return mc::main(argc, argv, {
		{"one", [] { fixed(1, by_tier(4, 5), true, 3); }},
		{"two", [] { fixed(2, by_tier(3, 4), true, 3); }},
		{"three", [] { fixed(3, by_tier(2, 3), false, 3); }},
		{"sequence", [] { in_sequence(3, by_tier(2, 3)); }},
		{"histories", [] { histories(by_tier(5, 6)); }},
	}, 4);
}
