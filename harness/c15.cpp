// C15: who gets a report, and what the default and the callback-based reporter make of it.
#define CORE_MAX_SEQS 1
#include "core.hpp"
#include <sstream>
#include <thread>
using namespace core;
namespace mpp = mimicpp;
namespace expect = mimicpp::expect;
using Scoped = mpp::ScopedExpectation;

struct Sinks
{
	std::ostringstream out[2];
	std::vector<std::pair<char, std::string>> basic; // s / w / f
	int foreign{}; // calls of a reporter that is no longer installed
};
static Sinks* sinks;

struct BasicFailure { std::string text; };
static void on_success(const mpp::StringT& s) { sinks->basic.emplace_back('s', s); }
static void on_warning(const mpp::StringT& s) { sinks->basic.emplace_back('w', s); }
[[noreturn]] static void on_fail(const mpp::StringT& s) { sinks->basic.emplace_back('f', s); throw BasicFailure{s}; }
using Basic = mpp::BasicReporter<&on_success, &on_warning, &on_fail>;

enum Installed { DEFAULT_A, DEFAULT_B, DEFAULT_MUTE, BASIC, RECORD };
static const char* const reporterNames[] = {"default(A)", "default(B)", "default(mute)", "basic", "recording"};

static void install(int k)
{
	switch (k)
	{
	case DEFAULT_A: mpp::install_reporter<mpp::DefaultReporter>(&sinks->out[0]); break;
	case DEFAULT_B: mpp::install_reporter<mpp::DefaultReporter>(&sinks->out[1]); break;
	case DEFAULT_MUTE: mpp::install_reporter<mpp::DefaultReporter>(); break;
	case BASIC: mpp::install_reporter<Basic>(); break;
	default: mpp::install_reporter<rec::Reporter>(); break;
	}
}

enum Want { QUIET, FULL, NO_MATCH, INAPPLICABLE, UNFULFILLED_, ERROR_ };

struct Unwinding { };
// runs fn in a destructor while an exception is propagating
template <typename Fn>
struct OnUnwind { Fn fn; ~OnUnwind() { fn(); } };

template <typename Fn>
static void unwinding(Fn fn)
{
	bool arrived = false;
	try { OnUnwind<Fn> g{fn}; throw Unwinding{}; }
	catch (const Unwinding&) { arrived = true; }
	mc::check(arrived, "the propagating exception got lost");
}

// where an operation happens, as far as exceptions are concerned
enum Context { NORMAL, UNWINDING, HANDLER, TWO_UNWINDING, HANDLER_IN_UNWINDING, UNWINDING_IN_HANDLER, contexts };
static const char* const contextNames[] = {"", " while unwinding", " inside a handler", " while two exceptions unwind", " inside a handler while unwinding", " while unwinding inside a handler"};
static bool in_flight(int c) { return c != NORMAL && c != HANDLER; }
template <typename Fn>
static void within(int context, Fn fn)
{
	auto handled = [&] { try { throw 42; } catch (int) { fn(); } };
	switch (context)
	{
	case NORMAL: fn(); break;
	case UNWINDING: unwinding(fn); break;
	case HANDLER: handled(); break;
	case TWO_UNWINDING: unwinding([&] { unwinding(fn); }); break;
	case HANDLER_IN_UNWINDING: unwinding(handled); break;
	default: try { throw 42; } catch (int) { unwinding(fn); }
	}
}

struct Thrown // what left an operation
{
	enum K { none, unmatched, unfulfilled, error, basic, recNoMatch, recInapplicable, recUnfulfilled, other } k{none};
	std::string what;
	int callArg{-1}, callLine{-1}, whereLine{-1};
	std::vector<int> ids;
	int expId{-1};
};

template <typename Fn>
static Thrown catching(Fn fn)
{
	Thrown t;
	try { fn(); }
	catch (const mpp::UnmatchedCallT& e)
	{
		t.k = Thrown::unmatched; t.what = e.what();
		const auto& [call, matches] = e.data();
		if (call.argDetails.size() == 1) t.callArg = std::stoi(call.argDetails[0].stateString);
		t.callLine = static_cast<int>(call.fromLoc.line());
		t.whereLine = static_cast<int>(e.where().line());
		for (auto& r : matches) t.ids.push_back(rec::id_of(r.sourceLocation));
		std::ranges::sort(t.ids);
	}
	catch (const mpp::UnfulfilledExpectationT& e) { t.k = Thrown::unfulfilled; t.what = e.what(); t.expId = rec::id_of(e.data().sourceLocation); }
	catch (const mpp::Error<>& e) { t.k = Thrown::error; t.what = e.what(); }
	catch (const BasicFailure& e) { t.k = Thrown::basic; t.what = e.text; }
	catch (const rec::NoMatch&) { t.k = Thrown::recNoMatch; }
	catch (const rec::Inapplicable&) { t.k = Thrown::recInapplicable; }
	catch (const rec::Unfulfilled&) { t.k = Thrown::recUnfulfilled; }
	catch (const std::exception& e) { t.k = Thrown::other; t.what = e.what(); mc::note("other exception: ", e.what()); }
	catch (...) { t.k = Thrown::other; }
	return t;
}

struct Snapshot
{
	std::size_t a, b, basic, rec;
	static Snapshot now() { return {sinks->out[0].str().size(), sinks->out[1].str().size(), sinks->basic.size(), rec::log().events.size()}; }
};

// checks everything the installed reporter (and no other) has to have done about `want` and `warnings` exceptions
static void verify(const std::string& what, int inst, int context, Want want, int warnings, const Snapshot& s, const Thrown& t)
{
	const bool mayStaySilent = in_flight(context) && (want == UNFULFILLED_ || want == ERROR_);
	const bool fails = want >= NO_MATCH && !mayStaySilent;
	const std::string ctx = what + " with " + reporterNames[inst] + contextNames[context];
	const std::string a = sinks->out[0].str().substr(s.a), b = sinks->out[1].str().substr(s.b);
	const auto nBasic = sinks->basic.size() - s.basic, nRec = rec::log().events.size() - s.rec;
	if (inst != DEFAULT_A) mc::check(a.empty(), ctx, ": default reporter A, which is not installed, printed something");
	if (inst != DEFAULT_B) mc::check(b.empty(), ctx, ": default reporter B, which is not installed, printed something");
	if (inst != BASIC) mc::check_eq(nBasic, 0u, ctx, ": callbacks of a reporter that is not installed");
	if (inst != RECORD) mc::check_eq(nRec, 0u, ctx, ": reports to a reporter that is not installed");
	if (inst <= DEFAULT_MUTE)
	{
		const auto expected = !fails ? Thrown::none : want == UNFULFILLED_ ? Thrown::unfulfilled : want == ERROR_ ? Thrown::error : Thrown::unmatched;
		mc::check_eq(static_cast<int>(t.k), static_cast<int>(expected), ctx, ": kind of exception");
		if (inst != DEFAULT_MUTE)
		{
			const std::string& text = inst == DEFAULT_A ? a : b;
			if (fails)
			{
				const std::string tail = t.what + "\n";
				mc::check(text.size() >= tail.size() && text.substr(text.size() - tail.size()) == tail, ctx, ": printed text differs from the exception's");
				if (warnings == 0) mc::check_eq(text, tail, ctx, ": printed text");
				else mc::check(text.size() > tail.size(), ctx, ": no warning printed");
			}
			else mc::check_eq(text.empty(), warnings == 0, ctx, ": silence of the default reporter, printed '", text, "'");
		}
		if (fails) mc::check(!t.what.empty(), ctx, ": exception without text");
	}
	else if (inst == BASIC)
	{
		std::string got, exp(static_cast<std::size_t>(warnings), 'w');
		for (auto i = s.basic; i < sinks->basic.size(); ++i) { got += sinks->basic[i].first; mc::check(!sinks->basic[i].second.empty(), ctx, ": empty text"); }
		if (want == FULL) exp += 's';
		if (fails) exp += 'f';
		mc::check_eq(got, exp, ctx, ": callbacks");
		mc::check_eq(static_cast<int>(t.k), static_cast<int>(fails ? Thrown::basic : Thrown::none), ctx, ": kind of exception");
	}
	else
	{
		mc::check_eq(nRec, static_cast<std::size_t>(warnings) + (want != QUIET), ctx, ": number of reports");
		const auto expected = want == NO_MATCH ? Thrown::recNoMatch : want == INAPPLICABLE ? Thrown::recInapplicable : Thrown::none;
		mc::check_eq(static_cast<int>(t.k), static_cast<int>(expected), ctx, ": kind of exception");
	}
	mc::observe(static_cast<std::uint64_t>(t.k) * 8 + static_cast<std::uint64_t>(want));
}

struct Boom { };
struct W
{
	Sinks s{};
	Model m{};
	MockT mock{};
	std::vector<Scoped*> real;
	std::vector<bool> bomb; // its requirement throws
	int inst{};

	W() { rec::reset(); sinks = &s; install(RECORD); }
	~W()
	{
		install(RECORD);
		for (auto* p : real) delete p;
		sinks = nullptr;
	}
	void choose_reporter(int k) { mc::note("install ", reporterNames[k]); inst = k; const auto snap = Snapshot::now(); install(k); verify("installation", k, NORMAL, QUIET, 0, snap, {}); }
	void create(const Spec& sp, bool explodes)
	{
		const int id = m.create(sp);
		bomb.push_back(explodes);
		mc::note("create E", id, ": ", sp.text(), explodes ? " throws while matching" : "");
		const auto snap = Snapshot::now();
		real.push_back(new Scoped{mock.expect_call(mpp::matches::predicate([mask = sp.mask, explodes](const int& v) {
				if (explodes) throw Boom{};
				return (mask >> v & 1) != 0;
			})) and expect::times(sp.min, sp.max) and mpp::finally::returns(1000 + id), rec::locs()[id]});
		verify("creation", inst, NORMAL, QUIET, 0, snap, {});
	}
	void call(int arg, int context)
	{
		int best = -1, warnings = 0;
		std::vector<int> sat, none;
		for (int i = static_cast<int>(m.exps.size()) - 1; i >= 0; --i)
		{
			if (!m.exps[i].alive) continue;
			if (bomb[i]) { ++warnings; continue; }
			switch (m.evaluate(m.exps[i], arg))
			{
			case Verdict::full: if (best < 0) best = i; break;
			case Verdict::inapplicable: sat.push_back(i); break;
			case Verdict::none: none.push_back(i); break;
			}
		}
		std::ranges::sort(sat); std::ranges::sort(none);
		const Want want = best >= 0 ? FULL : sat.empty() ? NO_MATCH : INAPPLICABLE;
		mc::note("call(", arg, ")", contextNames[context], " -> ", want == FULL ? "match" : want == NO_MATCH ? "no match" : "inapplicable");
		const auto snap = Snapshot::now();
		Thrown t;
		int r = -1, line = -1;
		auto go = [&] { t = catching([&] { int a = arg; line = __LINE__; r = mock(a); }); };
		within(context, go);
		verify("call", inst, context, want, warnings, snap, t);
		if (t.k == Thrown::unmatched)
		{
			mc::check_eq(t.callArg, arg, "argument carried by the exception");
			mc::check(t.callLine == line && t.whereLine == line, "the exception's location is not the call's");
			mc::check(t.ids == (want == NO_MATCH ? none : sat), "expectations carried by the exception");
		}
		if (want == FULL) { mc::check_eq(r, 1000 + best, "result of the call"); m.consume(best); }
	}
	void remove(int id, int context)
	{
		const bool unmet = !m.exps[id].satisfied();
		mc::note("remove E", id, contextNames[context], unmet ? " -> unfulfilled" : "");
		m.exps[id].alive = false;
		auto* p = std::exchange(real[id], nullptr);
		const auto snap = Snapshot::now();
		Thrown t;
		within(context, [&] { t = catching([&] { delete p; }); });
		verify("removal", inst, context, unmet ? UNFULFILLED_ : QUIET, 0, snap, t);
		if (t.k == Thrown::unfulfilled) mc::check_eq(t.expId, id, "expectation carried by the exception");
	}
	std::vector<int> live() const
	{
		std::vector<int> r;
		for (std::size_t i = 0; i < m.exps.size(); ++i) if (m.exps[i].alive) r.push_back(static_cast<int>(i));
		return r;
	}
};

static void histories(int depth, bool switching, int nContexts)
{
	W w;
	w.choose_reporter(mc::choose(5));
	const std::vector<Spec> specs{{.mask = 1}, {.mask = 3, .min = 1, .max = 2}};
	for (int d = 0; d < depth && !mc::violated(); ++d)
	{
		const auto live = w.live();
		const int nLive = static_cast<int>(live.size());
		const int create = d + 1 < depth ? 3 : 0, sw = switching ? 5 : 0;
		int c = mc::choose(2 * nContexts + create + nContexts * nLive + sw);
		if (c < 2 * nContexts) w.call(c & 1, c / 2);
		else if (c -= 2 * nContexts; c < create) { if (c == 2) w.create({.mask = 1, .min = 0, .max = 1}, true); else w.create(specs[c], false); }
		else if (c -= create; c < nContexts * nLive) w.remove(live[c / nContexts], c % nContexts);
		else w.choose_reporter(c - nContexts * nLive);
	}
	while (!mc::violated())
	{
		auto l = w.live();
		if (l.empty()) break;
		w.remove(l[0], NORMAL);
	}
}

// the reporters' own interface: every report, in flight or not
static void direct()
{
	Sinks s;
	sinks = &s;
	rec::reset();
	const int inst = mc::choose(4);
	mpp::DefaultReporter a{&s.out[0]}, b{&s.out[1]}, mute{};
	Basic basic;
	mpp::IReporter* const all[] = {&a, &b, &mute, &basic};
	mpp::IReporter& r = *all[inst];
	const int context = mc::choose(contexts);
	const auto kind = mc::choose(6);
	mc::note("report ", kind, " to ", reporterNames[inst], contextNames[context]);
	const auto loc = std::source_location::current();
	mpp::CallReport call{.returnTypeIndex = typeid(int), .argDetails = {{.typeIndex = typeid(int), .stateString = "7"}}, .fromLoc = loc, .fromCategory = mpp::ValueCategory::any, .fromConstness = mpp::Constness::any};
	const bool applicable = kind == 0;
	mpp::MatchReport match{.sourceLocation = rec::locs()[3], .finalizeReport = {}, .controlReport = mpp::state_applicable{1, 1, 0}, .expectationReports = {}};
	if (kind == 2) match.controlReport = mpp::state_saturated{1, 1, 1};
	if (kind == 1) match.expectationReports.push_back({.isMatching = false, .description = "never"});
	(void)applicable;
	mpp::ExpectationReport exp{.sourceLocation = rec::locs()[2]};
	const auto snap = Snapshot::now();
	Thrown t;
	auto go = [&] {
		t = catching([&] {
			switch (kind)
			{
			case 0: r.report_full_match(call, match); break;
			case 1: r.report_no_matches(call, {match}); break;
			case 2: r.report_inapplicable_matches(call, {match}); break;
			case 3: r.report_unfulfilled_expectation(exp); break;
			case 4: r.report_error("some error text"); break;
			default: r.report_unhandled_exception(call, exp, std::make_exception_ptr(std::runtime_error{"the exception's text"}));
			}
		});
	};
	within(context, go);
	const Want wants[] = {FULL, NO_MATCH, INAPPLICABLE, UNFULFILLED_, ERROR_, QUIET};
	verify("direct report " + std::to_string(kind), inst, context, wants[kind], kind == 5, snap, t);
	if (t.k == Thrown::error) mc::check_eq(t.what, std::string{"some error text"}, "text of the error");
	if (t.k == Thrown::unfulfilled) mc::check_eq(t.expId, 2, "expectation carried");
	if (t.k == Thrown::unmatched) mc::check(t.callArg == 7 && t.callLine == static_cast<int>(loc.line()) && t.ids == std::vector<int>{3}, "data carried");
	if (kind == 5 && inst < 2) mc::check(s.out[inst].str().find("the exception's text") != std::string::npos, "text of the unhandled exception");
	sinks = nullptr;
}

// an incomplete sequence that ends while an exception propagates
static void sequence_unwinding()
{
	W w;
	w.choose_reporter(mc::choose(4));
	const int k = mc::choose(2);
	// a report outside of unwinding would end the process (see the known finding of C06)
	const int context = std::array{UNWINDING, TWO_UNWINDING, HANDLER_IN_UNWINDING, UNWINDING_IN_HANDLER}[static_cast<std::size_t>(mc::choose(4))];
	const auto snap = Snapshot::now();
	within(context, [&] {
		auto e = std::make_optional<Scoped>(w.mock.expect_call(1) and expect::once() and mpp::finally::returns(1), rec::locs()[0]);
		mpp::SequenceT seq{};
		auto f = std::make_optional<Scoped>(w.mock.expect_call(1) and expect::once() and expect::in_sequence(seq) and mpp::finally::returns(1), rec::locs()[1]);
		if (k) f.reset();
	});
	verify("incomplete sequence", w.inst, context, ERROR_, 0, snap, {});
}

// before anything is installed: the default reporter on std::cerr
static void initial()
{
	std::ostringstream os;
	auto* old = std::cerr.rdbuf(os.rdbuf());
	const int kind = mc::choose(3);
	MockT mock{};
	std::string what;
	int a = 1;
	try
	{
		if (kind == 0) mock(a);
		else if (kind == 1) { Scoped e{mock.expect_call(2) and mpp::finally::returns(1)}; (void)e; }
		else { Scoped e{mock.expect_call(1) and mpp::finally::returns(1)}; mock(a); }
	}
	catch (const mpp::UnmatchedCallT& e) { what = e.what(); mc::check_eq(kind, 0, "kind"); }
	catch (const mpp::UnfulfilledExpectationT& e) { what = e.what(); mc::check_eq(kind, 1, "kind"); }
	std::cerr.rdbuf(old);
	mc::check_eq(what.empty(), kind == 2, "the initial reporter throws exactly for violations");
	mc::check_eq(os.str(), kind == 2 ? std::string{} : what + "\n", "the initial reporter prints to std::cerr");
}

// every installed reporter is destroyed when it is replaced, and constructed with the given arguments
static int alive = 0, lastArg = 0;
struct Counting final : mpp::IReporter
{
	int id; int* hits;
	Counting(int i, int* h) : id{i}, hits{h} { ++alive; lastArg = i; }
	~Counting() override { --alive; }
	void report_no_matches(mpp::CallReport, std::vector<mpp::MatchReport>) override { ++hits[id]; throw rec::NoMatch{}; }
	void report_inapplicable_matches(mpp::CallReport, std::vector<mpp::MatchReport>) override { ++hits[id]; throw rec::Inapplicable{}; }
	void report_full_match(mpp::CallReport, mpp::MatchReport) noexcept override { ++hits[id]; }
	void report_unfulfilled_expectation(mpp::ExpectationReport) override { ++hits[id]; }
	void report_error(mpp::StringT) override { ++hits[id]; }
	void report_unhandled_exception(mpp::CallReport, mpp::ExpectationReport, std::exception_ptr) override { ++hits[id]; }
};
// there is one installed reporter, whatever thread (none runs concurrently with another) installs it or issues a report
static void replacement(int depth, bool threads)
{
	rec::reset();
	int hits[8]{}, want[8]{};
	MockT mock{};
	int cur = -1, next = 0;
	for (int d = 0; d < depth; ++d)
	{
		const int op = mc::choose(cur < 0 ? 1 : 4);
		const bool elsewhere = threads && mc::choose_bool();
		enum { nothing, noMatch, foreign } left = nothing;
		auto go = [&] {
			try
			{
				int a = 0;
				if (op == 0) mpp::install_reporter<Counting>(cur, hits);
				else if (op == 1) mock(a);
				else if (op == 2) { Scoped e{mock.expect_call(0) and mpp::finally::returns(1)}; mock(a); }
				else { Scoped e{mock.expect_call(0) and mpp::finally::returns(1)}; }
			}
			catch (const rec::NoMatch&) { left = noMatch; }
			catch (...) { left = foreign; }
		};
		if (op == 0) cur = next++; else ++want[cur];
		mc::note(op == 0 ? "install " : op == 1 ? "no match with " : op == 2 ? "match with " : "unfulfilled with ", cur, elsewhere ? " in another thread" : "");
		if (elsewhere) std::thread{go}.join();
		else go();
		mc::check_eq(static_cast<int>(left), static_cast<int>(op == 1 ? noMatch : nothing), "what left the operation");
		if (op == 0) mc::check_eq(lastArg, cur, "constructor argument");
		mc::check_eq(alive, 1, "reporter instances alive");
		for (int i = 0; i < 8; ++i) mc::check_eq(hits[i], want[i], "reports received by reporter ", i);
	}
	mpp::install_reporter<rec::Reporter>();
	mc::check_eq(alive, 0, "reporter instances alive at the end");
}

int main(int argc, char** argv)
{
	using mc::by_tier;
	return mc::main(argc, argv, {
		{"initial-reporter", initial},
		{"histories", [] { histories(by_tier(5, 6), false, 3); }},
		{"histories-contexts", [] { histories(by_tier(3, 4), false, contexts); }},
		{"histories-switching", [] { histories(by_tier(4, 5), true, 3); }},
		{"direct-reports", direct},
		{"sequence-unwinding", sequence_unwinding},
		{"replacement", [] { replacement(6, false); }},
		{"replacement-from-threads", [] { replacement(by_tier(4, 5), true); }},
	}, 3);
}
