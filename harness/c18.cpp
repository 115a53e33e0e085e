// C18: the text of a report states the facts of the report.
// PART 0: report objects; 1: descriptions of requirements, overloads; 2: histories
#define CORE_MAX_SEQS 2
#include "core.hpp"
#include <deque>
#include <set>
#include <sstream>
#ifndef PART
#define PART 0
#endif
using namespace core;
namespace mpp = mimicpp;
namespace expect = mimicpp::expect;
namespace matches = mimicpp::matches;
using Scoped = mpp::ScopedExpectation;

// ---- the texts, rendered from facts -------------------------------------------------------------------------
static std::string loc_text(const std::source_location& l) { return std::string{l.file_name()} + "[" + std::to_string(l.line()) + ":" + std::to_string(l.column()) + "], " + l.function_name(); }
static std::string times_word(long n) { return n == 0 ? "never" : n == 1 ? "once" : n == 2 ? "twice" : std::to_string(n) + " times"; }
static std::string times_text(long count, long min, long max)
{
	if (count == max) return "already saturated (matched " + times_word(count) + ")";
	if (count >= min) return "accepts further matches (matched " + std::to_string(count) + " out of " + std::to_string(max) + " times)";
	return "matched " + times_word(count) + " - " + (min == max ? "exactly " + times_word(max) : "between " + std::to_string(min) + " and " + std::to_string(max) + " times") + " is expected";
}
struct State { long min, max, count; int kind; int in, out; }; // kind 0 applicable, 1 inapplicable, 2 saturated; in/out: number of sequences whose turn it is (not)
static std::string state_text(const State& s)
{
	auto t = times_text(s.count, s.min, s.max);
	if (s.kind == 0 && s.in) t += ", and is the current element of " + std::to_string(s.in) + " sequence(s).";
	if (s.kind == 1) t += ", but is not the current element of " + std::to_string(s.out) + " sequence(s) (" + std::to_string(s.in + s.out) + " total).";
	if (s.kind == 2 && s.in + s.out) t += ", and is part of " + std::to_string(s.in + s.out) + " sequence(s).";
	return t;
}
struct Req { bool ok; std::optional<std::string> desc; };
struct MatchFacts { std::optional<std::source_location> from; State state; std::vector<Req> reqs; };
struct CallFacts { std::string ret; std::vector<std::pair<std::string, std::string>> args; std::source_location from; std::string category, constness; };
struct ExpFacts { std::optional<std::source_location> from; std::optional<std::string> times, finalizer; std::vector<std::optional<std::string>> descs; };

static std::string call_text(const CallFacts& c)
{
	std::string t = "call from " + loc_text(c.from) + "\nconstness: " + c.constness + "\nvalue category: " + c.category + "\nreturn type: " + c.ret + "\n";
	if (!c.args.empty()) t += "args:\n";
	for (std::size_t i = 0; i < c.args.size(); ++i) t += "arg[" + std::to_string(i) + "]: {\ntype: " + c.args[i].first + ",\nvalue: " + c.args[i].second + "\n},\n";
	return t;
}
static int rating(const MatchFacts& m)
{
	for (auto& r : m.reqs) if (!r.ok) return 0;
	return m.state.kind == 0 ? 2 : 1;
}
static std::string match_text(const MatchFacts& m)
{
	std::string t = std::array{"Unmatched expectation: {", "Inapplicable, but otherwise matched expectation: {", "Matched expectation: {"}[rating(m)];
	t += "\n";
	if (rating(m) == 1) t += "reason: " + state_text(m.state) + "\n";
	if (m.from) t += "from: " + loc_text(*m.from) + "\n";
	for (bool ok : {false, true})
	{
		std::string s;
		for (auto& r : m.reqs) if (r.desc && r.ok == ok) s += *r.desc + ",\n";
		if (!s.empty()) t += (ok ? "passed:\n" : "failed:\n") + s;
	}
	return t + "}\n";
}
static std::string exp_text(const ExpFacts& e)
{
	std::string t = "Expectation report:\n", d;
	if (e.from) t += "from: " + loc_text(*e.from) + "\n";
	if (e.times) t += "times: " + *e.times + "\n";
	for (auto& x : e.descs) if (x) d += *x + ",\n";
	if (!d.empty()) t += "expects:\n" + d;
	if (e.finalizer) t += "finally: " + *e.finalizer + "\n";
	return t;
}
static std::string no_match_text(const CallFacts& c, const std::vector<MatchFacts>& ms)
{
	std::string t = "No match for " + call_text(c) + (ms.empty() ? std::string{"No expectations available.\n"} : std::to_string(ms.size()) + " available expectation(s):\n");
	for (auto& m : ms) t += match_text(m);
	return t;
}
static std::string inapplicable_text(const CallFacts& c, const std::vector<MatchFacts>& ms)
{
	std::string t = "No applicable match for " + call_text(c) + "Tested expectations:\n";
	for (auto& m : ms) t += match_text(m);
	return t;
}
static std::string full_text(const CallFacts& c, const MatchFacts& m) { return "Found match for " + call_text(c) + match_text(m); }
static std::string unfulfilled_text(const ExpFacts& e) { return "Unfulfilled expectation:\n" + exp_text(e); }

// layout (white space) is irrelevant, and so is the order of requirements within a section and of expectations within a report
static std::string canon(const std::string& text)
{
	std::vector<std::string> lines;
	std::istringstream is{text};
	for (std::string raw; std::getline(is, raw);)
	{
		std::string l;
		for (char c : raw) if (c == ' ' || c == '\t' ? !l.empty() && l.back() != ' ' : true) l += c == '\t' ? ' ' : c;
		while (!l.empty() && l.back() == ' ') l.pop_back();
		if (l.empty()) continue;
		if ((l.starts_with("and is ") || l.starts_with("but is ")) && !lines.empty()) lines.back() += " " + l; // the continuation of a times description
		else lines.push_back(l);
	}
	std::vector<std::string> head, blocks;
	std::string* block = nullptr;
	std::multiset<std::string> section;
	auto flush = [&](std::string& to) { for (auto& s : section) to += "  " + s + "\n"; section.clear(); };
	bool inSection = false;
	std::string top;
	for (auto& l : lines)
	{
		std::string& to = block ? *block : top;
		if (l.ends_with("expectation: {")) { flush(to); inSection = false; blocks.push_back(l + "\n"); block = &blocks.back(); continue; }
		if (l == "failed:" || l == "passed:" || l == "expects:") { flush(to); inSection = true; to += l + "\n"; continue; }
		if (block && l == "}") { flush(to); inSection = false; to += l + "\n"; block = nullptr; continue; }
		if (inSection && (l.starts_with("finally: ") || l.starts_with("For call from"))) { flush(to); inSection = false; }
		if (inSection) section.insert(l);
		else to += l + "\n";
	}
	flush(block ? *block : top);
	std::ranges::sort(blocks);
	for (auto& b : blocks) top += b;
	return top;
}
static void same_text(const std::string& got, const std::string& want, const char* what)
{
	mc::check_eq(canon(got), canon(want), what);
	++mc::E().curTransitions;
}

// ---- reporters that keep the texts ---------------------------------------------------------------------------
struct Msg { char kind; std::string text; };
static std::vector<Msg> messages;
struct Failure { std::string text; };
static void on_success(const mpp::StringT& s) { messages.push_back({'s', s}); }
static void on_warning(const mpp::StringT& s) { messages.push_back({'w', s}); }
[[noreturn]] static void on_fail(const mpp::StringT& s) { messages.push_back({'f', s}); throw Failure{s}; }
using Basic = mpp::BasicReporter<&on_success, &on_warning, &on_fail>;

// the text a reporter makes of a report
template <typename Fn>
static std::string via_basic(char kind, Fn fn)
{
	Basic b;
	messages.clear();
	try { fn(static_cast<mpp::IReporter&>(b)); } catch (const Failure&) { }
	mc::check(messages.size() == 1 && messages[0].kind == kind, "callbacks of the callback-based reporter");
	return messages.empty() ? "" : messages[0].text;
}
template <typename Fn>
static std::string via_default(Fn fn)
{
	std::ostringstream os;
	mpp::DefaultReporter d{&os};
	std::string what;
	try { fn(static_cast<mpp::IReporter&>(d)); } catch (const std::runtime_error& e) { what = e.what(); }
	if (!what.empty()) mc::check_eq(os.str(), what + "\n", "printed text and exception text");
	return os.str();
}

static const std::vector<std::string>& texts()
{
	static const std::vector<std::string> t{"plain", "{} {0} %s", ""};
	return t;
}

#if PART == 0
struct AnyMatch { mpp::MatchReport r; MatchFacts f; };
static AnyMatch match(const State& s, const std::vector<Req>& reqs, int loc)
{
	AnyMatch m{{}, {{}, s, reqs}};
	if (loc >= 0) m.r.sourceLocation = m.f.from = rec::locs()[static_cast<std::size_t>(loc)];
	std::vector<mpp::sequence::rating> in(static_cast<std::size_t>(s.in), mpp::sequence::rating{});
	std::vector<mpp::sequence::Tag> out(static_cast<std::size_t>(s.out), mpp::sequence::Tag{});
	switch (s.kind)
	{
	case 0: m.r.controlReport = mpp::state_applicable{static_cast<int>(s.min), static_cast<int>(s.max), static_cast<int>(s.count), in}; break;
	case 1: m.r.controlReport = mpp::state_inapplicable{static_cast<int>(s.min), static_cast<int>(s.max), static_cast<int>(s.count), in, out}; break;
	default: m.r.controlReport = mpp::state_saturated{static_cast<int>(s.min), static_cast<int>(s.max), static_cast<int>(s.count), std::vector<mpp::sequence::Tag>(static_cast<std::size_t>(s.in + s.out))};
	}
	for (auto& r : reqs) m.r.expectationReports.push_back({r.ok, r.desc});
	return m;
}
static const std::vector<long>& bounds()
{
	static const std::vector<long> v{0, 1, 2, 3, 4, 10, 1000000, INT_MAX};
	return v;
}
static State any_state()
{
	const long min = mc::pick_from(bounds());
	std::vector<long> maxs, counts;
	for (long m : bounds()) if (m >= min && m > 0) maxs.push_back(m);
	const long max = mc::pick_from(maxs);
	const int kind = mc::choose(3);
	if (kind == 2) counts = {max};
	else for (long c : {0l, 1l, 2l, 3l, min - 1, min, min + 1, max - 1}) if (c >= 0 && c < max && std::ranges::find(counts, c) == counts.end()) counts.push_back(c);
	const long count = mc::pick_from(counts);
	const int in = mc::choose(3), out = kind == 1 ? 1 + mc::choose(2) : 0;
	return {min, max, count, kind, in, out};
}
static std::vector<Req> any_reqs(int n, bool onlyMatching)
{
	std::vector<Req> r;
	for (int i = 0; i < n; ++i)
	{
		const bool ok = onlyMatching || mc::choose_bool();
		const int d = mc::choose(3);
		r.push_back({ok, d == 0 ? std::optional<std::string>{} : "d" + std::to_string(d == 1 ? i : 7) + (d == 2 ? " {}" : "")});
	}
	return r;
}
static std::pair<mpp::CallReport, CallFacts> any_call(bool small)
{
	const auto& from = rec::locs()[static_cast<std::size_t>(mc::choose(2)) * 5];
	mpp::CallReport c{.returnTypeIndex = typeid(void), .fromLoc = from};
	CallFacts f{typeid(void).name(), {}, from, {}, {}};
	auto set = [&](std::type_index t) { c.returnTypeIndex = t; f.ret = t.name(); };
	switch (mc::choose(small ? 1 : 3)) { case 0: break; case 1: set(typeid(std::string)); break; default: set(typeid(int*)); }
	const int cat = small ? 0 : mc::choose(3), cst = small ? 1 : mc::choose(3);
	c.fromCategory = std::array{mpp::ValueCategory::any, mpp::ValueCategory::lvalue, mpp::ValueCategory::rvalue}[cat];
	f.category = std::array{"any", "lvalue", "rvalue"}[cat];
	c.fromConstness = std::array{mpp::Constness::any, mpp::Constness::as_const, mpp::Constness::non_const}[cst];
	f.constness = std::array{"any", "const", "mutable"}[cst];
	const int n = mc::choose(small ? 2 : 4);
	for (int i = 0; i < n; ++i)
	{
		const std::type_index t = std::array<std::type_index, 2>{typeid(int), typeid(std::vector<std::string>)}[static_cast<std::size_t>(mc::choose(2))];
		const std::string v = std::array{"17", "{ \"{}\" }", "{?}"}[static_cast<std::size_t>(mc::choose(small ? 1 : 3))] + std::string(static_cast<std::size_t>(i), 'x');
		c.argDetails.push_back({t, v});
		f.args.emplace_back(t.name(), v);
	}
	return {c, f};
}
static ExpFacts any_exp(mpp::ExpectationReport& r)
{
	ExpFacts f;
	if (mc::choose_bool()) r.sourceLocation = f.from = rec::locs()[4];
	if (mc::choose_bool()) r.timesDescription = f.times = mc::pick_from(texts());
	if (mc::choose_bool()) r.finalizerDescription = f.finalizer = mc::pick_from(texts());
	for (int i = mc::choose(4); i > 0; --i)
	{
		std::optional<std::string> d;
		if (mc::choose_bool()) d = texts()[static_cast<std::size_t>(mc::choose(2))] + std::to_string(i);
		f.descs.push_back(d);
		r.expectationDescriptions.push_back(d);
	}
	return f;
}

static void states()
{
	const auto m = match(any_state(), any_reqs(mc::choose(2), false), 1);
	same_text(mpp::print(m.r), match_text(m.f), "text of a match report");
}
static void requirements()
{
	const std::vector<State> s{{1, 2, 0, 0, 0, 0}, {1, 1, 1, 2, 1, 0}, {2, 3, 1, 1, 1, 1}};
	const auto m = match(mc::pick_from(s), any_reqs(mc::choose(5), false), mc::choose(3) - 1);
	same_text(mpp::print(m.r), match_text(m.f), "text of a match report");
}
static void calls()
{
	auto [c, f] = any_call(false);
	same_text(mpp::print(c), call_text(f), "text of a call report");
}
static void expectation()
{
	mpp::ExpectationReport r;
	const auto f = any_exp(r);
	same_text(mpp::print(r), exp_text(f), "text of an expectation report");
	same_text(via_basic('f', [&](mpp::IReporter& x) { x.report_unfulfilled_expectation(r); }), unfulfilled_text(f), "text of an unfulfilled expectation (callback)");
	same_text(via_default([&](mpp::IReporter& x) { x.report_unfulfilled_expectation(r); }), unfulfilled_text(f), "text of an unfulfilled expectation (default)");
}
static void rejected()
{
	auto [c, cf] = any_call(true);
	const bool inapplicable = mc::choose_bool();
	const int n = mc::choose(4) + inapplicable;
	std::vector<mpp::MatchReport> rs;
	std::vector<MatchFacts> fs;
	const std::vector<State> free{{1, 2, 0, 0, 0, 0}, {1, 1, 1, 2, 1, 0}}, shut{{2, 3, 1, 1, 1, 1}, {0, 3, 3, 2, 0, 0}};
	for (int i = 0; i < n; ++i)
	{
		std::vector<Req> reqs;
		if (!inapplicable) reqs.push_back({false, "why" + std::to_string(i)});
		if (mc::choose_bool()) reqs.push_back({true, "also"});
		const auto m = match(mc::pick_from(inapplicable ? shut : free), reqs, i);
		rs.push_back(m.r);
		fs.push_back(m.f);
	}
	const auto want = inapplicable ? inapplicable_text(cf, fs) : no_match_text(cf, fs);
	auto report = [&](mpp::IReporter& r) { if (inapplicable) r.report_inapplicable_matches(c, rs); else r.report_no_matches(c, rs); };
	same_text(via_basic('f', report), want, "text of a rejected call (callback)");
	same_text(via_default(report), want, "text of a rejected call (default)");
}
static void accepted()
{
	auto [c, cf] = any_call(true);
	const std::vector<State> s{{1, 2, 0, 0, 0, 0}, {0, 3, 2, 0, 2, 0}};
	const auto m = match(mc::pick_from(s), any_reqs(mc::choose(4), true), mc::choose(3) - 1);
	same_text(via_basic('s', [&](mpp::IReporter& r) { r.report_full_match(c, m.r); }), full_text(cf, m.f), "text of an accepted call");
}
// numbers of everything far beyond the everyday, long texts included
static void large()
{
	static const std::vector<int> sizes{9, 10, 11, 16, 17, 64, 100, 127, 128, 255, 256, 257, 300, 1000};
	const int n = mc::pick_from(sizes);
	const auto from = rec::locs()[5];
	mpp::CallReport c{.returnTypeIndex = typeid(void), .fromLoc = from};
	c.fromCategory = mpp::ValueCategory::any;
	c.fromConstness = mpp::Constness::non_const;
	CallFacts cf{typeid(void).name(), {}, from, "any", "mutable"};
	auto args = [&](int k) { for (int i = 0; i < k; ++i) { c.argDetails.push_back({i % 3 ? typeid(int) : typeid(long), "v" + std::to_string(i)}); cf.args.emplace_back((i % 3 ? typeid(int) : typeid(long)).name(), "v" + std::to_string(i)); } };
	auto reqs = [&](int k) { std::vector<Req> r; for (int i = 0; i < k; ++i) r.push_back({i % 4 != 1, "requirement " + std::to_string(i)}); return r; };
	switch (mc::choose(6))
	{
	case 0: args(n); same_text(mpp::print(c), call_text(cf), "text of a call with many arguments"); break;
	case 1: { const auto m = match({1, 2, 0, 0, 0, 0}, reqs(n), 1); same_text(mpp::print(m.r), match_text(m.f), "text of a match with many requirements"); break; }
	case 2:
	{
		const int kind = mc::choose(3);
		const auto m = match({n, n + n / 2, kind == 2 ? n + n / 2 : mc::choose_bool() ? n - 1 : n, kind, n, kind == 1 ? n + 3 : 0}, {}, 1);
		same_text(mpp::print(m.r), match_text(m.f), "text of a match with many sequences and times");
		break;
	}
	case 3:
	{
		const bool inapplicable = mc::choose_bool();
		std::vector<mpp::MatchReport> rs;
		std::vector<MatchFacts> fs;
		for (int i = 0; i < n; ++i)
		{
			std::vector<Req> q{{inapplicable, "why" + std::to_string(i)}};
			const auto m = match(inapplicable ? State{0, 3, 3, 2, 0, 0} : State{1, 2, 0, 0, 0, 0}, q, i % 300);
			rs.push_back(m.r);
			fs.push_back(m.f);
		}
		const auto want = inapplicable ? inapplicable_text(cf, fs) : no_match_text(cf, fs);
		auto report = [&](mpp::IReporter& r) { if (inapplicable) r.report_inapplicable_matches(c, rs); else r.report_no_matches(c, rs); };
		same_text(via_basic('f', report), want, "text of a call rejected by many (callback)");
		same_text(via_default(report), want, "text of a call rejected by many (default)");
		break;
	}
	case 4:
	{
		mpp::ExpectationReport r;
		ExpFacts f;
		r.sourceLocation = f.from = rec::locs()[4];
		for (int i = 0; i < n; ++i) { f.descs.push_back("d" + std::to_string(i)); r.expectationDescriptions.push_back("d" + std::to_string(i)); }
		same_text(via_default([&](mpp::IReporter& x) { x.report_unfulfilled_expectation(r); }), unfulfilled_text(f), "text of an expectation with many requirements");
		break;
	}
	default:
	{
		const std::string text(static_cast<std::size_t>(n) * 97, 'x');
		c.argDetails.push_back({typeid(int), text});
		cf.args.emplace_back(typeid(int).name(), text);
		const auto m = match({1, 2, 0, 0, 0, 0}, {{true, text}}, 1);
		same_text(via_basic('s', [&](mpp::IReporter& r) { r.report_full_match(c, m.r); }), full_text(cf, m.f), "text of a call with long texts");
	}
	}
}
static void unhandled()
{
	auto [c, cf] = any_call(true);
	mpp::ExpectationReport r;
	const auto f = any_exp(r);
	std::string want = "Unhandled exception: ";
	std::exception_ptr p;
	switch (mc::choose(4))
	{
	case 0: p = std::make_exception_ptr(std::runtime_error{"the {} reason"}); want += "what: the {} reason\n"; break;
	case 1: p = std::make_exception_ptr(std::logic_error{"logic"}); want += "what: logic\n"; break;
	case 2: p = std::make_exception_ptr(5); want += "Unknown exception type.\n"; break;
	default: p = std::make_exception_ptr(std::string{"text"}); want += "Unknown exception type.\n";
	}
	want += "while checking expectation:\n" + exp_text(f) + "For " + call_text(cf);
	auto report = [&](mpp::IReporter& x) { x.report_unhandled_exception(c, r, p); };
	same_text(via_basic('w', report), want, "text of an exception raised while matching (callback)");
	same_text(via_default(report), want, "text of an exception raised while matching (default)");
}
#endif

#if PART == 1
// the requirement entries of one expectation after one call
template <typename Mock, typename Builder, typename... Args>
static void described(Mock& mock, Builder&& b, std::multiset<std::string> want, bool ok, Args&&... args)
{
	rec::reset();
	{
		Scoped e{std::forward<Builder>(b), rec::locs()[3]};
		bool accepted = false;
		try { mock(std::forward<Args>(args)...); accepted = true; }
		catch (const rec::NoMatch&) { }
		mc::check_eq(accepted, ok, "verdict");
		std::multiset<std::string> got;
		for (auto& x : rec::log().events.at(0).matches.at(0).expectationReports) if (x.description) got.insert(*x.description);
		mc::check(got == want, "descriptions in the match report: ", [&] { std::string s; for (auto& g : got) s += g + "; "; s += " expected "; for (auto& g : want) s += g + "; "; return s; }());
		++mc::E().curTransitions;
	}
	if (!ok)
	{
		std::multiset<std::string> got;
		for (auto& x : rec::log().events.at(1).exp->expectationDescriptions) if (x) got.insert(*x);
		mc::check(got == want, "descriptions in the expectation report");
	}
}
template <typename M, typename Arg>
static void single(M matcher, std::string text, bool ok, Arg arg)
{
	mpp::Mock<void(Arg)> mock{};
	mc::note(text);
	described(mock, mock.expect_call(std::move(matcher)), {"expect: from any category overload", "expect: from mutable qualified overload", "expect: arg[0] " + text}, ok, arg);
}
template <typename M, typename Arg>
static void both(M m, const std::string& pos, const std::string& neg, bool ok, Arg arg)
{
	if (mc::choose_bool()) single(!m, neg, !ok, arg);
	else single(m, pos, ok, arg);
}
static void relations()
{
	const int v = std::array{42, 0, -5}[static_cast<std::size_t>(mc::choose(3))], a = std::array{42, 0, -5}[static_cast<std::size_t>(mc::choose(3))];
	const auto s = std::to_string(v);
	switch (mc::choose(9))
	{
	case 0: both(matches::eq(v), "== " + s, "!= " + s, a == v, a); break;
	case 1: both(matches::ne(v), "!= " + s, "== " + s, a != v, a); break;
	case 2: both(matches::lt(v), "< " + s, ">= " + s, a < v, a); break;
	case 3: both(matches::le(v), "<= " + s, "> " + s, a <= v, a); break;
	case 4: both(matches::gt(v), "> " + s, "<= " + s, a > v, a); break;
	case 5: both(matches::ge(v), ">= " + s, "< " + s, a >= v, a); break;
	case 6: single(matches::_, "has no constraints", true, a); break;
	case 7: both(matches::predicate([v](int x) { return x == v; }), "passes predicate", "fails predicate", a == v, a); break;
	default: both(matches::predicate([v](int x) { return x == v; }, "is fine", "is not fine"), "is fine", "is not fine", a == v, a);
	}
}
static void strings()
{
	const std::string v = std::array{"ab", "", "{}"}[static_cast<std::size_t>(mc::choose(3))], a = std::array{"ab", "", "{}"}[static_cast<std::size_t>(mc::choose(3))];
	const auto s = '"' + v + '"';
	const bool begins = a.starts_with(v), ends = a.ends_with(v), has = a.find(v) != std::string::npos;
	const std::string upper = v == "ab" ? "AB" : v, ci = '"' + upper + '"';
	namespace str = matches::str;
	switch (mc::choose(10))
	{
	case 0: both(str::eq(v), "is equal to " + s, "is not equal to " + s, a == v, a); break;
	case 1: both(str::starts_with(v), "starts with " + s, "starts not with " + s, begins, a); break;
	case 2: both(str::ends_with(v), "ends with " + s, "ends not with " + s, ends, a); break;
	case 3: both(str::contains(v), "contains " + s, "contains not " + s, has, a); break;
	case 4: both(str::eq(upper, mpp::case_insensitive), "is case-insensitively equal to " + ci, "is case-insensitively not equal to " + ci, a == v, a); break;
	case 5: both(str::starts_with(upper, mpp::case_insensitive), "case-insensitively starts with " + ci, "case-insensitively starts not with " + ci, begins, a); break;
	case 6: both(str::ends_with(upper, mpp::case_insensitive), "case-insensitively ends with " + ci, "case-insensitively ends not with " + ci, ends, a); break;
	case 7: both(str::contains(upper, mpp::case_insensitive), "case-insensitively contains " + ci, "case-insensitively contains not " + ci, has, a); break;
	case 8: single(v, "is equal to " + s, a == v, a); break;
	default: single(matches::eq(v), "== " + s, a == v, a);
	}
}
static void ranges()
{
	const std::vector<int> v = std::array<std::vector<int>, 3>{std::vector<int>{}, {1, 2}, {3, 1}}[static_cast<std::size_t>(mc::choose(3))];
	const std::vector<int> a = std::array<std::vector<int>, 3>{std::vector<int>{}, {2, 1}, {3, 1}}[static_cast<std::size_t>(mc::choose(3))];
	const auto s = mpp::print(v);
	const auto n = static_cast<int>(v.size());
	namespace r = matches::range;
	const int k = n;
	auto all = [&](auto f) { return std::ranges::all_of(a, f); };
	auto any = [&](auto f) { return std::ranges::any_of(a, f); };
	switch (mc::choose(10))
	{
	case 0: both(r::eq(v), "elements are " + s, "elements are not " + s, a == v, a); break;
	case 1: both(r::unordered_eq(v), "is a permutation of " + s, "is not a permutation of " + s, std::ranges::is_permutation(a, v), a); break;
	case 2: both(r::is_sorted(), "is a sorted range", "is an unsorted range", std::ranges::is_sorted(a), a); break;
	case 3: both(r::is_empty(), "is an empty range", "is not an empty range", a.empty(), a); break;
	case 4: both(r::has_size(n), "has size of " + std::to_string(n), "has different size than " + std::to_string(n), static_cast<int>(a.size()) == n, a); break;
	case 5: both(r::each_element(matches::gt(k)), "each el in range: el > " + std::to_string(k), "not each el in range: el > " + std::to_string(k), all([k](int x) { return x > k; }), a); break;
	case 6: both(r::any_element(matches::eq(k)), "any el in range: el == " + std::to_string(k), "none el in range: el == " + std::to_string(k), any([k](int x) { return x == k; }), a); break;
	case 7: both(r::each_element(!matches::eq(k)), "each el in range: el != " + std::to_string(k), "not each el in range: el != " + std::to_string(k), all([k](int x) { return x != k; }), a); break;
	case 8: both(r::each_element(matches::_), "each el in range: el has no constraints", "not each el in range: el has no constraints", true, a); break;
	default: both(matches::eq(v), "== " + s, "!= " + s, a == v, a);
	}
}
static void identities()
{
	int x{}, y{};
	const bool same = mc::choose_bool();
	const auto s = mpp::print(&x);
	mpp::Mock<void(int&)> mock{};
	std::multiset<std::string> want{"expect: from any category overload", "expect: from mutable qualified overload"};
	if (mc::choose_bool())
	{
		want.insert("expect: arg[0] is not instance at " + s);
		described(mock, mock.expect_call(!matches::instance(x)), want, !same, same ? x : y);
	}
	else
	{
		want.insert("expect: arg[0] is instance at " + s);
		described(mock, mock.expect_call(matches::instance(x)), want, same, same ? x : y);
	}
}
static void positions()
{
	mpp::Mock<void(int, std::string, int)> mock{};
	const int a = mc::choose(2), c = mc::choose(2);
	const std::string b = mc::choose_bool() ? "x" : "yy";
	std::multiset<std::string> want{"expect: from any category overload", "expect: from mutable qualified overload", "expect: arg[0] == 1", "expect: arg[1] is equal to \"x\"", "expect: arg[2] != 0"};
	const bool base = a == 1 && b == "x" && c != 0;
	switch (mc::choose(4))
	{
	case 0: described(mock, mock.expect_call(1, "x", matches::ne(0)), want, base, a, b, c); break;
	case 1:
		want.insert("expect: arg[2] >= 1");
		described(mock, mock.expect_call(1, "x", matches::ne(0)) and expect::arg<2>(matches::ge(1)), want, base && c >= 1, a, b, c);
		break;
	case 2:
		want.insert("expect: arg[1] == 1");
		described(mock, mock.expect_call(1, "x", matches::ne(0)) and expect::arg<1>(matches::eq(std::size_t{1}), &std::string::size), want, base && b.size() == 1, a, b, c);
		break;
	default:
		want.insert("expect: arg[0] < 7");
		want.insert("expect: arg[0] > 0");
		described(mock, mock.expect_call(1, "x", matches::ne(0)) and expect::arg<0>(matches::lt(7)) and expect::times(1) and expect::arg<0>(matches::gt(0)) and mpp::then::invoke([] { }), want, base && a > 0, a, b, c);
	}
}
// many parameters, each with its own requirement; one or none of them is not met
template <std::size_t... i>
static void many_arguments(std::index_sequence<i...>)
{
	constexpr int n = sizeof...(i);
	mpp::Mock<void(decltype(int(i))...)> mock{};
	std::array<int, sizeof...(i)> v{int(i)...};
	const int off = mc::choose(n + 1) - 1;
	if (off >= 0) v[static_cast<std::size_t>(off)] = -5;
	std::multiset<std::string> want{"expect: from any category overload", "expect: from mutable qualified overload"};
	auto line = [](std::size_t k, const std::string& rel) { return "expect: arg[" + std::to_string(k) + "] " + rel + " " + std::to_string(k); };
	switch (mc::choose(3))
	{
	case 0:
		(want.insert(line(i, "==")), ...);
		described(mock, mock.expect_call(int(i)...), want, off < 0, v[i]...);
		break;
	case 1:
		(want.insert(line(i, ">=")), ...);
		described(mock, mock.expect_call(matches::ge(int(i))...), want, off < 0, v[i]...);
		break;
	default:
	{
		constexpr std::size_t last = sizeof...(i) - 1;
		(want.insert("expect: arg[" + std::to_string(i) + "] has no constraints"), ...);
		want.insert(line(last, "<="));
		want.insert(line(last / 2, "<="));
		described(mock, mock.expect_call(((void)i, matches::_)...) and expect::arg<last>(matches::le(int(last))) and expect::arg<last / 2>(matches::le(int(last / 2))), want, true, v[i]...);
	}
	}
}
static void many_arguments()
{
	switch (mc::choose(6))
	{
	case 0: many_arguments(std::make_index_sequence<1>{}); break;
	case 1: many_arguments(std::make_index_sequence<9>{}); break;
	case 2: many_arguments(std::make_index_sequence<10>{}); break;
	case 3: many_arguments(std::make_index_sequence<11>{}); break;
	case 4: many_arguments(std::make_index_sequence<17>{}); break;
	default: many_arguments(std::make_index_sequence<24>{});
	}
}
template <typename Sig, typename Fn>
static void overload(const char* cat, const char* cst, const char* callCat, const char* callCst, Fn use)
{
	mpp::install_reporter<Basic>();
	messages.clear();
	mpp::Mock<Sig> mock{};
	{
		Scoped e{use(mock).expect_call(7), rec::locs()[2]};
		const int arg = mc::choose_bool() ? 7 : 8;
		const auto loc = rec::locs()[9];
		try { use(mock)(arg, loc); } catch (const Failure&) { }
		MatchFacts m{rec::locs()[2], {1, 1, 0, 0, 0, 0}, {{true, std::string{"expect: from "} + cat + " category overload"}, {true, std::string{"expect: from "} + cst + " qualified overload"}, {arg == 7, "expect: arg[0] == 7"}}};
		CallFacts c{typeid(void).name(), {{typeid(int).name(), std::to_string(arg)}}, loc, callCat, callCst};
		mc::check_eq(messages.size(), 1u, "reports");
		same_text(messages.at(0).text, arg == 7 ? full_text(c, m) : no_match_text(c, {m}), "text of a call");
		if (arg != 7) try { auto* p = new Scoped{std::move(e)}; delete p; } catch (const Failure&) { }
	}
	mpp::install_reporter<rec::Reporter>();
}
static void overloads()
{
	auto id = []<typename M>(M& m) -> M& { return m; };
	auto c = []<typename M>(M& m) -> const M& { return m; };
	auto r = []<typename M>(M& m) -> M&& { return std::move(m); };
	auto cr = []<typename M>(M& m) -> const M&& { return std::move(m); };
	switch (mc::choose(7))
	{
	case 0: overload<void(int)>("any", "mutable", "any", "mutable", id); break;
	case 1: overload<void(int) const>("any", "const", "any", "const", c); break;
	case 2: overload<void(int) &>("lvalue", "mutable", "lvalue", "mutable", id); break;
	case 3: overload<void(int) &&>("rvalue", "mutable", "rvalue", "mutable", r); break;
	case 4: overload<void(int) const&>("lvalue", "const", "lvalue", "const", c); break;
	case 5: overload<void(int) const&&>("rvalue", "const", "rvalue", "const", cr); break;
	default: overload<void(int)>("any", "mutable", "any", "mutable", id);
	}
}
#endif

#if PART == 2
struct W
{
	Model m{};
	std::vector<MockT> mocks = std::vector<MockT>(1);
	std::vector<Scoped*> real;
	std::vector<std::unique_ptr<mpp::LazySequence>> lazy;
	explicit W(int seqs)
	{
		mpp::install_reporter<Basic>();
		messages.clear();
		for (int i = 0; i < seqs; ++i) { m.seqs.push_back({.greedy = false}); lazy.push_back(std::make_unique<mpp::LazySequence>()); }
	}
	~W()
	{
		for (auto* p : real) try { delete p; } catch (const Failure&) { }
		for (auto& s : lazy) (void)s.release(); // incomplete sequences must not be reported here (known finding of C06)
	}
	static std::string desc(int mask) { return "accepts mask " + std::to_string(mask); }
	void create(const Spec& sp)
	{
		const int id = m.create(sp);
		mc::note("create E", id, ": ", sp.text());
		auto base = [&] {
			return mocks[0].expect_call(matches::predicate([mask = sp.mask](const int& v) { return (mask >> v & 1) != 0; }, desc(sp.mask)))
				and expect::times(sp.min, sp.max) and mpp::finally::returns(1000 + id) and mpp::then::invoke([] { });
		};
		const auto& loc = rec::locs()[static_cast<std::size_t>(id)];
		if (sp.seqs.empty()) real.push_back(new Scoped{base(), loc});
		else if (sp.seqs.size() == 1) real.push_back(new Scoped{base() and expect::in_sequence(*lazy[sp.seqs[0]]), loc});
		else real.push_back(new Scoped{base() and expect::in_sequences(*lazy[sp.seqs[0]], *lazy[sp.seqs[1]]), loc});
	}
	State state(const MExp& e) const
	{
		State s{e.spec.min, e.spec.max, e.count, 0, 0, 0};
		for (std::size_t k = 0; k < e.pos.size(); ++k) ++(m.eligible_in(e, k) ? s.in : s.out);
		s.kind = e.saturated() ? 2 : s.out ? 1 : 0;
		return s;
	}
	MatchFacts facts(int i, int arg) const
	{
		auto& e = m.exps[i];
		return {rec::locs()[static_cast<std::size_t>(i)], state(e), {{true, "expect: from any category overload"}, {true, "expect: from mutable qualified overload"}, {(e.spec.mask >> arg & 1) != 0, "expect: arg[0] " + desc(e.spec.mask)}}};
	}
	void call(int arg)
	{
		const int want = m.choose(0, arg);
		CallFacts c{typeid(int).name(), {{typeid(int&).name(), std::to_string(arg)}}, rec::locs()[20], "any", "mutable"};
		std::vector<MatchFacts> none, shut;
		for (std::size_t i = 0; i < m.exps.size(); ++i)
		{
			if (!m.exps[i].alive) continue;
			const auto f = facts(static_cast<int>(i), arg);
			if (rating(f) == 0) none.push_back(f); else if (rating(f) == 1) shut.push_back(f);
		}
		messages.clear();
		int got = -1, a = arg;
		try { got = mocks[0](a, rec::locs()[20]) - 1000; } catch (const Failure&) { }
		mc::note("call(", arg, ") -> ", got);
		mc::check(messages.size() == 1 && messages[0].kind == (want >= 0 ? 's' : 'f'), "reports of the call");
		if (mc::violated()) return;
		same_text(messages[0].text, want >= 0 ? full_text(c, facts(want, arg)) : !shut.empty() ? inapplicable_text(c, shut) : no_match_text(c, none), "text of a call");
		mc::check_eq(got, want, "answer");
		if (want >= 0) m.consume(want);
	}
	void remove(int id)
	{
		messages.clear();
		auto& e = m.exps[id];
		ExpFacts f{rec::locs()[static_cast<std::size_t>(id)], state_text(state(e)), {}, {"expect: from any category overload", "expect: from mutable qualified overload", "expect: arg[0] " + desc(e.spec.mask)}};
		mc::note("remove E", id);
		e.alive = false;
		try { delete std::exchange(real[id], nullptr); } catch (const Failure&) { }
		if (e.satisfied()) { mc::check(messages.empty(), "a satisfied expectation was reported"); return; }
		mc::check(messages.size() == 1 && messages[0].kind == 'f', "reports of the removal");
		if (!messages.empty()) same_text(messages[0].text, unfulfilled_text(f), "text of an unfulfilled expectation");
	}
};
static void histories(int nSeqs, int n, int calls)
{
	W w{nSeqs};
	static const std::vector<std::pair<int, int>> times{{1, 1}, {0, 1}, {2, 3}, {3, 3}, {2, 2}};
	const int total = mc::choose(n + 1);
	for (int i = 0; i < total; ++i)
	{
		const auto [lo, hi] = mc::pick_from(times);
		Spec s{.mask = mc::choose_bool() ? 3 : 1, .min = lo, .max = hi};
		const int at = nSeqs ? mc::choose(1 << nSeqs) : 0;
		for (int q = 0; q < nSeqs; ++q) if (at >> q & 1) s.seqs.push_back(q);
		w.create(s);
	}
	for (int c = mc::choose(calls + 1); c > 0 && !mc::violated(); --c) w.call(mc::choose(2));
	for (int i = 0; i < total && !mc::violated(); ++i) w.remove(i);
}
#endif

int main(int argc, char** argv)
{
	return mc::main(argc, argv, {
#if PART == 0
		{"states", states},
		{"requirements", requirements},
		{"calls", calls},
		{"expectation", expectation},
		{"rejected", rejected},
		{"accepted", accepted},
		{"unhandled", unhandled},
		{"large", large},
#elif PART == 1
		{"relations", relations},
		{"strings", strings},
		{"ranges", ranges},
		{"identities", identities},
		{"positions", positions},
		{"many arguments", [] { many_arguments(); }},
		{"overloads", overloads},
#else
		{"histories", [] { histories(0, 2, mc::by_tier(4, 5)); }},
		{"one sequence", [] { histories(1, 2, mc::by_tier(4, 5)); }},
		{"two sequences", [] { histories(2, 2, mc::by_tier(3, 4)); }},
#endif
	}, 2);
}
