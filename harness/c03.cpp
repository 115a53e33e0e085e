// C03: what the reports of a call show: every parameter and return kind, every qualification, locations, verdicts per requirement.
// PART 0..3: signatures; PART 4: qualifications, locations, requirements
#include "kinds.hpp"

using namespace kinds;
namespace mpp = mimicpp;

struct Gate
{
	const bool* open;
	bool is_satisfied() const noexcept { return true; }
	bool matches(const auto&) const { return *open; }
	std::optional<mpp::StringT> describe() const { return "the gate is open"; }
	void consume(const auto&) noexcept {}
};

// ---- return kinds
static int globalInt{5};
static const std::string globalStr{"g"};
static Concrete globalConcrete{};
struct RVoid { using R = void; static void make() {} };
struct RInt { using R = int; static int make() { return 3; } };
struct RIntRef { using R = int&; static int& make() { return globalInt; } };
struct RStr { using R = std::string; static std::string make() { return "r"; } };
struct RStrCRef { using R = const std::string&; static const std::string& make() { return globalStr; } };
struct RUPtr { using R = std::unique_ptr<int>; static R make() { return nullptr; } };
struct RAbs { using R = Abstract&; static R make() { return globalConcrete; } };
struct RConstInt { using R = const Opaque; static R make() { return Opaque{1}; } };

template <typename RK>
struct Fin
{
	typename RK::R finalize_call(const auto&) { return RK::make(); }
};

// reports carry optional locations, expectations plain ones
static const std::source_location& plain(const std::source_location& l) { return l; }
static const std::source_location& plain(const std::optional<std::source_location>& l)
{
	static const std::source_location none{};
	mc::check(l.has_value(), "a report lacks its source location");
	return l ? *l : none;
}
static unsigned line(const auto& l) { return plain(l).line(); }
static bool same_loc(const auto& a, const auto& b)
{
	const auto &x = plain(a), &y = plain(b);
	return x.line() == y.line() && x.column() == y.column() && 0 == std::strcmp(x.file_name(), y.file_name()) && 0 == std::strcmp(x.function_name(), y.function_name());
}

static void check_report(const rec::Event& ev, rec::Kind kind, const std::type_index& ret, const std::vector<std::type_index>& types, const std::vector<std::string>& texts,
						 const std::source_location& at, const std::source_location& exp, mpp::ValueCategory cat, mpp::Constness cst)
{
	mc::check(ev.kind == kind, "report kind is ", rec::name(ev.kind), ", expected ", rec::name(kind));
	if (!mc::check(ev.call.has_value(), "no call in report")) return;
	const auto& c = *ev.call;
	mc::check(c.returnTypeIndex == ret, "the report names return type ", c.returnTypeIndex.name(), ", expected ", ret.name());
	if (!mc::check(c.argDetails.size() == types.size(), "the report lists ", c.argDetails.size(), " arguments, expected ", types.size())) return;
	for (std::size_t i = 0; i < types.size(); ++i)
	{
		mc::check(c.argDetails[i].typeIndex == types[i], "argument ", i, " is reported as ", c.argDetails[i].typeIndex.name(), ", expected ", types[i].name());
		mc::check_eq(c.argDetails[i].stateString, texts[i], "argument ", i);
	}
	mc::check(same_loc(c.fromLoc, at), "wrong call location: line ", line(c.fromLoc), ", expected ", at.line());
	mc::check(c.fromCategory == cat && c.fromConstness == cst, "wrong call qualifiers");
	if (mc::check(ev.matches.size() == 1, "the report lists ", ev.matches.size(), " expectations, expected 1"))
		mc::check(same_loc(ev.matches[0].sourceLocation, exp), "wrong expectation location: line ", line(ev.matches[0].sourceLocation), ", expected ", exp.line());
}

template <typename RK, typename... Ks>
void signature()
{
	using R = typename RK::R;
	rec::reset();
	mpp::Mock<R(typename Ks::P...)> mock{};
	bool open{};
	const auto expLoc = rec::locs()[11];
	mpp::ScopedExpectation e{
		mock.expect_call(((void)sizeof(Ks), mpp::matches::_)...)
			and mpp::expect::times(0, 1)
			and Gate{&open}
			and mpp::then::apply_all(Clobber{})
			and Fin<RK>{},
		expLoc};
	int count{};
	for (int step = 0; step < 3 && !mc::violated(); ++step)
	{
		open = mc::choose_bool();
		const int v = 1 + (sizeof...(Ks) ? mc::choose(2) : 0) + 2 * step;
		mc::note("call with values ", v, ", requirement ", open ? "holds" : "fails", ", answered so far: ", count);
		const rec::Kind kind = !open ? rec::Kind::no_match : count ? rec::Kind::inapplicable : rec::Kind::full;
		int k = 0;
		std::tuple<typename Ks::S...> storage{Ks::make(v + k++ * 3)...};
		std::apply(
			[&](auto&... s) {
				const std::vector<std::string> texts{Ks::shown(s)...};
				const std::vector<std::type_index> types{typeid(typename Ks::P)...};
				const auto before = rec::log().events.size();
				const auto at = rec::locs()[20 + step];
				try
				{
					static_cast<void>(mock(Ks::pass(s)..., at));
					mc::check(kind == rec::Kind::full, "the call was answered");
				}
				catch (const rec::NoMatch&) { mc::check(kind == rec::Kind::no_match, "the call was not matched"); }
				catch (const rec::Inapplicable&) { mc::check(kind == rec::Kind::inapplicable, "the call was inapplicable"); }
				if (kind == rec::Kind::full) ++count;
				if (!mc::check(rec::log().events.size() == before + 1, "the call issued ", rec::log().events.size() - before, " reports")) return;
				check_report(rec::log().events.back(), kind, typeid(R), types, texts, at, expLoc, mpp::ValueCategory::any, mpp::Constness::non_const);
				for (auto& t : texts) mc::observe(t);
			},
			storage);
		mc::observe(static_cast<std::uint64_t>(kind));
	}
}

using Run = void (*)();
static std::vector<Run> table;
template <typename... Ts> struct List {};
template <typename... Ks, typename... Rs>
static void singles(List<Ks...>, List<Rs...>)
{
	([&]<typename R>() { (table.push_back(&signature<R, Ks>), ...); }.template operator()<Rs>(), ...);
}
template <typename K, typename... Ks>
static void pairs_of(List<Ks...>) { (table.push_back(&signature<RInt, K, Ks>), ...); }
template <typename... Fs, typename Bs>
static void pairs(List<Fs...>, Bs bs) { (pairs_of<Fs>(bs), ...); }
template <int N, typename K, typename... Ks>
static void rotations(List<K, Ks...>)
{
	table.push_back(&signature<RVoid, K, Ks...>);
	if constexpr (N > 1) rotations<N - 1>(List<Ks..., K>{});
}

#if PART == 4

// ---- qualifications: the report states how the call was made, not how the expectation was created
template <typename Sig, typename Expect, typename Call>
static void qualified(mpp::ValueCategory cat, mpp::Constness cst, Expect expect, Call call)
{
	rec::reset();
	Sig mock{};
	const auto expLoc = rec::locs()[11];
	const bool open = true;
	mpp::ScopedExpectation e{expect(mock) and mpp::expect::times(0, 1) and Gate{&open} and mpp::finally::returns(1), expLoc};
	const auto at = rec::locs()[20];
	static_cast<void>(call(mock, at));
	if (mc::check(rec::log().events.size() == 1, "number of reports"))
		check_report(rec::log().events.back(), rec::Kind::full, typeid(int), {typeid(int)}, {"4"}, at, expLoc, cat, cst);
}

static void qualifications()
{
	using enum mpp::ValueCategory;
	constexpr auto non_const = mpp::Constness::non_const, as_const = mpp::Constness::as_const;
	constexpr auto ex = [](auto& m) { return m.expect_call(mpp::matches::_); };
	constexpr auto exR = [](auto& m) { return std::move(m).expect_call(mpp::matches::_); };
	constexpr auto l = [](auto& m, auto at) { return m(4, at); };
	constexpr auto cl = [](auto& m, auto at) { return std::as_const(m)(4, at); };
	constexpr auto r = [](auto& m, auto at) { return std::move(m)(4, at); };
	constexpr auto cr = [](auto& m, auto at) { return std::move(std::as_const(m))(4, at); };
	constexpr auto exC = [](auto& m) { return std::as_const(m).expect_call(mpp::matches::_); };
	constexpr auto exCR = [](auto& m) { return std::move(std::as_const(m)).expect_call(mpp::matches::_); };
	switch (mc::choose(24))
	{
	case 0: return qualified<mpp::Mock<int(int)>>(any, non_const, ex, l);
	case 1: return qualified<mpp::Mock<int(int)>>(any, non_const, ex, r);
	case 2: return qualified<mpp::Mock<int(int) const>>(any, as_const, ex, l);
	case 3: return qualified<mpp::Mock<int(int) const>>(any, as_const, exC, cl);
	case 4: return qualified<mpp::Mock<int(int) const>>(any, as_const, ex, cr);
	case 5: return qualified<mpp::Mock<int(int) &>>(lvalue, non_const, ex, l);
	case 6: return qualified<mpp::Mock<int(int) const &>>(lvalue, as_const, ex, l);
	case 7: return qualified<mpp::Mock<int(int) const &>>(lvalue, as_const, exC, cl);
	case 8: return qualified<mpp::Mock<int(int) const &>>(lvalue, as_const, ex, r);
	case 9: return qualified<mpp::Mock<int(int) &&>>(rvalue, non_const, exR, r);
	case 10: return qualified<mpp::Mock<int(int) const &&>>(rvalue, as_const, exR, r);
	case 11: return qualified<mpp::Mock<int(int) const &&>>(rvalue, as_const, exCR, cr);
	case 12: return qualified<mpp::Mock<int(int) noexcept>>(any, non_const, ex, l);
	case 13: return qualified<mpp::Mock<int(int) const noexcept>>(any, as_const, ex, cl);
	case 14: return qualified<mpp::Mock<int(int) & noexcept>>(lvalue, non_const, ex, l);
	case 15: return qualified<mpp::Mock<int(int) const & noexcept>>(lvalue, as_const, ex, cl);
	case 16: return qualified<mpp::Mock<int(int) && noexcept>>(rvalue, non_const, exR, r);
	case 17: return qualified<mpp::Mock<int(int) const && noexcept>>(rvalue, as_const, exR, cr);
	// overloads
	case 18: return qualified<mpp::Mock<int(int), int(int) const>>(any, non_const, ex, l);
	case 19: return qualified<mpp::Mock<int(int), int(int) const>>(any, as_const, exC, cl);
	case 20: return qualified<mpp::Mock<int(int) &, int(int) const &, int(int) &&, int(int) const &&>>(lvalue, non_const, ex, l);
	case 21: return qualified<mpp::Mock<int(int) &, int(int) const &, int(int) &&, int(int) const &&>>(lvalue, as_const, exC, cl);
	case 22: return qualified<mpp::Mock<int(int) &, int(int) const &, int(int) &&, int(int) const &&>>(rvalue, non_const, exR, r);
	case 23: return qualified<mpp::Mock<int(int) &, int(int) const &, int(int) &&, int(int) const &&>>(rvalue, as_const, exCR, cr);
	}
}

// an overload set sharing one expectation list: a rejected call names its own qualification
static void rejected_overloads()
{
	rec::reset();
	mpp::Mock<int(int) &, int(int) const &, int(int) &&, int(int) const &&> m{};
	std::vector<std::unique_ptr<mpp::ScopedExpectation>> es;
	std::vector<int> made;
	const bool open = true;
	for (int i = 0; i < 4; ++i)
	{
		const int times = mc::choose(3); // none, saturated, answers once
		made.push_back(times);
		const auto loc = rec::locs()[static_cast<std::size_t>(i)];
		auto add = [&](auto&& b) { es.push_back(std::make_unique<mpp::ScopedExpectation>(std::move(b) and mpp::expect::times(0, times - 1) and Gate{&open} and mpp::finally::returns(i), loc)); };
		if (times == 0) continue;
		if (i == 0) add(m.expect_call(1));
		if (i == 1) add(std::as_const(m).expect_call(1));
		if (i == 2) add(std::move(m).expect_call(1));
		if (i == 3) add(std::move(std::as_const(m)).expect_call(1));
	}
	for (int step = 0; step < 2 && !mc::violated(); ++step)
	{
		const int c = mc::choose(4);
		const int arg = mc::choose(2);
		const auto at = rec::locs()[static_cast<std::size_t>(20 + step)];
		mc::note("call ", c, " with ", arg);
		int got = -1;
		try
		{
			got = c == 0 ? m(arg, at) : c == 1 ? std::as_const(m)(arg, at) : c == 2 ? std::move(m)(arg, at) : std::move(std::as_const(m))(arg, at);
		}
		catch (const rec::NoMatch&) {}
		catch (const rec::Inapplicable&) {}
		const auto& ev = rec::log().events.back();
		if (!mc::check(static_cast<int>(rec::log().events.size()) == step + 1, "number of reports")) return;
		const bool matches = arg == 1 && made[static_cast<std::size_t>(c)] > 0;
		const bool answers = matches && made[static_cast<std::size_t>(c)] > 1;
		mc::check_eq(got, answers ? c : -1, "answering expectation");
		const auto kind = answers ? rec::Kind::full : matches ? rec::Kind::inapplicable : rec::Kind::no_match;
		if (answers) --made[static_cast<std::size_t>(c)];
		mc::check(ev.kind == kind, "report kind is ", rec::name(ev.kind), ", expected ", rec::name(kind));
		mc::check(ev.call->fromCategory == (c < 2 ? mpp::ValueCategory::lvalue : mpp::ValueCategory::rvalue), "wrong value category in the call report");
		mc::check(ev.call->fromConstness == (c % 2 ? mpp::Constness::as_const : mpp::Constness::non_const), "wrong constness in the call report");
		mc::check(ev.call->argDetails.size() == 1 && ev.call->argDetails[0].stateString == std::to_string(arg), "wrong argument");
		std::vector<int> listed;
		for (auto& r : ev.matches) listed.push_back(rec::id_of(r.sourceLocation));
		std::sort(listed.begin(), listed.end());
		std::vector<int> want;
		if (matches) want = {c};
		else
			for (int i = 0; i < 4; ++i) if (made[static_cast<std::size_t>(i)] > 0) want.push_back(i);
		mc::check(listed == want, "the report lists ", listed.size(), " expectations, expected ", want.size());
	}
}

// ---- default locations
static bool same_line(const auto& loc, const std::source_location& here)
{
	const auto& l = plain(loc);
	return l.line() == here.line() && 0 == std::strcmp(l.file_name(), here.file_name()) && 0 == std::strcmp(l.function_name(), here.function_name());
}

static void locations()
{
	rec::reset();
	mpp::Mock<int(int), int(std::string) const, void()> m{};
	std::unique_ptr<mpp::ScopedExpectation> owner;
	std::source_location exp{};
	mpp::LazySequence seq{};
	using namespace mpp;
	auto use = [&](ScopedExpectation&& e) { owner = std::make_unique<ScopedExpectation>(std::move(e)); };
	switch (mc::choose(6))
	{
	case 0: exp = std::source_location::current(); use(ScopedExpectation{m.expect_call(1) and finally::returns(1)}); break;
	case 1: { exp = std::source_location::current(); ScopedExpectation e = m.expect_call(1) and finally::returns(1); use(std::move(e)); break; }
	case 2: { exp = std::source_location::current(); SCOPED_EXP m.expect_call(1) and finally::returns(1); return; }
	case 3: {
		auto b = m.expect_call(1) and finally::returns(1) and expect::in_sequence(seq);
		exp = std::source_location::current(); ScopedExpectation e{std::move(b)};
		use(std::move(e));
		break;
	}
	case 4: {
		auto b = m.expect_call(1) and finally::returns(1);
		exp = std::source_location::current(); use(std::move(b).finalize(std::source_location::current()));
		break;
	}
	case 5: { auto b = m.expect_call(1) and finally::returns(1); exp = std::source_location::current(); ScopedExpectation e = std::move(b); ScopedExpectation f{std::move(e)}; use(std::move(f)); break; }
	}
	mc::check(same_line(owner->from(), exp), "the expectation claims to come from line ", owner->from().line(), ", expected ", exp.line());
	std::source_location at{};
	const int form = mc::choose(4);
	try
	{
		switch (form)
		{
		case 0: at = std::source_location::current(); (void)m(1); break;
		case 1: at = std::source_location::current(); (void)m(2); break;
		case 2: at = std::source_location::current(); (void)std::as_const(m)("x"); break;
		case 3: at = std::source_location::current(); m(); break;
		}
	}
	catch (const rec::NoMatch&) {}
	if (!mc::check(rec::log().events.size() == 1, "number of reports")) return;
	const auto& ev = rec::log().events.back();
	mc::check(same_line(ev.call->fromLoc, at), "the call claims to come from line ", line(ev.call->fromLoc), ", expected ", at.line());
	if (form < 2)
	{
		if (mc::check(ev.matches.size() == 1, "listed expectations"))
			mc::check(same_line(ev.matches[0].sourceLocation, exp), "the match report names line ", line(ev.matches[0].sourceLocation), ", expected ", exp.line());
	}
	else mc::check(ev.matches.empty(), "expectations of another overload are listed");
	owner.reset(); // unfulfilled unless the call matched
	const bool unfulfilled = form != 0;
	if (!mc::check(rec::log().events.size() == (unfulfilled ? 2u : 1u), "number of reports after the removal")) return;
	if (unfulfilled)
		mc::check(same_line(rec::log().events.back().exp->sourceLocation, exp), "the unfulfilled expectation names line ", line(rec::log().events.back().exp->sourceLocation));
}

static void scoped_macros()
{
	rec::reset();
	mpp::Mock<int(int)> m{};
	std::source_location first{}, second{};
	using namespace mpp;
	const int form = mc::choose(3);
	{
		if (form == 0)
		{
			first = std::source_location::current(); SCOPED_EXP m.expect_call(1) and finally::returns(1);
			second = std::source_location::current(); SCOPED_EXP m.expect_call(2) and finally::returns(1);
			for (int i = 0; i < 2; ++i) try { (void)m(1 + mc::choose(3)); } catch (...) {}
		}
		else if (form == 1)
		{
			first = std::source_location::current(); MIMICPP_SCOPED_EXPECTATION m.expect_call(1) and finally::returns(1);
			second = std::source_location::current(); MIMICPP_SCOPED_EXPECTATION m.expect_call(2) and finally::returns(1);
			for (int i = 0; i < 2; ++i) try { (void)m(1 + mc::choose(3)); } catch (...) {}
		}
		else
		{
			first = std::source_location::current(); MIMICPP_SCOPED_EXPECTATION m.expect_call(1) and finally::returns(1); second = std::source_location::current(); MIMICPP_SCOPED_EXPECTATION m.expect_call(2) and finally::returns(1);
			for (int i = 0; i < 2; ++i) try { (void)m(1 + mc::choose(3)); } catch (...) {}
		}
	}
	int count[2]{}, calls = 0;
	for (const auto& ev : rec::log().events)
	{
		if (ev.kind == rec::Kind::unfulfilled)
		{
			mc::check(same_line(ev.exp->sourceLocation, first) || same_line(ev.exp->sourceLocation, second), "unfulfilled expectation at line ", line(ev.exp->sourceLocation));
			continue;
		}
		++calls;
		for (const auto& r : ev.matches)
		{
			const bool a = same_line(r.sourceLocation, first), b = same_line(r.sourceLocation, second);
			mc::check(a || b, "a match report names line ", line(r.sourceLocation), ", the expectations are at ", first.line(), " and ", second.line());
		}
		if (ev.kind == rec::Kind::full) ++count[ev.call->argDetails[0].stateString == "2"];
	}
	mc::check_eq(calls, 2, "reported calls");
	mc::check_eq(rec::log().events.size() - 2, static_cast<std::size_t>(2 - count[0] - count[1]), "unfulfilled expectations");
}

// ---- verdict per requirement, for every combination of outcomes
static void verdicts()
{
	rec::reset();
	mpp::Mock<int(int, int, int)> m{};
	using namespace mpp;
	const int sat = mc::choose(2);
	auto req = [](int i) { return matches::predicate([](int v) { return v == 1; }, "P" + std::to_string(i), "N" + std::to_string(i)); };
	bool open{};
	const int form = mc::choose(3);
	std::unique_ptr<ScopedExpectation> e;
	const auto loc = rec::locs()[3];
	if (form == 0) e.reset(new ScopedExpectation{m.expect_call(req(0), req(1), req(2)) and expect::times(0, sat) and Gate{&open} and finally::returns(1), loc});
	if (form == 1) e.reset(new ScopedExpectation{m.expect_call(matches::_, matches::_, matches::_) and Gate{&open} and expect::arg<2>(req(2)) and expect::times(0, sat) and expect::arg<0>(req(0)) and expect::arg<1>(req(1)) and finally::returns(1), loc});
	if (form == 2) e.reset(new ScopedExpectation{m.expect_call(matches::_, req(1), matches::_) and finally::returns(1) and expect::arg<0>(req(0)) and Gate{&open} and expect::arg<2>(req(2)) and expect::times(0, sat), loc});
	open = mc::choose_bool();
	bool ok[3];
	for (bool& o : ok) o = mc::choose_bool();
	try { (void)m(ok[0], ok[1], ok[2]); } catch (const rec::NoMatch&) {} catch (const rec::Inapplicable&) {}
	if (!mc::check(rec::log().events.size() == 1, "number of reports")) return;
	const auto& ev = rec::log().events[0];
	const bool all = open && ok[0] && ok[1] && ok[2];
	const auto kind = !all ? rec::Kind::no_match : sat ? rec::Kind::full : rec::Kind::inapplicable;
	mc::check(ev.kind == kind, "report kind is ", rec::name(ev.kind), ", expected ", rec::name(kind));
	if (!mc::check(ev.matches.size() == 1, "listed expectations")) return;
	int seen[4]{};
	for (const auto& r : ev.matches[0].expectationReports)
	{
		if (!r.description) { mc::check(r.isMatching, "an undescribed requirement failed"); continue; }
		bool known = false;
		for (int i = 0; i < 3; ++i)
			if (*r.description == "expect: arg[" + std::to_string(i) + "] P" + std::to_string(i))
			{
				known = true;
				++seen[i];
				mc::check(r.isMatching == ok[i], "requirement of argument ", i, " is reported as ", r.isMatching ? "met" : "missed", " for (", ok[0], ok[1], ok[2], ")");
			}
		if (*r.description == "the gate is open")
		{
			known = true;
			++seen[3];
			mc::check(r.isMatching == open, "the custom requirement is reported as ", r.isMatching ? "met" : "missed");
		}
		if (!known) mc::check(r.isMatching, "unexpected failed requirement: ", *r.description);
	}
	for (int i = 0; i < 4; ++i) mc::check_eq(seen[i], 1, "number of entries for requirement ", i);
	mc::observe(static_cast<std::uint64_t>(kind));
}
#endif

int main(int argc, char** argv)
{
#if PART == 4
	return mc::main(argc, argv, {
		{"qualifications", qualifications},
		{"rejected-overloads", rejected_overloads},
		{"locations", locations},
		{"scoped-macros", scoped_macros},
		{"verdicts", verdicts},
	}, 2);
#else
	using All = List<Int, Bool, Char, Dbl, IntRef, IntCRef, IntRv, Str, StrRef, StrCRef, StrRv, StrCRv, View, WStr, CStr, Opt, OptOpt, Ptr, VoidPtr, Null, kinds::Fn, MemPtr, UPtr, SPtr, MovOnly, MovOnlyRv,
		En, Opq, Shw, ShwCRef, Vec, VecBool, Arr, Mp>;
	using More = List<Pair, Tup0, Tup1, Tup2, TupTup, Any, Var, Func, RefW, RefWCRef, RefWRef, NoAddr, Grd, Conv, Com, Init, Spn, Path, Dur, Loc, Wide, LDbl, Cplx, Order, Ex, Abs, CAbs, CArr3, CharArr, Volat>;
	using Core = List<Int, Str, StrRv, UPtr, Opt, Null, Opq, ShwCRef, CharArr, IntRef>;
#if PART == 0
	singles(All{}, List<RInt>{});
	table.push_back(&signature<RInt>);
#elif PART == 1
	singles(More{}, List<RVoid>{});
#elif PART == 2
	pairs(List<Int, Str, StrRv, UPtr, CharArr>{}, Core{});
#elif PART == 3
	pairs(List<Opt, Null, Opq, ShwCRef, IntRef>{}, Core{});
#elif PART == 5
	singles(List<Int, StrCRef>{}, List<RVoid, RIntRef, RStr, RStrCRef, RUPtr, RAbs, RConstInt>{});
	rotations<3>(List<Int, Dbl, Str>{});
	rotations<4>(List<StrRv, Int, UPtr, Shw>{});
	rotations<5>(List<Int, IntRef, Int, StrCRef, Opq>{});
	rotations<6>(List<UPtr, Opt, Vec, VecBool, Null, CharArr>{});
	rotations<9>(List<Int, Str, Dbl, Char, IntRef, UPtr, Opq, Shw, View>{});
	table.push_back(&signature<RInt, Int, Int, Int, Int, Int, Int, Int, Int, Int, Int, Int, Int, Int, Int, Int, Int, Int, Int, Int, Int>);
#elif PART == 6 // thorough: more pairs
	pairs(List<Any, Tup0, Tup1, Pair, RefW, Grd, Conv, Com, NoAddr, Loc>{}, List<Any, Tup1, RefW, Grd, Loc, VecBool, Int>{});
#endif
	return mc::main(argc, argv, {{"signatures", [] { mc::pick_from(table)(); }}}, 1);
#endif
}
