// C02: every times form and bound, every number of attempted calls, removal.
#include "mc.hpp"
#include "rec.hpp"
#include <climits>
namespace e = mimicpp::expect;
namespace m = mimicpp;

static const std::vector<long> bounds{INT_MIN, -2, -1, 0, 1, 2, 3, 4, 5, 300, INT_MAX - 1, INT_MAX};

enum Form { two, exact, atLeast, atMost, once_, twice_, none_, forms };
static const char* const names[] = {"times(min,max)", "times(n)", "at_least(n)", "at_most(n)", "once", "twice", "(none)"};

// where the times clause stands among the other policies
template <typename T>
static m::ScopedExpectation build(m::Mock<int(int)>& mock, T times, int place)
{
	auto base = [&] { return mock.expect_call(m::matches::_); };
	auto ret = [] { return m::finally::returns(7); };
	if constexpr (std::is_null_pointer_v<T>) return m::ScopedExpectation{base() and ret(), rec::locs()[0]};
	else if (place == 0) return m::ScopedExpectation{base() and std::move(times) and ret(), rec::locs()[0]};
	else if (place == 1) return m::ScopedExpectation{base() and ret() and std::move(times), rec::locs()[0]};
	else return m::ScopedExpectation{base() and e::arg<0>(m::matches::_) and std::move(times) and m::then::invoke([] {}) and ret(), rec::locs()[0]};
}

static void forms_and_counts()
{
	rec::reset();
	const int form = mc::choose(forms);
	long lo = 1, hi = 1;
	switch (form)
	{
	case two: lo = mc::pick_from(bounds); hi = mc::pick_from(bounds); break;
	case exact: lo = hi = mc::pick_from(bounds); break;
	case atLeast: lo = mc::pick_from(bounds); hi = INT_MAX; break;
	case atMost: lo = 0; hi = mc::pick_from(bounds); break;
	case twice_: lo = hi = 2; break;
	default: break;
	}
	const int place = form == none_ ? 0 : mc::choose(3);
	const bool valid = lo >= 0 && hi >= 0 && lo <= hi;
	mc::note(names[form], " min ", lo, " max ", hi);
	m::Mock<int(int)> mock{};
	m::ScopedExpectation* exp{};
	bool refused = false;
	try
	{
		switch (form)
		{
		case two: exp = new m::ScopedExpectation{build(mock, e::times(static_cast<int>(lo), static_cast<int>(hi)), place)}; break;
		case exact: exp = new m::ScopedExpectation{build(mock, e::times(static_cast<int>(lo)), place)}; break;
		case atLeast: exp = new m::ScopedExpectation{build(mock, e::at_least(static_cast<int>(lo)), place)}; break;
		case atMost: exp = new m::ScopedExpectation{build(mock, e::at_most(static_cast<int>(hi)), place)}; break;
		case once_: exp = new m::ScopedExpectation{build(mock, e::once(), place)}; break;
		case twice_: exp = new m::ScopedExpectation{build(mock, e::twice(), place)}; break;
		case none_: exp = new m::ScopedExpectation{build(mock, nullptr, place)}; break;
		}
	}
	catch (const std::invalid_argument&) { refused = true; }
	mc::check(refused == !valid, names[form], " with bounds [", lo, ",", hi, "] was ", refused ? "refused" : "accepted");
	mc::observe(refused);
	if (!exp || mc::violated()) { delete exp; mc::check(rec::log().events.empty(), "refused bounds issued a report"); return; }

	const int top = static_cast<int>(std::min<long>(hi, lo < 300 && hi < 1000 ? hi : 300)) + 2;
	const int calls = top < 10 ? mc::choose(top + 1) : std::array{0, 1, 5, 254, 255, 256, 257, 299, 300, 301, 302}[mc::choose(11)];
	long count = 0;
	auto sat = [&] {
		mc::check(exp->is_satisfied() == (lo <= count && count <= hi), names[form], " [", lo, ",", hi, "] after ", count, " accepted calls: is_satisfied is wrong");
	};
	sat();
	for (int i = 0; i < calls && !mc::violated(); ++i)
	{
		bool accepted = false;
		try { accepted = mock(i) == 7; }
		catch (const rec::Inapplicable&) {}
		catch (const rec::NoMatch&) {}
		mc::check(accepted == (count < hi), names[form], " [", lo, ",", hi, "] call ", i + 1, " was ", accepted ? "accepted" : "rejected");
		count += accepted;
		sat();
	}
	mc::note(calls, " calls, accepted ", count);
	mc::state(static_cast<std::uint64_t>(form) << 48 ^ static_cast<std::uint64_t>(lo) << 32 ^ static_cast<std::uint64_t>(hi) << 16 ^ static_cast<std::uint64_t>(count));
	// removal, also while an exception is propagating (then the reporter must still be told)
	const int unwinding = mc::choose(2);
	const auto before = rec::log().events.size();
	const bool satisfied = lo <= count && count <= hi;
	rec::log().throwUnfulfilled = true;
	bool threw = false;
	struct Probe { };
	if (unwinding == 0)
	{
		try { delete exp; }
		catch (const rec::Unfulfilled&) { threw = true; }
		mc::check(threw == !satisfied, "removal: reporter's exception ", threw ? "left" : "did not leave", " the scope");
	}
	else
	{
		struct Guard { m::ScopedExpectation* p; ~Guard() { delete p; } };
		try { Guard g{exp}; throw Probe{}; }
		catch (const Probe&) {}
	}
	rec::log().throwUnfulfilled = false;
	int unf = 0;
	for (auto i = before; i < rec::log().events.size(); ++i)
	{
		auto& ev = rec::log().events[i];
		mc::check(ev.kind == rec::Kind::unfulfilled, "unexpected report of kind ", rec::name(ev.kind), " during removal");
		++unf;
		mc::check(ev.exp && rec::id_of(ev.exp->sourceLocation) == 0, "the report names another expectation");
	}
	mc::check_eq(unf, satisfied ? 0 : 1, names[form], " [", lo, ",", hi, "] count ", count, ": unfulfilled reports on removal");
	// the removed expectation never answers again
	bool accepted = true;
	try { (void)mock(0); }
	catch (const rec::NoMatch&) { accepted = false; }
	catch (const rec::Inapplicable&) { }
	mc::check(!accepted, "a removed expectation still takes part in matching");
}

// counts beyond every narrow integer, walked through one call at a time
static void long_counts()
{
	rec::reset();
	const int form = mc::choose(3);
	const long n = mc::pick_from(std::vector<long>{32767, 32768, 65535, 65536, 66000});
	const long lo = form == 2 ? 0 : n, hi = form == 1 ? INT_MAX : n;
	const long stop = mc::pick_from(std::vector<long>{n - 1, n, n + 1, 65537});
	mc::note(names[form + 1], " with ", n, ", ", stop, " calls");
	m::Mock<int(int)> mock{};
	auto* exp = new m::ScopedExpectation{form == 0 ? build(mock, e::times(static_cast<int>(n)), 0) : form == 1 ? build(mock, e::at_least(static_cast<int>(n)), 0) : build(mock, e::at_most(static_cast<int>(n)), 0)};
	long count = 0;
	for (long i = 0; i < stop && !mc::violated(); ++i)
	{
		bool accepted = false;
		try { accepted = mock(1) == 7; }
		catch (const rec::Inapplicable&) {}
		catch (const rec::NoMatch&) {}
		rec::log().events.clear();
		if (accepted != (count < hi)) mc::fail(names[form + 1], " with ", n, ": call ", i + 1, " was ", accepted ? "accepted" : "rejected");
		count += accepted;
		if (exp->is_satisfied() != (lo <= count && count <= hi)) mc::fail(names[form + 1], " with ", n, " after ", count, " accepted calls: is_satisfied is wrong");
	}
	rec::log().throwUnfulfilled = false;
	delete exp;
	mc::check_eq(rec::log().events.size(), lo <= count ? 0u : 1u, names[form + 1], " with ", n, " and ", count, " calls: reports on removal");
}

int main(int argc, char** argv)
{
	return mc::main(argc, argv, {{"forms-bounds-counts", forms_and_counts}, {"long-counts", long_counts}}, 2);
}
