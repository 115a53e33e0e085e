#include "c25_driver.hpp"
#include "mimic++/adapters/Catch2.hpp"
#include <catch2/catch_session.hpp>
#include <catch2/catch_test_case_info.hpp>
#include <catch2/matchers/catch_matchers_all.hpp>
#include <catch2/reporters/catch_reporter_event_listener.hpp>
#include <catch2/reporters/catch_reporter_registrars.hpp>

namespace
{
	const std::function<void()>* body;
	c25::Observed seen;

	struct Listener final : Catch::EventListenerBase
	{
		using EventListenerBase::EventListenerBase;
		static std::string getDescription() { return "mine"; }
		explicit Listener(Catch::IConfig const* c) : EventListenerBase{c} { m_preferences.shouldReportAllAssertions = true; }
		explicit Listener(Catch::ReporterConfig const& c) : EventListenerBase{c.fullConfig()} { m_preferences.shouldReportAllAssertions = true; }
		void assertionEnded(const Catch::AssertionStats& s) override
		{
			const auto& r = s.assertionResult;
			std::string text{r.getMessage()};
			switch (r.getResultType())
			{
			case Catch::ResultWas::Ok: seen.events.push_back({c25::Kind::success, text}); break;
			case Catch::ResultWas::Warning: case Catch::ResultWas::Info: seen.events.push_back({c25::Kind::message, text}); break;
			case Catch::ResultWas::ExplicitFailure: seen.events.push_back({c25::Kind::failure, text}); break;
			default: ++seen.foreignFailures;
			}
		}
		void testCaseEnded(const Catch::TestCaseStats& s) override
		{
			++seen.testCases;
			seen.passed = s.totals.testCases.allOk() && s.totals.assertions.failed == 0;
		}
	};
	CATCH_REGISTER_REPORTER("mine", Listener)

#ifdef CATCH_CONFIG_PREFIX_ALL
	CATCH_TEST_CASE("body") { (*body)(); }
#else
	TEST_CASE("body") { (*body)(); }
#endif

#ifdef MIMICPP_CONFIG_EXPERIMENTAL_CATCH2_MATCHER_INTEGRATION
	using namespace mimicpp;

	struct Old : Catch::Matchers::MatcherBase<int>
	{
		int mask;
		explicit Old(int m) : mask{m} { }
		bool match(const int& v) const override { return mask >> v & 1; }
		std::string describe() const override { return "old " + std::to_string(mask); }
	};
	struct New : Catch::Matchers::MatcherGenericBase
	{
		int mask;
		explicit New(int m) : mask{m} { }
		bool match(const auto& v) const { return mask >> v & 1; }
		std::string describe() const override { return "new " + std::to_string(mask); }
	};
	std::vector<std::string> texts;
	void drop(const StringT&) { }
	void keep(const StringT& s) { texts.push_back(s); }
	struct Rejected { };
	[[noreturn]] void reject(const StringT& s) { texts.push_back(s); throw Rejected{}; }
	using Plain = BasicReporter<&keep, &drop, &reject>;

	template <typename Mock, typename M, typename V>
	void verdict(const char* what, Mock& m, M matcher, const V& v, bool want, const std::string& description)
	{
		mc::note(what);
		texts.clear();
		ScopedExpectation e = m.expect_call(std::move(matcher)) && expect::at_most(1);
		bool got = true;
		try { m(v); }
		catch (const Rejected&) { got = false; }
		mc::check_eq(got, want, "Catch2 matcher ", what);
		mc::check(texts.size() == 1 && texts[0].find(description) != std::string::npos, "Catch2 matcher ", what, ": the description is missing in the report");
		mc::state(std::string{what} + (want ? "1" : "0"));
	}
	void matchers()
	{
		install_reporter<Plain>();
		const int mask = mc::choose(8), v = mc::choose(3);
		Mock<void(int)> ints{};
		Mock<void(std::string)> strings{};
		Mock<void(std::vector<int>)> vectors{};
		const std::string letters = "ab";
		std::string s;
		for (int n = mc::choose(4); n > 0; --n) s += letters[mc::choose(2)];
		std::vector<int> r;
		for (char c : s) r.push_back(c - 'a');
		auto text = [](const auto& m) { return m.describe(); };
		switch (mc::choose(11))
		{
		case 0: verdict("old style", ints, Old{mask}, v, mask >> v & 1, "old " + std::to_string(mask)); break;
		case 1: verdict("new style", ints, New{mask}, v, mask >> v & 1, "new " + std::to_string(mask)); break;
		case 2: verdict("ContainsSubstring", strings, Catch::Matchers::ContainsSubstring("ab"), s, s.find("ab") != std::string::npos, "ab"); break;
		case 3: verdict("StartsWith", strings, Catch::Matchers::StartsWith("b"), s, s.starts_with("b"), "b"); break;
		case 4: verdict("Equals", strings, Catch::Matchers::Equals("ba"), s, s == "ba", "ba"); break;
		case 5: verdict("SizeIs", vectors, Catch::Matchers::SizeIs(2), r, r.size() == 2, "2"); break;
		case 6: verdict("IsEmpty", vectors, Catch::Matchers::IsEmpty(), r, r.empty(), "empty"); break;
		case 7: verdict("Contains", vectors, Catch::Matchers::Contains(1), r, std::ranges::count(r, 1) > 0, "1"); break;
		case 8: verdict("AllMatch", vectors, Catch::Matchers::AllMatch(New{mask}), r, std::ranges::all_of(r, [&](int x) { return (mask >> x & 1) != 0; }), "new"); break;
		case 9: verdict("RangeEquals", vectors, Catch::Matchers::RangeEquals(std::vector{0, 1}), r, r == std::vector{0, 1}, "0, 1"); break;
		default: // nested in a quantifier of the library
			verdict("each_element", vectors, matches::range::each_element(Old{mask}), r, std::ranges::all_of(r, [&](int x) { return (mask >> x & 1) != 0; }), "old"); break;
		}
	}
#endif
}

int main(int argc, char** argv)
{
	auto fw = c25::adapter<mimicpp::Catch2ReporterT>("Catch2", true, false, 1);
	Catch::Session session;
	const char* args[]{"body", "-r", "mine"};
	if (session.applyCommandLine(3, args) != 0) return 2;
	fw.run = [&](const std::function<void()>& f) {
		seen = {};
		body = &f;
		const bool rc = session.run() == 0;
		mc::check_eq(rc, seen.passed, "Catch2: exit code");
		return seen;
	};
	return mc::main(argc, argv, {{"inclusion", [&] { c25::inclusion(fw); }}, {"histories", [&] {
		c25::history(fw, mc::by_tier(4, 5));
	}},
#ifdef MIMICPP_CONFIG_EXPERIMENTAL_CATCH2_MATCHER_INTEGRATION
	{"matchers", matchers},
#endif
	}, 3);
}
