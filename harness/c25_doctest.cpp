#define DOCTEST_CONFIG_IMPLEMENT
#define DOCTEST_CONFIG_NO_POSIX_SIGNALS
#ifdef PREFIXED
	#define DOCTEST_CONFIG_NO_SHORT_MACRO_NAMES
#endif
#include "c25_driver.hpp"
#include "mimic++/adapters/Doctest.hpp"

namespace
{
	const std::function<void()>* body;
	c25::Observed seen;

	struct Reporter final : doctest::IReporter
	{
		explicit Reporter(const doctest::ContextOptions&) { }
		void report_query(const doctest::QueryData&) override { }
		void test_run_start() override { }
		void test_run_end(const doctest::TestRunStats&) override { }
		void test_case_start(const doctest::TestCaseData&) override { }
		void test_case_reenter(const doctest::TestCaseData&) override { }
		void test_case_end(const doctest::CurrentTestCaseStats& s) override
		{
			++seen.testCases;
			seen.passed = s.testCaseSuccess;
		}
		void test_case_exception(const doctest::TestCaseException&) override { ++seen.foreignFailures; }
		void subcase_start(const doctest::SubcaseSignature&) override { }
		void subcase_end() override { }
		void log_assert(const doctest::AssertData& a) override
		{
			std::string text;
			for (int i = 0; i < get_num_active_contexts(); ++i)
			{
				std::ostringstream ss;
				get_active_contexts()[i]->stringify(&ss);
				text += ss.str();
			}
			if (a.m_failed) ++seen.foreignFailures;
			else seen.events.push_back({c25::Kind::success, text});
		}
		void log_message(const doctest::MessageData& m) override
		{
			seen.events.push_back({m.m_severity & doctest::assertType::is_warn ? c25::Kind::message : c25::Kind::failure, m.m_string.c_str()});
		}
		void test_case_skipped(const doctest::TestCaseData&) override { }
	};
}
DOCTEST_REGISTER_REPORTER("mine", 1, Reporter);
DOCTEST_TEST_CASE("body") { (*body)(); }

int main(int argc, char** argv)
{
	auto fw = c25::adapter<mimicpp::DoctestReporterT>("doctest", true, false, 1);
	fw.run = [](const std::function<void()>& f) {
		seen = {};
		body = &f;
		doctest::Context ctx;
		ctx.setOption("reporters", "mine");
		ctx.setOption("no-intro", true);
		ctx.setOption("no-breaks", true);
		const bool rc = ctx.run() == 0;
		mc::check_eq(rc, seen.passed, "doctest: exit code");
		return seen;
	};
	return mc::main(argc, argv, {{"inclusion", [&] { c25::inclusion(fw); }}, {"histories", [&] {
		c25::history(fw, mc::by_tier(4, 5));
	}}}, 3);
}
