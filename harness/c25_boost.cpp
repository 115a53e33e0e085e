#define BOOST_TEST_NO_MAIN
#include "c25_driver.hpp"
#include "mimic++/adapters/BoostTest.hpp"
#include <boost/test/tree/observer.hpp>
#include <boost/test/tree/visitor.hpp>
#include <boost/test/results_collector.hpp>
#include <boost/test/unit_test_log_formatter.hpp>
#include <boost/test/tools/output_test_stream.hpp>

namespace
{
	namespace ut = boost::unit_test;
	const std::function<void()>* body;
	c25::Observed seen;

	struct Formatter final : ut::unit_test_log_formatter
	{
		std::string text;
		log_entry_types type{};
		void log_start(std::ostream&, ut::counter_t) override { }
		void log_finish(std::ostream&) override { }
		void log_build_info(std::ostream&, bool) override { }
		void test_unit_start(std::ostream&, ut::test_unit const&) override { }
		void test_unit_finish(std::ostream&, ut::test_unit const&, unsigned long) override { }
		void test_unit_skipped(std::ostream&, ut::test_unit const&, ut::const_string) override { }
		void log_exception_start(std::ostream&, ut::log_checkpoint_data const&, boost::execution_exception const&) override { ++seen.foreignFailures; }
		void log_exception_finish(std::ostream&) override { }
		void log_entry_start(std::ostream&, ut::log_entry_data const&, log_entry_types t) override { type = t; text.clear(); }
		void log_entry_value(std::ostream&, ut::const_string v) override { text.append(v.begin(), v.size()); }
		void log_entry_finish(std::ostream&) override
		{
			if (text.starts_with("Test case ")) return; // the framework's own remark on cases without checks
			if (type == BOOST_UTL_ET_FATAL_ERROR) seen.events.push_back({c25::Kind::failure, text});
			else if (type == BOOST_UTL_ET_MESSAGE) seen.events.push_back({c25::Kind::message, text});
			else if (type == BOOST_UTL_ET_ERROR) ++seen.foreignFailures;
		}
		void entry_context_start(std::ostream&, ut::log_level) override { }
		void log_entry_context(std::ostream&, ut::log_level, ut::const_string) override { }
		void entry_context_finish(std::ostream&, ut::log_level) override { }
	};
	struct Observer final : ut::test_observer
	{
		void test_unit_finish(ut::test_unit const& u, unsigned long) override
		{
			if (u.p_type == ut::TUT_CASE) ++seen.testCases;
		}
		int priority() override { return 100; }
	};
	Observer observer;
}
BOOST_AUTO_TEST_CASE(body_case) { (*body)(); }

ut::test_suite* no_init(int, char**) { return nullptr; }

int main(int argc, char** argv)
{
	auto fw = c25::adapter<mimicpp::BoostTestReporterT>("Boost.Test", true, true, 1);
	char a0[] = "c25", a1[] = "--catch_system_errors=no", a2[] = "--report_level=no", a3[] = "--log_level=all", *args[]{a0, a1, a2, a3, nullptr};
	ut::framework::init(&no_init, 4, args);
	ut::unit_test_log.set_formatter(new Formatter);
	ut::unit_test_log.set_threshold_level(ut::log_all_errors);
	ut::unit_test_log.set_threshold_level(ut::log_messages);
	ut::framework::register_observer(observer);
	ut::framework::finalize_setup_phase();
	fw.run = [&](const std::function<void()>& f) {
		seen = {};
		body = &f;
		ut::framework::run();
		seen.passed = ut::results_collector.results(ut::framework::master_test_suite().p_id).passed();
		return seen;
	};
	return mc::main(argc, argv, {{"inclusion", [&] { c25::inclusion(fw); }}, {"histories", [&] {
		c25::history(fw, mc::by_tier(4, 5));
	}}}, 3);
}
