#include "c25_driver.hpp"
#include "mimic++/adapters/gtest.hpp"

namespace
{
	const std::function<void()>* body;
	c25::Observed seen;

	class Listener final : public testing::EmptyTestEventListener
	{
		void OnTestPartResult(const testing::TestPartResult& r) override
		{
			if (r.passed()) seen.events.push_back({c25::Kind::success, r.message()});
			else if (std::strstr(r.message(), "thrown in the test body")) ++seen.foreignFailures;
			else if (r.fatally_failed()) seen.events.push_back({c25::Kind::failure, r.message()});
			else ++seen.foreignFailures;
		}
		void OnTestEnd(const testing::TestInfo& i) override
		{
			++seen.testCases;
			seen.passed = i.result()->Passed();
		}
	};

	TEST(C25, body) { (*body)(); }
}

int main(int argc, char** argv)
{
	int fakeArgc = 1;
	testing::InitGoogleTest(&fakeArgc, argv);
	auto& listeners = testing::UnitTest::GetInstance()->listeners();
	delete listeners.Release(listeners.default_result_printer());
	listeners.Append(new Listener);
	c25::Framework fw;
	auto make = [&] {
		fw = c25::adapter<mimicpp::GTestReporterT>("gtest", false, false, 1);
		fw.run = [](const std::function<void()>& f) {
			seen = {};
			body = &f;
			const bool rc = RUN_ALL_TESTS() == 0;
			mc::check_eq(rc, seen.passed, "gtest: exit code");
			return seen;
		};
	};
	bool made = false;
	return mc::main(argc, argv, {{"inclusion", [&] {
		if (!std::exchange(made, true)) make();
		c25::inclusion(fw);
	}}, {"histories", [&] {
		if (!std::exchange(made, true)) make();
		c25::history(fw, mc::by_tier(4, 5));
	}}}, 3);
}
