// C04 (and C03, C06): one sequence.
#define CORE_MAX_SEQS 1
#include "histories.hpp"
using namespace core;

static unsigned tags()
{
	const auto& p = mc::E().prop;
	if (p == "C04") return SELECT | COUNT | EFFECTS;
	if (p == "C06") return SEQERR | SELECT;
	return REPORT;
}

// larger bounds
static std::vector<Times> wide()
{
	return mc::by_tier(std::vector<Times>{{3, 3}, {3, 4}, {3, 5}, {2, 4}, {1, 3}, {0, 3}, {3, INT_MAX}, {4, 5}, {5, 6}, {2, INT_MAX}},
		std::vector<Times>{{3, 3}, {3, 4}, {3, 5}, {2, 4}, {1, 3}, {0, 3}, {3, INT_MAX}, {4, 5}, {4, 6}, {5, 5}, {5, 6}, {5, 7}, {6, 7}, {2, INT_MAX}, {1, 5}, {0, 5}});
}

// positions beyond every narrow integer: tens of thousands of optional elements on other mocks, the interesting ones on one mock
template <typename Seq>
static void huge(bool ends)
{
	rec::reset();
	const std::vector<int> at{254, 255, 256, 257, 32766, 32768, 32769, 65534, 65536, 65537};
	const int total = 65540;
	const int first = mc::choose(static_cast<int>(at.size())), second = ends ? 0 : mc::choose(static_cast<int>(at.size()));
	mpp::Mock<void(int)> mock{};
	std::vector<mpp::Mock<void(int)>> others(66);
	std::vector<std::unique_ptr<mpp::ScopedExpectation>> all;
	auto seq = std::make_unique<Seq>();
	for (int i = 0; i < total; ++i)
	{
		const auto it = std::ranges::find(at, i);
		auto& m = it == at.end() ? others[i / 1000] : mock;
		const bool needed = ends && it == at.begin() + first;
		all.push_back(std::make_unique<mpp::ScopedExpectation>(m.expect_call(i) and mpp::expect::times(needed ? 1 : 0, 1) and mpp::expect::in_sequence(*seq), rec::locs()[needed ? 1 : 0]));
	}
	auto call = [&](int k, bool want) {
		bool accepted = true;
		try { mock(at[k]); }
		catch (const rec::Inapplicable&) { accepted = false; }
		catch (const rec::NoMatch&) { accepted = false; }
		mc::check_eq(accepted, want, "a sequence of ", total, " elements: the call for element ", at[k], " after that for ", at[first]);
	};
	if (!ends)
	{
		call(first, true);
		if (!mc::violated()) call(second, second > first);
		if (!mc::violated()) call(static_cast<int>(at.size()) - 1, first != static_cast<int>(at.size()) - 1 && second != static_cast<int>(at.size()) - 1);
		if (!mc::violated()) call(0, false);
	}
	rec::log().events.clear();
	rec::log().throwUnfulfilled = rec::log().throwError = false;
	seq.reset();
	for (auto& e : all) e.reset();
	std::size_t errors = 0;
	for (auto& ev : rec::log().events)
		if (ev.kind == rec::Kind::error)
		{
			++errors;
			std::vector<long> numbers;
			for (std::size_t i = 0; i < ev.text.size(); ++i)
				if (std::isdigit(static_cast<unsigned char>(ev.text[i])))
				{
					std::size_t n = 0;
					numbers.push_back(std::stol(ev.text.substr(i), &n));
					i += n;
				}
			if (ends) mc::check(numbers == std::vector<long>{at[first], total}, "the report of a sequence blocked at element ", at[first], " of ", total, " says: ", ev.text);
		}
	mc::check_eq(errors, ends ? 1u : 0u, "reports of the sequence's end");
}

int main(int argc, char** argv)
{
	using mc::by_tier;
	const int inf = INT_MAX;
	const bool c04 = std::string_view{argc > 2 ? argv[2] : ""} == "C04";
	const bool c06 = std::string_view{argc > 2 ? argv[2] : ""} == "C06";
	std::vector<mc::Scenario> s;
	for (bool g : {false, true})
	{
		const std::string n = g ? "greedy-" : "lazy-";
		const std::vector<bool> seq{g};
		if (c04)
		{
			s.push_back({n + "preset-3", [=] { preset(tags(), {.n = 3, .times = {{1, 1}, {0, 1}, {1, 2}, {0, 2}, {2, 2}, {0, inf}, {0, 0}}, .calls = by_tier(5, 7), .greedy = seq, .attach = {{0}}}); }});
			s.push_back({n + "preset-4", [=] { preset(tags(), {.n = 4, .times = {{1, 1}, {0, 1}, {1, 2}}, .calls = by_tier(6, 8), .greedy = seq, .attach = {{0}}}); }});
			s.push_back({n + "preset-5", [=] { preset(tags(), {.n = 5, .times = {{1, 1}, {0, 2}}, .masks = 1, .args = 1, .calls = by_tier(8, 10), .greedy = seq, .attach = {{0}}}); }});
			s.push_back({n + "preset-5-args", [=] { preset(tags(), {.n = 5, .times = {{1, 1}, {0, 1}}, .masks = 3, .calls = by_tier(5, 7), .greedy = seq, .attach = {{0}}}); }});
			s.push_back({n + "mixed-unsequenced", [=] { preset(tags(), {.n = 4, .times = {{1, 1}, {0, 2}}, .calls = by_tier(5, 7), .greedy = seq, .attach = {{0}, {}}}); }});
			s.push_back({n + "wide-ranges", [=] { preset(tags(), {.n = 2, .times = wide(), .calls = by_tier(7, 9), .greedy = seq, .attach = {{0}}}); }});
			s.push_back({n + "two-mocks", [=] { preset(tags(), {.n = 4, .times = {{1, 1}, {0, 1}, {1, 2}}, .masks = 1, .args = 1, .calls = by_tier(6, 8), .greedy = seq, .attach = {{0}}, .mocks = 2}); }});
		}
		s.push_back({n + "contexts", [=] { histories(tags(), {.depth = by_tier(5, 6), .specs = {{.mask = 1, .seqs = {0}}, {.mask = 3, .min = 0, .max = 2, .seqs = {0}}, {.mask = 2}}, .greedy = seq, .destroySequences = c06, .contexts = true}); }});
		s.push_back({n + "contexts-preset", [=] { preset(tags(), {.n = 2, .times = {{1, 1}, {0, 1}, {1, 2}, {2, 2}}, .calls = by_tier(4, 5), .greedy = seq, .attach = {{0}}, .contexts = true, .chooseEnd = c06}); }});
		s.push_back({n + "many", [=] { many(tags(), {.sizes = by_tier(std::vector{8, 9, 17}, std::vector{8, 9, 10, 16, 17, 33}), .special = {{0, 2}, {2, 2}}, .removeOne = true, .greedy = seq, .attach = {{0}}, .mixedMasks = true}); }});
		s.push_back({n + "many-optional", [=] { many(tags(), {.sizes = by_tier(std::vector{9, 17, 40}, std::vector{8, 9, 10, 16, 17, 33, 65}), .normal = {0, 1}, .special = {{1, 2}}, .greedy = seq, .attach = {{0}}, .mixedMasks = true}); }});
		s.push_back({n + "many-hundreds", [=] { many(tags(), {.sizes = by_tier(std::vector{130, 258}, std::vector{130, 258, 300}), .positions = by_tier(2, 5), .greedy = seq, .attach = {{0}}}); }});
		if (c04 || c06) s.push_back({n + "tens-of-thousands", [=] { g ? huge<mpp::GreedySequence>(c06) : huge<mpp::LazySequence>(c06); }});
		if (c04) s.push_back({n + "hundreds-optional", [=] { many(tags(), {.sizes = by_tier(std::vector{130, 258}, std::vector{130, 258, 300}), .normal = {0, 1}, .special = {{0, 2}}, .positions = by_tier(2, 5), .greedy = seq, .attach = {{0}}}); }});
		if (c04 || c06)
		{
			const std::vector<Spec> specs{{.mask = 1, .seqs = {0}}, {.mask = 3, .seqs = {0}}, {.mask = 3, .min = 0, .max = 1, .seqs = {0}}, {.mask = 3, .min = 1, .max = 2, .seqs = {0}}};
			const std::vector<Spec> mix{{.mask = 3, .seqs = {0}}, {.mask = 1, .min = 0, .max = 2, .seqs = {0}}, {.mask = 2}, {.mask = 3, .min = 0, .max = 1}};
			s.push_back({n + "histories", [=] { histories(tags(), {.depth = by_tier(7, 8), .specs = specs, .greedy = seq, .destroySequences = c06}); }});
			s.push_back({n + "histories-mixed", [=] { histories(tags(), {.depth = by_tier(7, 8), .specs = mix, .greedy = seq, .destroySequences = c06}); }});
			s.push_back({n + "histories-narrow", [=] { histories(tags(), {.depth = by_tier(9, 11), .specs = {{.mask = 1, .seqs = {0}}, {.mask = 1, .min = 0, .max = 2, .seqs = {0}}}, .args = 1, .greedy = seq, .destroySequences = c06, .newestFirst = false}); }});
		}
		if (c06)
		{
			s.push_back({n + "ends-2", [=] { preset(tags(), {.n = 2, .times = {{1, 1}, {0, 1}, {1, 2}, {2, 2}, {2, 3}, {3, 3}, {0, 0}, {0, inf}, {1, inf}}, .calls = by_tier(5, 6), .greedy = seq, .attach = {{0}}, .chooseEnd = true}); }});
			s.push_back({n + "ends-wide", [=] { preset(tags(), {.n = 2, .times = wide(), .masks = 1, .calls = by_tier(8, 10), .greedy = seq, .attach = {{0}}, .chooseEnd = true}); }});
			s.push_back({n + "ends-3", [=] { preset(tags(), {.n = 3, .times = {{1, 1}, {0, 1}, {2, 2}, {0, 0}, {2, inf}}, .calls = by_tier(4, 5), .greedy = seq, .attach = {{0}}, .chooseEnd = true}); }});
			s.push_back({n + "histories-min2", [=] { histories(tags(), {.depth = by_tier(8, 9), .specs = {{.mask = 1, .seqs = {0}}, {.mask = 1, .min = 2, .max = 3, .seqs = {0}}, {.mask = 1, .min = 0, .max = 1, .seqs = {0}}}, .args = 1, .greedy = seq, .destroySequences = true}); }});
		}
		if (!c04 && !c06) // C03
		{
			s.push_back({n + "preset-3", [=] { preset(tags(), {.n = 3, .times = {{1, 1}, {0, 1}, {1, 2}, {0, inf}}, .calls = by_tier(4, 6), .greedy = seq, .attach = {{0}, {}}}); }});
			s.push_back({n + "preset-4", [=] { preset(tags(), {.n = 4, .times = {{1, 1}, {0, 2}}, .calls = by_tier(4, 6), .greedy = seq, .attach = {{0}, {}}}); }});
			s.push_back({n + "histories", [=] { histories(tags(), {.depth = by_tier(6, 8), .specs = {{.mask = 1, .seqs = {0}}, {.mask = 3, .min = 0, .max = 2, .seqs = {0}}, {.mask = 2}}, .greedy = seq}); }});
		}
	}
	return mc::main(argc, argv, std::move(s), 3);
}
