// C01 / C02 / C03: all histories of create / call / remove without sequences.
#include "histories.hpp"
using namespace core;

static unsigned tags()
{
	const auto& p = mc::E().prop;
	if (p == "C01") return SELECT | COUNT | EFFECTS;
	if (p == "C02") return COUNT | UNFULFILLED | SELECT;
	return REPORT;
}

int main(int argc, char** argv)
{
	const int inf = INT_MAX;
	const std::vector<Spec> small{{.mask = 1}, {.mask = 3}, {.mask = 3, .min = 0, .max = 2}, {.mask = 2, .min = 2, .max = 2}};
	const std::vector<Spec> wide{{.mask = 1}, {.mask = 2}, {.mask = 3}, {.mask = 3, .min = 0, .max = 1}, {.mask = 1, .min = 0, .max = inf}, {.mask = 3, .min = 2, .max = 3}, {.mask = 3, .min = 0, .max = 0}};
	const std::vector<Spec> two{{.mock = 0, .mask = 3}, {.mock = 1, .mask = 3, .min = 1, .max = 2}};
	const std::vector<Spec> one{{.mask = 1, .min = 1, .max = 2}};
	const std::vector<Times> times{{1, 1}, {0, 1}, {2, 2}, {1, 2}, {0, inf}};
	const std::vector<Times> manyTimes{{1, 1}, {0, 1}, {2, 2}, {1, 2}, {0, inf}, {0, 0}, {1, 3}, {2, inf}};
	using mc::by_tier;
	return mc::main(argc, argv, {
		{"histories-small", [=] { histories(tags(), {.depth = by_tier(7, 9), .specs = small}); }},
		{"histories-wide", [=] { histories(tags(), {.depth = by_tier(6, 7), .specs = wide}); }},
		{"histories-two-mocks", [=] { histories(tags(), {.depth = by_tier(8, 9), .specs = two, .mocks = 2, .args = 1}); }},
		{"histories-one-spec", [=] { histories(tags(), {.depth = by_tier(10, 11), .specs = one, .args = 1, .maxLive = 4, .newestFirst = false}); }},
		{"preset-2", [=] { preset(tags(), {.n = 2, .times = manyTimes, .calls = by_tier(7, 8)}); }},
		{"preset-3", [=] { preset(tags(), {.n = 3, .times = times, .calls = by_tier(6, 8)}); }},
		{"preset-3-args", [=] { preset(tags(), {.n = 3, .times = {{1, 1}, {0, 2}}, .masks = 7, .args = 3, .calls = by_tier(4, 6)}); }},
		{"preset-4", [=] { preset(tags(), {.n = 4, .times = {{1, 1}, {0, 2}}, .calls = by_tier(6, 8)}); }},
		{"one-location", [=] { histories(tags(), {.depth = by_tier(6, 8), .specs = small, .locMod = 1}); }},
		{"two-locations", [=] { histories(tags(), {.depth = by_tier(7, 8), .specs = two, .mocks = 2, .args = 1, .locMod = 2}); }},
		{"contexts", [=] { histories(tags(), {.depth = by_tier(5, 6), .specs = small, .contexts = true}); }},
		{"contexts-preset", [=] { preset(tags(), {.n = 2, .times = times, .calls = by_tier(4, 5), .contexts = true}); }},
		{"many", [=] { many(tags(), {.sizes = by_tier(std::vector{9, 17, 24}, std::vector{8, 9, 16, 17, 20, 33, 40, 65}), .removeOne = true}); }},
		{"many-args", [=] { many(tags(), {.sizes = by_tier(std::vector{12, 34}, std::vector{12, 34, 66}), .special = {{0, 2}, {2, 2}, {0, inf}}, .mixedMasks = true}); }},
		{"many-hundred", [=] { many(tags(), {.sizes = by_tier(std::vector{130}, std::vector{130, 258, 300}), .positions = 3}); }},
		{"many-calls", [=] { many(tags(), {.sizes = {1, 2}, .normal = {150, 199}, .special = {{257, 300}, {0, inf}}}); }},
		{"preset-5", [=] { preset(tags(), {.n = 5, .times = {{1, 1}, {1, 2}}, .calls = by_tier(5, 8)}); }},
	}, 3);
}
