// C05 / C06 / C03: several sequences.
#define CORE_MAX_SEQS 3
#include "histories.hpp"
using namespace core;

static unsigned tags()
{
	const auto& p = mc::E().prop;
	if (p == "C05") return SELECT | COUNT | EFFECTS;
	if (p == "C06") return SEQERR | SELECT;
	return REPORT;
}

static const std::vector<std::vector<int>> sub2{{0}, {1}, {0, 1}, {1, 0}};
static const std::vector<std::vector<int>> sub2u{{}, {0}, {1}, {0, 1}};
static const std::vector<std::vector<int>> sub3{{0}, {1}, {2}, {0, 1}, {0, 2}, {1, 2}, {0, 1, 2}};


static void duplicate_attach()
{
	const bool g0 = mc::choose_bool(), g1 = mc::choose_bool();
	World w{tags(), 1, {g0, g1}};
	const Spec first{.mask = 3, .min = mc::choose(2), .max = 2, .seqs = {mc::choose(2)}};
	const Spec second{.mask = 3, .min = 1, .max = 1, .seqs = {0, 1}};
	const int at = mc::choose(3); // when the refused attachment is attempted
	auto attempt = [&] {
		const int form = mc::choose(8);
		mc::note("attempt duplicate attachment, form ", form);
		bool refused = false;
		auto before = rec::log().events.size();
		std::visit([&](auto& a, auto& b) {
			namespace e = mimicpp::expect;
			auto mk = [&] { return w.mocks[0].expect_call(mimicpp::matches::_) and mimicpp::finally::returns(0); };
			try
			{
				switch (form)
				{
				case 0: { auto x = mk() and e::in_sequences(*a, *a); mimicpp::ScopedExpectation s{std::move(x)}; break; }
				case 1: { auto x = mk() and e::in_sequence(*a) and e::in_sequence(*a); mimicpp::ScopedExpectation s{std::move(x)}; break; }
				case 2: { auto x = mk() and e::in_sequences(*a, *b, *a); mimicpp::ScopedExpectation s{std::move(x)}; break; }
				case 3: { auto x = mk() and e::in_sequences(*a, *b) and e::in_sequence(*b); mimicpp::ScopedExpectation s{std::move(x)}; break; }
				case 4: { auto x = mk() and e::in_sequence(*b) and e::in_sequences(*a, *b); mimicpp::ScopedExpectation s{std::move(x)}; break; }
				case 5: { auto x = mk() and e::in_sequence(*b) and e::times(1, 2) and e::in_sequence(*b); mimicpp::ScopedExpectation s{std::move(x)}; break; }
				case 6: { auto x = mk() and e::in_sequences(*b, *b, *a); mimicpp::ScopedExpectation s{std::move(x)}; break; }
				case 7: { auto x = mk() and e::in_sequence(*a) and e::in_sequence(*b) and e::in_sequence(*a); mimicpp::ScopedExpectation s{std::move(x)}; break; }
				}
			}
			catch (const std::invalid_argument&) { refused = true; }
		}, w.seqs[0], w.seqs[1]);
		mc::check(refused, "attaching one expectation twice to the same sequence was not refused with std::invalid_argument (form ", form, ")");
		mc::check(rec::log().events.size() == before, "a refused attachment issued reports");
	};
	if (at == 0) attempt();
	w.create(first);
	if (at == 1) attempt();
	w.create(second);
	if (at == 2) attempt();
	for (int i = 0; i < 4 && !w.stop(); ++i) w.call(0, mc::choose(2));
	w.finish();
	w.tags |= SEQERR; // the number of sequence elements must not have changed either
	for (int q = 0; q < 2 && !w.stop(); ++q) w.destroy_sequence(q);
}

// up to five attachments out of five sequences, in one step, one by one, or in two steps
static void duplicate_many()
{
	using namespace mimicpp;
	namespace e = mimicpp::expect;
	rec::reset();
	auto* q = new LazySequence[5]; // leaked: their end is not of interest
	const int k = 2 + mc::choose(4), form = mc::choose(3);
	int i[5]{};
	unsigned set = 0;
	bool distinct = true;
	for (int j = 0; j < k; ++j) { i[j] = mc::choose(5); if (set >> i[j] & 1) distinct = false; set |= 1u << i[j]; }
	mc::note("attach to ", k, " sequences ", i[0], i[1], i[2], i[3], i[4], " form ", form);
	Mock<int(int)> m{};
	const int blocked = mc::choose(5);
	auto* blocker = new ScopedExpectation{m.expect_call(1) and e::in_sequence(q[blocked]) and finally::returns(7)};
	ScopedExpectation* x = nullptr;
	bool refused = false;
	auto b = [&] { return m.expect_call(2) and finally::returns(8); };
	try
	{
		switch (k * 3 + form)
		{
		case 6: x = new ScopedExpectation{b() and e::in_sequences(q[i[0]], q[i[1]])}; break;
		case 7: case 8: x = new ScopedExpectation{b() and e::in_sequence(q[i[0]]) and e::in_sequence(q[i[1]])}; break;
		case 9: x = new ScopedExpectation{b() and e::in_sequences(q[i[0]], q[i[1]], q[i[2]])}; break;
		case 10: x = new ScopedExpectation{b() and e::in_sequence(q[i[0]]) and e::in_sequence(q[i[1]]) and e::in_sequence(q[i[2]])}; break;
		case 11: x = new ScopedExpectation{b() and e::in_sequences(q[i[0]], q[i[1]]) and e::in_sequence(q[i[2]])}; break;
		case 12: x = new ScopedExpectation{b() and e::in_sequences(q[i[0]], q[i[1]], q[i[2]], q[i[3]])}; break;
		case 13: x = new ScopedExpectation{b() and e::in_sequence(q[i[0]]) and e::in_sequence(q[i[1]]) and e::in_sequence(q[i[2]]) and e::in_sequence(q[i[3]])}; break;
		case 14: x = new ScopedExpectation{b() and e::in_sequences(q[i[0]], q[i[1]]) and e::in_sequences(q[i[2]], q[i[3]])}; break;
		case 15: x = new ScopedExpectation{b() and e::in_sequences(q[i[0]], q[i[1]], q[i[2]], q[i[3]], q[i[4]])}; break;
		case 16: x = new ScopedExpectation{b() and e::in_sequence(q[i[0]]) and e::in_sequence(q[i[1]]) and e::in_sequence(q[i[2]]) and e::in_sequence(q[i[3]]) and e::in_sequence(q[i[4]])}; break;
		case 17: x = new ScopedExpectation{b() and e::in_sequence(q[i[0]]) and e::in_sequences(q[i[1]], q[i[2]], q[i[3]], q[i[4]])}; break;
		}
	}
	catch (const std::invalid_argument&) { refused = true; }
	mc::check(refused == !distinct, "attaching ", k, " times: duplicates ", !distinct, ", refused ", refused);
	if (refused) return;
	auto works = [&] { try { m(2); return true; } catch (const rec::Inapplicable&) { return false; } catch (const rec::NoMatch&) { return false; } };
	const bool turn = !(set >> blocked & 1);
	mc::check_eq(works(), turn, "the call needs its turn in all of its sequences");
	if (!turn)
	{
		mc::check_eq(m(1), 7, "the element before it");
		mc::check(works(), "the call does not match although it is its turn in all of its sequences");
	}
	// whatever comes later in any of them has to wait for it, and is free to match now
	for (int j = 0; j < 5; ++j)
	{
		auto* y = new ScopedExpectation{m.expect_call(3) and e::in_sequence(q[j]) and finally::returns(9)};
		bool ok = true;
		try { m(3); } catch (const rec::Inapplicable&) { ok = false; } catch (const rec::NoMatch&) { ok = false; }
		mc::check_eq(ok, (set >> j & 1) || j != blocked || !turn, "a later element of sequence ", j);
		(void)y;
	}
}

int main(int argc, char** argv)
{
	using mc::by_tier;
	const std::string_view prop{argc > 2 ? argv[2] : ""};
	std::vector<mc::Scenario> s;
	if (prop == "C05")
	{
		for (int g = 0; g < 4; ++g)
		{
			const std::vector<bool> seq{(g & 1) != 0, (g & 2) != 0};
			const std::string n = std::string{seq[0] ? "G" : "Z"} + (seq[1] ? "G" : "Z") + "-";
			s.push_back({n + "preset-3", [=] { preset(tags(), {.n = 3, .times = {{1, 1}, {0, 1}, {1, 2}}, .calls = by_tier(4, 6), .greedy = seq, .attach = sub2u}); }});
			s.push_back({n + "wide-ranges", [=] { preset(tags(), {.n = 2, .times = {{3, 3}, {3, 4}, {2, 4}, {1, 3}, {0, 3}, {3, INT_MAX}}, .masks = by_tier(2, 3), .calls = by_tier(6, 8), .greedy = seq, .attach = sub2}); }});
			s.push_back({n + "contexts", [=] { preset(tags(), {.n = 2, .times = {{1, 1}, {0, 1}, {1, 2}}, .masks = by_tier(1, 3), .calls = by_tier(4, 4), .greedy = seq, .attach = sub2u, .contexts = true}); }});
			s.push_back({n + "preset-4", [=] { preset(tags(), {.n = 4, .times = {{1, 1}, {0, 1}, {0, 2}}, .masks = 1, .args = 1, .calls = by_tier(6, 8), .greedy = seq, .attach = sub2}); }});
			s.push_back({n + "preset-5", [=] { preset(tags(), {.n = 5, .times = {{0, 1}}, .masks = 1, .args = 1, .calls = 5, .greedy = seq, .attach = sub2u}); }});
			s.push_back({n + "histories", [=] {
				histories(tags(), {.depth = by_tier(6, 8), .specs = {{.mask = 1, .seqs = {0, 1}, .split = true}, {.mask = 3, .min = 0, .max = 2, .seqs = {1, 0}}, {.mask = 3, .seqs = {0}}, {.mask = 3, .min = 0, .max = 1, .seqs = {1}}}, .greedy = seq}); }});
		}
		for (int g = 0; g < 8; ++g)
		{
			const std::vector<bool> seq{(g & 1) != 0, (g & 2) != 0, (g & 4) != 0};
			const std::string n = std::string{seq[0] ? "G" : "Z"} + (seq[1] ? "G" : "Z") + (seq[2] ? "G" : "Z") + "-";
			s.push_back({n + "preset-3", [=] { preset(tags(), {.n = 3, .times = {{1, 1}, {0, 1}}, .masks = by_tier(1, 3), .args = by_tier(1, 2), .calls = by_tier(4, 5), .greedy = seq, .attach = sub3}); }});
			s.push_back({n + "preset-4", [=] { preset(tags(), {.n = 4, .times = {{0, 1}, {1, 1}}, .masks = 1, .args = 1, .calls = 4, .greedy = seq, .attach = sub3}); }});
		}
		for (int g = 0; g < 4; ++g)
		{
			const std::vector<bool> seq{(g & 1) != 0, (g & 2) != 0};
			const std::string n = std::string{seq[0] ? "G" : "Z"} + (seq[1] ? "G" : "Z") + "-";
			s.push_back({n + "many", [=] { many(tags(), {.sizes = by_tier(std::vector{9, 17}, std::vector{8, 9, 10, 16, 17, 33}), .normal = {0, 1}, .special = {{1, 2}}, .greedy = seq, .attach = {{0, 1}, {1, 0}}, .mixedMasks = true}); }});
			s.push_back({n + "many-required", [=] { many(tags(), {.sizes = by_tier(std::vector{12}, std::vector{8, 9, 10, 16, 17, 33}), .special = {{0, 2}, {2, 3}}, .removeOne = true, .greedy = seq, .attach = {{0, 1}}}); }});
		}
		s.push_back({"duplicate-attachment", duplicate_attach});
		s.push_back({"duplicate-many", duplicate_many});
	}
	else if (prop == "C06")
	{
		for (int g = 0; g < 4; ++g)
		{
			const std::vector<bool> seq{(g & 1) != 0, (g & 2) != 0};
			const std::string n = std::string{seq[0] ? "G" : "Z"} + (seq[1] ? "G" : "Z") + "-";
			s.push_back({n + "histories", [=] {
				histories(tags(), {.depth = by_tier(6, 8), .specs = {{.mask = 1, .seqs = {0, 1}}, {.mask = 1, .min = 0, .max = 2, .seqs = {1}}, {.mask = 1, .seqs = {0}}}, .args = 1, .greedy = seq, .destroySequences = true}); }});
		}
	}
	else
	{
		for (int g = 0; g < 4; ++g)
		{
			const std::vector<bool> seq{(g & 1) != 0, (g & 2) != 0};
			const std::string n = std::string{seq[0] ? "G" : "Z"} + (seq[1] ? "G" : "Z") + "-";
			s.push_back({n + "preset-3", [=] { preset(tags(), {.n = 3, .times = {{1, 1}, {0, 1}}, .calls = by_tier(4, 5), .greedy = seq, .attach = sub2u}); }});
		}
	}
	return mc::main(argc, argv, std::move(s), 3);
}
