// C23: equality of reports and call descriptions on all pairs of values of products of small domains.
#include "mc.hpp"
#include "mimic++/mimic++.hpp"
#include <bit>
#include <typeindex>
using namespace mimicpp;

namespace
{
	// libstdc++'s source_location is a pointer to this
	struct Raw { const char* file; const char* function; unsigned line, column; };
	static_assert(sizeof(std::source_location) == sizeof(const Raw*));

	struct Loc { std::source_location loc; int key; };
	char fileCopy[] = "a.cpp", functionCopy[] = "int f(int)"; // same text at another address
	const std::vector<Loc>& locs()
	{
		static const std::vector<Loc> all = [] {
			std::vector<Loc> v;
			// what the compiler supplies stays valid for ever, so do these
			const std::pair<const char*, int> files[]{{"a.cpp", 0}, {fileCopy, 0}, {"b.cpp", 1}, {"", 2}}, functions[]{{"int f(int)", 0}, {functionCopy, 0}, {"int f(int) const", 1}, {"", 2}};
			const unsigned numbers[]{0, 1, 2, 0xFFFFFFFF};
			for (auto& f : files) for (auto& g : functions) for (unsigned l : numbers) for (unsigned c : numbers)
			{
				auto* r = new Raw{f.first, g.first, l, c};
				v.push_back({std::bit_cast<std::source_location>(r), f.second * 1000 + g.second * 100 + static_cast<int>(l & 7) * 10 + static_cast<int>(c & 7)});
			}
			return v;
		}();
		return all;
	}
	// a few that differ in exactly one part (0 and 1 are equal)
	const std::vector<Loc>& few()
	{
		static const std::vector<Loc> v = [] {
			std::vector<Loc> r;
			auto add = [&](const char* f, const char* g, unsigned l, unsigned c, int key) { r.push_back({std::bit_cast<std::source_location>(new Raw{f, g, l, c}), key}); };
			add("a.cpp", "int f(int)", 1, 1, 0);
			add(fileCopy, functionCopy, 1, 1, 0);
			add("b.cpp", "int f(int)", 1, 1, 1);
			add("a.cpp", "int f(int) const", 1, 1, 2);
			add("a.cpp", "int f(int)", 2, 1, 3);
			add("a.cpp", "int f(int)", 1, 2, 4);
			return r;
		}();
		return v;
	}

	template <typename T>
	struct Domain
	{
		std::vector<T> values;
		std::vector<std::string> keys; // equal keys: equal contents
		void add(T v, std::string k) { values.push_back(std::move(v)); keys.push_back(std::move(k)); }
		std::size_t size() const { return values.size(); }
	};

	template <typename T>
	void pairs(const char* what, const Domain<T>& d)
	{
		const int n = static_cast<int>(d.size());
		const int blocks = std::min(n, 64);
		const int b = mc::choose(blocks);
		for (int i = b; i < n; i += blocks)
			for (int k = 0; k < n; ++k)
			{
				const T& x = d.values[i];
				const T& y = d.values[k];
				const bool want = d.keys[i] == d.keys[k];
				const bool eq = x == y, ne = x != y, rev = y == x;
				if (eq != want || ne == want || rev != want) [[unlikely]]
				{
					mc::note("left: ", d.keys[i]);
					mc::note("right: ", d.keys[k]);
					mc::fail(what, ": contents ", want ? "agree" : "differ", " but == is ", eq, ", != is ", ne, ", == with swapped operands is ", rev, "; left ", d.keys[i], ", right ", d.keys[k]);
					return;
				}
			}
		mc::E().curChecks += static_cast<std::uint64_t>((n + blocks - 1) / blocks) * n * 3;
		mc::E().curTransitions += static_cast<std::uint64_t>((n + blocks - 1) / blocks) * n;
		// an equal copy stays equal, a moved value equals what it was moved from
		for (int i = b; i < n; i += blocks)
		{
			T copy = d.values[i];
			mc::check(copy == d.values[i], what, ": a copy differs from its original");
			T moved = std::move(copy);
			mc::check(moved == d.values[i], what, ": a moved value differs from its original");
		}
	}

	template <typename T, typename F>
	void all_lists(const std::vector<T>& items, int maxLen, F f, std::vector<T> cur = {}, std::string key = "")
	{
		f(cur, "[" + key + "]");
		if (static_cast<int>(cur.size()) == maxLen) return;
		for (std::size_t i = 0; i < items.size(); ++i)
		{
			auto next = cur;
			next.push_back(items[i]);
			all_lists(items, maxLen, f, next, key + std::to_string(i) + ",");
		}
	}

	void source_locations()
	{
		const auto& l = locs();
		const int i = mc::choose(static_cast<int>(l.size()));
		for (auto& o : l)
		{
			const bool got = is_same_source_location(l[i].loc, o.loc);
			mc::check(got == (l[i].key == o.key), "is_same_source_location: ", got, " for ", l[i].key, " and ", o.key);
			// the same through every type that carries a location
			CallReport a{.returnTypeIndex = typeid(int), .fromLoc = l[i].loc, .fromCategory = ValueCategory::any, .fromConstness = Constness::any};
			CallReport b = a;
			b.fromLoc = o.loc;
			mc::check((a == b) == got, "CallReport ignores its location");
			ExpectationReport x{.sourceLocation = l[i].loc}, y{.sourceLocation = o.loc};
			mc::check((x == y) == got, "ExpectationReport ignores its location");
			MatchReport p{.sourceLocation = l[i].loc}, q{.sourceLocation = o.loc};
			mc::check((p == q) == got, "MatchReport ignores its location");
			call::Info<void> c{.args = {}, .fromCategory = ValueCategory::any, .fromConstness = Constness::any, .fromSourceLocation = l[i].loc};
			call::Info<void> e{.args = {}, .fromCategory = ValueCategory::any, .fromConstness = Constness::any, .fromSourceLocation = o.loc};
			mc::check((c == e) == got, "call::Info ignores its location");
		}
	}

	const std::pair<ValueCategory, const char*> cats[]{{ValueCategory::any, "any"}, {ValueCategory::lvalue, "lvalue"}, {ValueCategory::rvalue, "rvalue"}};
	const std::pair<Constness, const char*> consts[]{{Constness::any, "any"}, {Constness::as_const, "const"}, {Constness::non_const, "mutable"}};

	void call_reports()
	{
		static const auto d = [] {
			Domain<CallReport> r;
			const std::pair<std::type_index, const char*> rets[]{{typeid(int), "int"}, {typeid(void), "void"}};
			const std::vector<CallReport::Arg> args{{typeid(int), "1"}, {typeid(int), "2"}, {typeid(long), "1"}, {typeid(int), ""}};
			for (auto& ret : rets)
				all_lists(args, mc::by_tier(2, 3), [&](const auto& list, const std::string& lk) {
					for (int l = 0; l < 3; ++l)
						for (auto& c : cats)
							for (auto& k : consts)
								r.add(CallReport{.returnTypeIndex = ret.first, .argDetails = list, .fromLoc = few()[l].loc, .fromCategory = c.first, .fromConstness = k.first},
									std::string{ret.second} + lk + "@" + std::to_string(few()[l].key) + c.second + k.second);
				});
			return r;
		}();
		pairs("CallReport", d);
	}
	void call_report_arguments()
	{
		static const auto d = [] {
			Domain<CallReport::Arg> r;
			const std::pair<std::type_index, const char*> types[]{{typeid(int), "int"}, {typeid(long), "long"}, {typeid(unsigned), "unsigned"}, {typeid(std::string), "string"}};
			for (auto& t : types) for (auto* s : {"", "1", "2", "11", "{?}"}) r.add({t.first, s}, std::string{t.second} + ":" + s);
			r.add({typeid(int), std::string{"1\0", 2}}, "int:1 and NUL");
			r.add({typeid(int), std::string{"1\0" "2", 3}}, "int:1, NUL and 2");
			return r;
		}();
		pairs("CallReport::Arg", d);
	}

	std::vector<std::pair<std::optional<StringT>, std::string>> texts()
	{
		return {{std::nullopt, "-"}, {StringT{}, "''"}, {StringT{"a"}, "'a'"}, {StringT{"b"}, "'b'"}};
	}
	void expectation_reports()
	{
		static const auto d = [] {
			Domain<ExpectationReport> r;
			std::vector<std::optional<StringT>> items;
			for (auto& t : texts()) items.push_back(t.first);
			for (int l = -1; l < 3; ++l)
				for (auto& f : texts())
					for (auto& t : texts())
						all_lists(items, mc::by_tier(2, 3), [&](const auto& list, const std::string& lk) {
							r.add(ExpectationReport{.sourceLocation = l < 0 ? std::nullopt : std::optional{few()[l].loc}, .finalizerDescription = f.first, .timesDescription = t.first, .expectationDescriptions = list},
								(l < 0 ? std::string{"nowhere"} : "@" + std::to_string(few()[l].key)) + " finally " + f.second + " times " + t.second + lk);
						});
			return r;
		}();
		pairs("ExpectationReport", d);
	}

	const Domain<control_state_t>& control_states(bool full)
	{
		auto make = [](bool full) {
			Domain<control_state_t> r;
			const sequence::Tag tags[]{sequence::Tag{1}, sequence::Tag{2}};
			const std::vector<sequence::rating> ratings{{0, tags[0]}, {1, tags[0]}, {0, tags[1]}};
			const std::vector<sequence::Tag> tagItems{tags[0], tags[1]};
			const int maxLen = full ? 2 : 1;
			for (int min : {0, 1})
				for (int max : {1, INT_MAX})
					for (int count : {0, 1})
					{
						const std::string n = std::to_string(min) + "," + std::to_string(max) + "," + std::to_string(count);
						all_lists(ratings, maxLen, [&](const auto& l, const std::string& lk) {
							r.add(state_applicable{min, max, count, l}, "applicable " + n + lk);
							all_lists(tagItems, maxLen, [&](const auto& t, const std::string& tk) { r.add(state_inapplicable{min, max, count, l, t}, "inapplicable " + n + lk + tk); });
						});
						all_lists(tagItems, maxLen, [&](const auto& t, const std::string& tk) { r.add(state_saturated{min, max, count, t}, "saturated " + n + tk); });
					}
			return r;
		};
		static const auto small = make(false), large = make(true);
		return full ? large : small;
	}
	void states() { pairs("control state", control_states(true)); }

	void match_reports()
	{
		static const auto d = [] {
			Domain<MatchReport> r;
			const std::vector<MatchReport::Expectation> items{{true, std::nullopt}, {false, std::nullopt}, {true, "a"}, {false, "a"}, {true, "b"}};
			const auto& cs = control_states(false);
			for (int l = -1; l < 3; ++l)
				for (auto& f : texts())
					for (std::size_t s = 0; s < cs.size(); s += mc::by_tier(2, 1))
						all_lists(items, 1, [&](const auto& list, const std::string& lk) {
							r.add(MatchReport{.sourceLocation = l < 0 ? std::nullopt : std::optional{few()[l].loc}, .finalizeReport = {f.first}, .controlReport = cs.values[s], .expectationReports = list},
								(l < 0 ? std::string{"nowhere"} : "@" + std::to_string(few()[l].key)) + " finally " + f.second + " " + cs.keys[s] + lk);
						});
			return r;
		}();
		pairs("MatchReport", d);
	}
	void match_reports_requirements()
	{
		static const auto d = [] {
			Domain<MatchReport> r;
			std::vector<MatchReport::Expectation> items;
			for (auto& t : texts()) { items.push_back({true, t.first}); items.push_back({false, t.first}); }
			for (int l : {-1, 0})
				for (int c : {0, 1})
					all_lists(items, mc::by_tier(3, 4), [&](const auto& list, const std::string& lk) {
						r.add(MatchReport{.sourceLocation = l < 0 ? std::nullopt : std::optional{few()[l].loc}, .controlReport = state_applicable{0, 1, c, {}}, .expectationReports = list},
							std::to_string(l) + " count " + std::to_string(c) + lk);
					});
			return r;
		}();
		pairs("MatchReport", d);
	}
	// all six locations against each other inside complete reports
	void locations_in_reports()
	{
		static const auto d = [] {
			Domain<MatchReport> r;
			for (auto& l : few()) for (int c : {0, 1}) r.add(MatchReport{.sourceLocation = l.loc, .controlReport = state_saturated{0, 1, c, {}}}, std::to_string(l.key) + "/" + std::to_string(c));
			return r;
		}();
		if (mc::choose_bool()) return pairs("MatchReport", d);
		static const auto e = [] {
			Domain<ExpectationReport> r;
			for (auto& l : few()) for (auto& t : texts()) r.add(ExpectationReport{.sourceLocation = l.loc, .timesDescription = t.first}, std::to_string(l.key) + "/" + t.second);
			return r;
		}();
		pairs("ExpectationReport", e);
	}

	// parts that differ late, far away or in a single bit
	template <int> struct Numbered { };
	struct AlikeA { struct Inner { }; };
	struct AlikeB { struct Inner { }; };
	const std::vector<std::type_index>& alike_types()
	{
		static const std::vector<std::type_index> v{
			typeid(int), typeid(unsigned), typeid(int*), typeid(const int*), typeid(int**), typeid(int[2]), typeid(int[3]), typeid(int()), typeid(int(int)), typeid(int (*)(int)), typeid(int (&)(int)) == typeid(int(int)) ? typeid(int(long)) : typeid(void),
			typeid(std::vector<int>), typeid(std::vector<long>), typeid(std::vector<unsigned>), typeid(std::string), typeid(std::wstring), typeid(std::u8string), typeid(std::string_view),
			typeid(Numbered<1>), typeid(Numbered<2>), typeid(Numbered<11>), typeid(AlikeA), typeid(AlikeB), typeid(AlikeA::Inner), typeid(AlikeB::Inner),
			typeid(std::pair<int, long>), typeid(std::pair<long, int>), typeid(std::tuple<>), typeid(std::tuple<int>), typeid(std::tuple<int, int>), typeid(std::nullptr_t), typeid(char), typeid(signed char), typeid(unsigned char), typeid(wchar_t), typeid(long long), typeid(long), typeid(float), typeid(double), typeid(long double)};
		return v;
	}
	std::vector<std::string> alike_texts()
	{
		std::vector<std::string> v;
		for (int n : {15, 16, 17, 64, 255, 256, 257, 1024})
		{
			const std::string base(static_cast<std::size_t>(n), 'x');
			v.push_back(base);
			for (std::size_t at : {std::size_t{0}, base.size() / 2, base.size() - 1}) { auto c = base; c[at] = 'y'; v.push_back(c); c[at] = '\0'; v.push_back(c); c[at] = 'X'; v.push_back(c); }
		}
		return v;
	}
	void alike()
	{
		switch (mc::choose(6))
		{
		case 0: {
			static const auto d = [] {
				Domain<CallReport> r;
				int n = 0;
				auto report = [](std::type_index ret, std::vector<CallReport::Arg> args) { return CallReport{.returnTypeIndex = ret, .argDetails = std::move(args), .fromLoc = few()[0].loc, .fromCategory = ValueCategory::any, .fromConstness = Constness::any}; };
				for (auto& t : alike_types()) r.add(report(t, {}), std::string{"returns "} + t.name());
				for (auto& t : alike_types()) r.add(report(typeid(void), {{t, "1"}}), std::string{"takes "} + t.name());
				for (auto& t : alike_types()) r.add(report(typeid(void), {{typeid(int), "1"}, {t, "1"}}), std::string{"takes int and "} + t.name());
				for (auto& t : alike_texts()) r.add(report(typeid(void), {{typeid(char), t}}), "text " + std::to_string(n++));
				// the same parts on other places
				r.add(report(typeid(void), {{typeid(char), "a"}, {typeid(char), "b"}}), "a,b");
				r.add(report(typeid(void), {{typeid(char), "b"}, {typeid(char), "a"}}), "b,a");
				r.add(report(typeid(void), {{typeid(char), "ab"}, {typeid(char), ""}}), "ab,");
				r.add(report(typeid(void), {{typeid(char), ""}, {typeid(char), "ab"}}), ",ab");
				for (int len = 3; len < 42; ++len)
				{
					std::vector<CallReport::Arg> args(static_cast<std::size_t>(len), CallReport::Arg{typeid(int), "1"});
					r.add(report(typeid(void), args), "list " + std::to_string(len));
					for (int at = 0; at < len; at += 3) { auto c = args; c[at].stateString = "2"; r.add(report(typeid(void), c), "list " + std::to_string(len) + " differs at " + std::to_string(at)); }
				}
				return r;
			}();
			return pairs("CallReport", d);
		}
		case 1: {
			static const auto d = [] {
				Domain<control_state_t> r;
				const int numbers[]{INT_MIN, -65536, -256, -1, 0, 1, 2, 127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 1 << 24, INT_MAX - 1, INT_MAX};
				for (int i = 0; i < 3; ++i)
					for (int n : numbers)
					{
						if (n == 0 && i) continue; // (0, 0, 0) is there already
						const int min = i == 0 ? n : 0, max = i == 1 ? n : 0, count = i == 2 ? n : 0;
						const std::string k = std::to_string(min) + "," + std::to_string(max) + "," + std::to_string(count);
						r.add(state_applicable{min, max, count, {}}, "applicable " + k);
						r.add(state_inapplicable{min, max, count, {}, {}}, "inapplicable " + k);
						r.add(state_saturated{min, max, count, {}}, "saturated " + k);
					}
				for (int n : numbers)
				{
					if (n == 0) continue;
					const std::string k = std::to_string(n);
					for (int part = 0; part < 2; ++part)
					{
						const sequence::rating rating{part ? 5 : n, sequence::Tag{part ? n : 5}};
						if (part == 1 || n != 5) r.add(state_applicable{0, 0, 0, {rating}}, "applicable rating " + std::to_string(part) + k);
						r.add(state_inapplicable{0, 0, 0, {rating}, {}}, "inapplicable rating " + std::to_string(part) + k);
					}
					r.add(state_inapplicable{0, 0, 0, {}, {sequence::Tag{n}}}, "inapplicable tag " + k);
					r.add(state_saturated{0, 0, 0, {sequence::Tag{n}}}, "saturated tag " + k);
				}
				for (int len = 2; len < 22; ++len)
				{
					std::vector<sequence::Tag> tags(static_cast<std::size_t>(len), sequence::Tag{7});
					for (int at = 0; at < len; ++at)
					{
						auto c = tags;
						c[at] = sequence::Tag{8};
						const auto k = std::to_string(len) + " at " + std::to_string(at);
						r.add(state_saturated{0, 0, 0, c}, "saturated tags " + k);
						r.add(state_inapplicable{0, 0, 0, {}, c}, "inapplicable tags " + k);
						std::vector<sequence::rating> q(static_cast<std::size_t>(len), sequence::rating{1, sequence::Tag{1}});
						q[at].tag = sequence::Tag{2};
						r.add(state_applicable{0, 0, 0, q}, "applicable ratings " + k);
						q[at].tag = sequence::Tag{1};
						q[at].priority = 2;
						r.add(state_applicable{0, 0, 0, q}, "applicable priorities " + k);
					}
				}
				return r;
			}();
			return pairs("control state", d);
		}
		case 2: {
			static const auto d = [] {
				Domain<ExpectationReport> r;
				int n = 0;
				for (auto& t : alike_texts())
				{
					const auto k = std::to_string(n++);
					r.add(ExpectationReport{.finalizerDescription = t}, "finally " + k);
					r.add(ExpectationReport{.timesDescription = t}, "times " + k);
					r.add(ExpectationReport{.expectationDescriptions = {t}}, "requirement " + k);
				}
				return r;
			}();
			return pairs("ExpectationReport", d);
		}
		case 3: {
			static const auto d = [] {
				Domain<ExpectationReport> r;
				for (int len = 3; len < 42; ++len)
				{
					std::vector<std::optional<StringT>> list(static_cast<std::size_t>(len), StringT{"a"});
					r.add(ExpectationReport{.expectationDescriptions = list}, "list " + std::to_string(len));
					for (int at = 0; at < len; at += 3)
					{
						auto c = list;
						c[at] = "b";
						r.add(ExpectationReport{.expectationDescriptions = c}, "list " + std::to_string(len) + " differs at " + std::to_string(at));
						c[at] = std::nullopt;
						r.add(ExpectationReport{.expectationDescriptions = c}, "list " + std::to_string(len) + " lacks " + std::to_string(at));
					}
				}
				return r;
			}();
			return pairs("ExpectationReport", d);
		}
		case 4: {
			static const auto d = [] {
				Domain<MatchReport> r;
				int n = 0;
				const control_state_t cs = state_saturated{0, 1, 0, {}};
				for (auto& t : alike_texts())
				{
					const auto k = std::to_string(n++);
					r.add(MatchReport{.finalizeReport = {t}, .controlReport = cs}, "finally " + k);
					r.add(MatchReport{.controlReport = cs, .expectationReports = {{true, t}}}, "requirement " + k);
					r.add(MatchReport{.controlReport = cs, .expectationReports = {{false, t}}}, "failed requirement " + k);
				}
				return r;
			}();
			return pairs("MatchReport", d);
		}
		default: {
			static const auto d = [] {
				Domain<MatchReport> r;
				for (int len = 3; len < 42; ++len)
				{
					std::vector<MatchReport::Expectation> list(static_cast<std::size_t>(len), MatchReport::Expectation{true, "a"});
					auto add = [&](const std::vector<MatchReport::Expectation>& l, const std::string& k) { r.add(MatchReport{.controlReport = state_saturated{0, 1, 0, {}}, .expectationReports = l}, std::to_string(len) + k); };
					add(list, "");
					for (int at = 0; at < len; at += 4)
					{
						auto c = list;
						c[at].isMatching = false;
						add(c, " fails " + std::to_string(at));
						c[at].isMatching = true;
						c[at].description = "b";
						add(c, " differs at " + std::to_string(at));
					}
				}
				return r;
			}();
			return pairs("MatchReport", d);
		}
		}
	}

	// arguments of a call are the same only if they are the same objects
	struct X { int v; bool operator==(const X& o) const { return v == o.v; } };
	void infos()
	{
		static int ints[3]{1, 1, 2};
		static const X xs[3]{{1}, {1}, {2}};
		static std::string strs[2]{"s", "s"};
		using Info = call::Info<int, int&, const X&, std::string>;
		static const auto d = [] {
			Domain<Info> r;
			for (int i = 0; i < 3; ++i) for (int x = 0; x < 3; ++x) for (int s = 0; s < 2; ++s)
				for (auto& c : cats) for (auto& k : consts) for (int l = 0; l < 3; ++l)
					r.add(Info{.args = {ints[i], xs[x], strs[s]}, .fromCategory = c.first, .fromConstness = k.first, .fromSourceLocation = few()[l].loc},
						"(" + std::to_string(i) + std::to_string(x) + std::to_string(s) + ")" + c.second + k.second + "@" + std::to_string(few()[l].key));
			return r;
		}();
		const int which = mc::choose(3);
		if (which == 0) return pairs("call::Info", d);
		using One = call::Info<void, int>;
		static const auto e = [] {
			Domain<One> r;
			for (int i = 0; i < 3; ++i) for (auto& c : cats) for (auto& l : few()) r.add(One{.args = {ints[i]}, .fromCategory = c.first, .fromConstness = Constness::any, .fromSourceLocation = l.loc}, std::to_string(i) + c.second + std::to_string(l.key));
			return r;
		}();
		if (which == 1) return pairs("call::Info", e);
		using Same = call::Info<void, int&, int&, int&, int&>;
		static const auto g = [] {
			Domain<Same> r;
			for (int i = 0; i < 81; ++i) r.add(Same{.args = {ints[i % 3], ints[i / 3 % 3], ints[i / 9 % 3], ints[i / 27]}, .fromCategory = ValueCategory::any, .fromConstness = Constness::any, .fromSourceLocation = few()[0].loc}, std::to_string(i));
			return r;
		}();
		pairs("call::Info", g);
	}
}

int main(int argc, char** argv)
{
	return mc::main(argc, argv, {
		{"source-locations", source_locations},
		{"call-arguments", call_report_arguments},
		{"call-reports", call_reports},
		{"expectation-reports", expectation_reports},
		{"control-states", states},
		{"match-reports", match_reports},
		{"match-reports-requirements", match_reports_requirements},
		{"locations-in-reports", locations_in_reports},
		{"call-infos", infos},
		{"alike", alike},
	}, 1);
}
