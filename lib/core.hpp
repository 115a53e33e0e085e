// Reference model of expectations, times and sequences, run in lock-step with the real library.
#pragma once
#ifndef CORE_MAX_SEQS
#define CORE_MAX_SEQS 0
#endif
#include "mc.hpp"
#include "rec.hpp"
#include "ctx.hpp"
#include <climits>
#include <memory>
#include <set>
#include <variant>

namespace core
{
	namespace mpp = mimicpp;

	enum Tag : unsigned
	{
		SELECT = 1,      // which expectation answers / acceptance
		COUNT = 2,       // is_satisfied of every live expectation
		REPORT = 4,      // reports of calls
		UNFULFILLED = 8, // reports of removals
		SEQERR = 16,     // reports of incomplete sequences
		EFFECTS = 32     // exactly the chosen expectation's side effect runs
	};

	struct Spec
	{
		int mock{};
		int mask{};           // accepted argument values (bit set)
		int min{1}, max{1};
		std::vector<int> seqs{};
		bool split{};         // attach the sequences one by one instead of all at once
		std::string text() const
		{
			std::string s = "m" + std::to_string(mock) + " accepts{";
			for (int a = 0; a < 4; ++a) if (mask >> a & 1) s += std::to_string(a);
			s += "} times(" + std::to_string(min) + "," + (max == INT_MAX ? std::string{"max"} : std::to_string(max)) + ")";
			for (int q : seqs) s += " in S" + std::to_string(q);
			return s;
		}
	};

	// ---- the model ------------------------------------------------------------------------------------------
	struct MExp
	{
		Spec spec;
		int count{};
		bool alive{true};
		std::vector<int> pos; // element index in each of spec.seqs
		bool satisfied() const { return spec.min <= count && count <= spec.max; }
		bool saturated() const { return count == spec.max; }
	};
	struct MSeq
	{
		bool greedy{};
		std::vector<int> elems; // expectation ids
		int cursor{};
		bool object{true};      // the sequence object itself still exists
		bool ended{};           // the last owner is gone
	};
	enum class Verdict { none, inapplicable, full };

	struct Model
	{
		std::vector<MExp> exps; // in creation order
		std::vector<MSeq> seqs;

		bool eligible_in(const MExp& e, std::size_t k) const
		{
			const MSeq& s = seqs[e.spec.seqs[k]];
			const int p = e.pos[k];
			if (p < s.cursor || e.saturated()) return false;
			for (int i = s.cursor; i < p; ++i) if (exps[s.elems[i]].count < exps[s.elems[i]].spec.min) return false;
			return true;
		}
		Verdict evaluate(const MExp& e, int arg) const
		{
			if (!(e.spec.mask >> arg & 1)) return Verdict::none;
			if (e.saturated()) return Verdict::inapplicable;
			for (std::size_t k = 0; k < e.pos.size(); ++k) if (!eligible_in(e, k)) return Verdict::inapplicable;
			return Verdict::full;
		}
		// is the older candidate preferred over the newer one?
		bool older_wins(const MExp& newer, const MExp& older) const
		{
			int votes = 0;
			for (std::size_t k = 0; k < newer.pos.size(); ++k)
			{
				bool shared = false;
				for (std::size_t j = 0; j < older.pos.size(); ++j)
				{
					if (older.spec.seqs[j] != newer.spec.seqs[k]) continue;
					shared = true;
					const bool newerIsFurther = newer.pos[k] > older.pos[j];
					const bool newerPreferred = seqs[newer.spec.seqs[k]].greedy == newerIsFurther;
					votes += newerPreferred ? 1 : -1;
				}
				if (!shared) return false;
			}
			return votes < 0;
		}
		int choose(int mock, int arg) const // -1: rejected
		{
			int best = -1;
			for (int i = static_cast<int>(exps.size()) - 1; i >= 0; --i)
			{
				const MExp& e = exps[i];
				if (!e.alive || e.spec.mock != mock || evaluate(e, arg) != Verdict::full) continue;
				if (best < 0 || older_wins(exps[best], e)) best = i;
			}
			return best;
		}
		void consume(int i)
		{
			MExp& e = exps[i];
			for (std::size_t k = 0; k < e.pos.size(); ++k) seqs[e.spec.seqs[k]].cursor = e.pos[k];
			++e.count;
		}
		int create(const Spec& s)
		{
			MExp e{.spec = s};
			for (int q : s.seqs)
			{
				e.pos.push_back(static_cast<int>(seqs[q].elems.size()));
				seqs[q].elems.push_back(static_cast<int>(exps.size()));
			}
			exps.push_back(e);
			return static_cast<int>(exps.size()) - 1;
		}
		// leading satisfied elements, or -1 if the sequence is complete
		int incomplete(int q) const
		{
			const MSeq& s = seqs[q];
			for (int i = s.cursor; i < static_cast<int>(s.elems.size()); ++i)
				if (exps[s.elems[i]].count < exps[s.elems[i]].spec.min) return i;
			return -1;
		}
		bool owned(int q) const
		{
			if (seqs[q].object) return true;
			for (int i : seqs[q].elems) if (exps[i].alive) return true;
			return false;
		}
		std::string key() const
		{
			std::string k;
			for (auto& e : exps)
			{
				if (!e.alive && e.spec.seqs.empty()) { k += '-'; continue; }
				k += static_cast<char>('0' + e.spec.mask); k += static_cast<char>('a' + e.spec.mock);
				k += std::to_string(e.spec.min) + "," + std::to_string(e.spec.max) + "," + std::to_string(e.count) + (e.alive ? "L" : "D");
				for (int q : e.spec.seqs) k += static_cast<char>('A' + q);
			}
			for (auto& s : seqs) k += (s.greedy ? "G" : "Z") + std::to_string(s.cursor) + (s.object ? "o" : "");
			return k;
		}
	};

	// ---- the real thing --------------------------------------------------------------------------------------
	using AnySeq = std::variant<std::unique_ptr<mpp::LazySequence>, std::unique_ptr<mpp::GreedySequence>>;
	using MockT = mpp::Mock<int(int&)>;

	struct World
	{
		unsigned tags;
		Model m{};
		std::vector<MockT> mocks;
		std::vector<AnySeq> seqs;
		std::vector<mpp::sequence::Tag> seqTags;
		std::vector<mpp::ScopedExpectation*> real; // raw owners: their destructors may throw
		std::vector<int> effects;
		bool diverged{};
		int callNo{};
		int context{};       // circumstances of every operation, see ctx.hpp
		int locMod{};        // if set, expectations share that many source locations

		World(unsigned t, int nMocks, std::vector<bool> greedy = {})
			: tags{t}, mocks(nMocks)
		{
			rec::reset();
			for (bool g : greedy)
			{
				m.seqs.push_back({.greedy = g});
				if (g) seqs.emplace_back(std::make_unique<mpp::GreedySequence>());
				else seqs.emplace_back(std::make_unique<mpp::LazySequence>());
				seqTags.push_back(std::visit([](auto& s) { return s->tag(); }, seqs.back()));
			}
		}

		~World()
		{
			rec::log().throwUnfulfilled = rec::log().throwError = false;
			rec::log().onEvent = nullptr;
			for (auto*& p : real) { auto* q = std::exchange(p, nullptr); try { delete q; } catch (...) { } }
		}

		template <typename... Ts>
		bool check(Tag t, bool cond, const Ts&... ts)
		{
			if (cond) { ++mc::E().curChecks; return true; }
			if (tags & t) mc::fail(ts...);
			else diverged = true;
			return false;
		}
		bool stop() const { return diverged || mc::violated(); }

		auto base(const Spec& s, int id)
		{
			return mocks[s.mock].expect_call(
						mpp::matches::predicate(
							[mask = s.mask](const int& v) { return v >= 0 && v < 31 && (mask >> v & 1); },
							"accepts mask " + std::to_string(s.mask),
							"rejects mask " + std::to_string(s.mask)))
					and mpp::expect::times(s.min, s.max)
					and mpp::finally::returns(1000 + id)
					and mpp::then::apply_arg<0>([this, id](int& v) { effects.push_back(id); ++rec::log().effects; v += 100; });
		}

		int loc_id(int id) const { return locMod ? id % locMod : id; }
		std::source_location loc_of(int id) const { return rec::locs()[loc_id(id)]; }

		mpp::ScopedExpectation build(const Spec& s, int id)
		{
			auto loc = loc_of(id);
			switch (s.seqs.size())
			{
			case 0: return mpp::ScopedExpectation{base(s, id), loc};
#if CORE_MAX_SEQS >= 1
			case 1: return std::visit(
					[&](auto& a) { return mpp::ScopedExpectation{base(s, id) and mpp::expect::in_sequence(*a), loc}; },
					seqs[s.seqs[0]]);
#endif
#if CORE_MAX_SEQS >= 2
			case 2: return std::visit(
					[&](auto& a, auto& b) {
						if (s.split) return mpp::ScopedExpectation{base(s, id) and mpp::expect::in_sequence(*a) and mpp::expect::in_sequence(*b), loc};
						return mpp::ScopedExpectation{base(s, id) and mpp::expect::in_sequences(*a, *b), loc};
					},
					seqs[s.seqs[0]], seqs[s.seqs[1]]);
#endif
#if CORE_MAX_SEQS >= 3
			case 3: return std::visit(
					[&](auto& a, auto& b, auto& c) {
						if (s.split) return mpp::ScopedExpectation{base(s, id) and mpp::expect::in_sequence(*a) and mpp::expect::in_sequences(*b, *c), loc};
						return mpp::ScopedExpectation{base(s, id) and mpp::expect::in_sequences(*a, *b) and mpp::expect::in_sequence(*c), loc};
					},
					seqs[s.seqs[0]], seqs[s.seqs[1]], seqs[s.seqs[2]]);
#endif
			default: mc::fatal("too many sequences in spec");
			}
		}

		int create(const Spec& s)
		{
			if (m.exps.size() >= rec::locs().size() - 8) mc::fatal("too many expectations");
			int id = m.create(s);
			mc::note("create E", id, ": ", s.text());
			auto before = rec::log().events.size();
			ctx::run(context, [&] { real.emplace_back(new mpp::ScopedExpectation{build(s, id)}); });
			check(REPORT, rec::log().events.size() == before, "creating an expectation issued a report");
			after();
			return id;
		}

		void destroy(int id)
		{
			mc::note("remove E", id);
			MExp& e = m.exps[id];
			auto before = rec::log().events.size();
			rec::log().throwUnfulfilled = true;
			bool threw = false;
			auto* victim = std::exchange(real[id], nullptr);
			try { ctx::run(context, [&] { delete victim; }); }
			catch (const rec::Unfulfilled&) { threw = true; }
			rec::log().throwUnfulfilled = false;
			int unf = 0, errs = 0, others = 0;
			for (auto i = before; i < rec::log().events.size(); ++i)
			{
				auto& ev = rec::log().events[i];
				if (ev.kind == rec::Kind::unfulfilled)
				{
					++unf;
					check(UNFULFILLED, rec::id_of(ev.exp->sourceLocation) == loc_id(id), "unfulfilled report names the wrong expectation");
				}
				else if (ev.kind == rec::Kind::error) ++errs;
				else ++others;
			}
			e.alive = false;
			check(UNFULFILLED, unf == (e.satisfied() ? 0 : 1), "removal of E", id, " (", e.spec.text(), ", count ", e.count, ") issued ", unf, " unfulfilled report(s)");
			check(UNFULFILLED, threw == (!e.satisfied() && !ctx::in_flight(context)), "the reporter's exception did ", threw ? "" : "not ", "leave the owning scope");
			check(UNFULFILLED, others == 0, "unexpected report during removal");
			sequence_reports(before);
			after();
		}

		// compares the sequence reports issued since event `before` with what the model expects now
		void sequence_reports(std::size_t before)
		{
			std::multiset<std::vector<long>> want, got;
			for (int q = 0; q < static_cast<int>(m.seqs.size()); ++q)
			{
				if (m.seqs[q].ended || m.owned(q)) continue;
				m.seqs[q].ended = true;
				if (int n = m.incomplete(q); n >= 0) want.insert({n, static_cast<long>(m.seqs[q].elems.size())});
			}
			for (auto i = before; i < rec::log().events.size(); ++i)
				if (rec::log().events[i].kind == rec::Kind::error) got.insert(rec::integers(rec::log().events[i].text));
			check(SEQERR, want == got, "sequence reports: expected ", show(want), ", got ", show(got));
		}
		static std::string show(const std::multiset<std::vector<long>>& s)
		{
			std::string r = "{";
			for (auto& v : s) { for (long x : v) r += std::to_string(x) + " "; r += ";"; }
			return r + "}";
		}

		void destroy_sequence(int q)
		{
			mc::note("destroy sequence object S", q);
			auto before = rec::log().events.size();
			m.seqs[q].object = false;
			ctx::run(context, [&] { std::visit([](auto& p) { p.reset(); }, seqs[q]); });
			int others = 0;
			for (auto i = before; i < rec::log().events.size(); ++i) others += rec::log().events[i].kind != rec::Kind::error;
			check(SEQERR, others == 0, "unexpected report while destroying a sequence object");
			sequence_reports(before);
			after();
		}

		// returns the answering expectation or -1
		int call(int mock, int arg)
		{
			const int expected = m.choose(mock, arg);
			auto before = rec::log().events.size();
			auto effBefore = effects.size();
			int value = arg;
			int got = -1;
			const int locId = static_cast<int>(rec::locs().size()) - 1 - (callNo++ % 7);
			try
			{
				ctx::run(context, [&] { got = mocks[mock](value, rec::locs()[locId]) - 1000; });
			}
			catch (const rec::NoMatch&) {}
			catch (const rec::Inapplicable&) {}
			mc::note("call m", mock, "(", arg, ") -> ", got < 0 ? std::string{"rejected"} : "E" + std::to_string(got));
			mc::observe(static_cast<std::uint64_t>(got + 2));
			if (!check(SELECT, got == expected, "call m", mock, "(", arg, ") was answered by ", name(got), ", expected ", name(expected))) return got;
			check_effects(effBefore, got, value, arg);
			std::vector<rec::Event> evs(rec::log().events.begin() + static_cast<std::ptrdiff_t>(before), rec::log().events.end());
			check_call_reports(evs, mock, arg, expected, locId);
			if (expected >= 0) m.consume(expected);
			after();
			return got;
		}

		static std::string name(int id) { return id < 0 ? std::string{"nothing (rejected)"} : "E" + std::to_string(id); }

		void check_effects(std::size_t before, int got, int value, int arg)
		{
			auto n = effects.size() - before;
			check(EFFECTS, n == (got < 0 ? 0u : 1u) && (n == 0 || effects.back() == got), "side effects of other expectations (or none/too many) were executed");
			check(EFFECTS, value == (got < 0 ? arg : arg + 100), "argument was modified unexpectedly: ", value);
		}

		void check_call_reports(const std::vector<rec::Event>& evs, int mock, int arg, int expected, int locId)
		{
			if (!check(REPORT, evs.size() == 1, "call issued ", evs.size(), " reports")) return;
			const rec::Event& ev = evs[0];
			std::vector<int> want;
			rec::Kind kind = rec::Kind::full;
			if (expected >= 0) want = {expected};
			else
			{
				for (int pass = 0; pass < 2 && want.empty(); ++pass)
				{
					kind = pass ? rec::Kind::no_match : rec::Kind::inapplicable;
					for (std::size_t i = 0; i < m.exps.size(); ++i)
						if (m.exps[i].alive && m.exps[i].spec.mock == mock
							&& m.evaluate(m.exps[i], arg) == (pass ? Verdict::none : Verdict::inapplicable))
							want.push_back(static_cast<int>(i));
				}
			}
			check(REPORT, ev.kind == kind, "report kind is ", rec::name(ev.kind), ", expected ", rec::name(kind));
			std::vector<int> got;
			for (auto& r : ev.matches) got.push_back(rec::id_of(r.sourceLocation));
			std::sort(got.begin(), got.end());
			if (locMod) { for (int& i : want) i = loc_id(i); std::sort(want.begin(), want.end()); }
			check(REPORT, got == want, "the report does not list exactly the expected expectations (", got.size(), " vs ", want.size(), ")");
			check(REPORT, ev.call.has_value(), "no call in report");
			auto& c = *ev.call;
			check(REPORT, c.argDetails.size() == 1 && c.argDetails[0].stateString == std::to_string(arg) && c.argDetails[0].typeIndex == typeid(int&),
				"call report shows wrong arguments: ", c.argDetails.empty() ? "none" : c.argDetails[0].stateString);
			check(REPORT, c.returnTypeIndex == typeid(int), "wrong return type");
			check(REPORT, rec::id_of(c.fromLoc) == locId, "wrong call location");
			check(REPORT, c.fromCategory == mpp::ValueCategory::any && c.fromConstness == mpp::Constness::non_const, "wrong call qualifiers");
			check(REPORT, ev.effectsBefore == static_cast<int>(effects.size()) - (expected >= 0 ? 1 : 0), "report was issued after the side effects");
			for (auto& r : ev.matches)
			{
				int id = rec::id_of(r.sourceLocation);
				if (locMod && expected < 0) continue;
				if (locMod) id = expected;
				if (id < 0 || id >= static_cast<int>(m.exps.size())) continue;
				check_match_report(r, m.exps[id], arg);
			}
		}

		void check_match_report(const mpp::MatchReport& r, const MExp& e, int arg)
		{
			std::vector<mpp::sequence::Tag> open, closed;
			for (std::size_t k = 0; k < e.pos.size(); ++k) (m.eligible_in(e, k) ? open : closed).push_back(seqTags[e.spec.seqs[k]]);
			auto sorted = [](std::vector<mpp::sequence::Tag> v) { std::sort(v.begin(), v.end()); return v; };
			std::visit([&]<typename S>(const S& st) {
				check(REPORT, st.min == e.spec.min && st.max == e.spec.max && st.count == e.count,
					"report states times(", st.min, ",", st.max, ") count ", st.count, " for ", e.spec.text(), " count ", e.count);
				if constexpr (std::same_as<S, mpp::state_saturated>)
				{
					auto all = open; all.insert(all.end(), closed.begin(), closed.end());
					check(REPORT, e.saturated(), "reported as saturated");
					check(REPORT, sorted(st.sequences) == sorted(all), "wrong sequences in saturated state");
				}
				else
				{
					std::vector<mpp::sequence::Tag> t;
					for (auto& x : st.sequenceRatings) t.push_back(x.tag);
					check(REPORT, !e.saturated(), "saturated expectation reported as unsaturated");
					check(REPORT, sorted(t) == sorted(open), "wrong sequence ratings");
					if constexpr (std::same_as<S, mpp::state_inapplicable>)
					{
						check(REPORT, !closed.empty() && sorted(st.inapplicableSequences) == sorted(closed), "wrong inapplicable sequences");
					}
					else check(REPORT, closed.empty(), "out-of-turn expectation reported as applicable");
				}
			}, r.controlReport);
			int described = 0, argEntries = 0;
			const std::string want = "expect: arg[0] accepts mask " + std::to_string(e.spec.mask);
			for (auto& x : r.expectationReports)
			{
				if (!x.description) { check(REPORT, x.isMatching, "side effect reported as failed requirement"); continue; }
				++described;
				if (*x.description == want)
				{
					++argEntries;
					check(REPORT, x.isMatching == static_cast<bool>(e.spec.mask >> arg & 1), "wrong verdict for '", want, "'");
				}
				else check(REPORT, x.isMatching, "unexpected failed requirement: ", *x.description);
			}
			check(REPORT, argEntries == 1 && described == 3, "report lists ", described, " requirements, ", argEntries, " of them for the argument");
		}

		void after()
		{
			for (std::size_t i = 0; i < m.exps.size(); ++i)
			{
				if (!m.exps[i].alive || !real[i]) continue;
				check(COUNT, real[i]->is_satisfied() == m.exps[i].satisfied(), "E", i, " (", m.exps[i].spec.text(), ", count ", m.exps[i].count, ") claims to be ",
					m.exps[i].satisfied() ? "unsatisfied" : "satisfied");
			}
			mc::state(m.key());
		}

		// removes everything, newest first or oldest first
		void finish(bool newestFirst = true)
		{
			int n = static_cast<int>(real.size());
			for (int k = 0; k < n && !stop(); ++k)
			{
				int i = newestFirst ? n - 1 - k : k;
				if (real[i]) destroy(i);
			}
		}
		std::vector<int> live() const
		{
			std::vector<int> v;
			for (std::size_t i = 0; i < real.size(); ++i) if (real[i]) v.push_back(static_cast<int>(i));
			return v;
		}
	};
}
