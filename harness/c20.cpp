// C20: concurrent calls, creations, removals and queries on one mock, under every schedule within the bound.
// Compiled with -fsanitize=thread instrumentation and linked with c20rt.cpp (scheduler and race detector).
#define CORE_MAX_SEQS 0
#include "core.hpp"
#include <memory>
using namespace core;

extern "C"
{
	int sched_run(int n, void (*fn)(void*, int), void* ctx, int preemptionBound, int withAtomicPoints);
	const char* sched_error();
	void sched_point();
	unsigned long sched_stamp();
	unsigned long sched_points();
	unsigned long sched_accesses();
	int sched_self();
	void sched_ignore(int d);
	int sched_choose(int n) { return mc::choose(n); }
}

namespace
{
	enum class OpKind { call, create, remove, query };
	struct Op
	{
		OpKind kind;
		int arg{}; // argument value, or spec, or expectation
	};
	struct Result
	{
		unsigned long begin{}, end{};
		bool done{};
		int answer{-1};              // call: answering expectation; query: verdict
		int thrown{};                // call: 1 no match, 2 inapplicable, 3 something else; remove: 1 unfulfilled was thrown
		int reports{};
		rec::Kind kind{};
		int listed[6]{};             // expectations listed in the report
		int counts[6]{};             // their counts at that time
		int nListed{};
		int unfulfilled{-1};         // reported expectation
		int unfulfilledReports{};
		int effects[3]{};            // expectation whose side effect ran
		int finals[3]{};
		int nEffects{}, nFinals{};
		bool effectBeforeReport{}, finalBeforeEffect{};
		int badState{};
		int exceptions{};            // reported exceptions of requirements
	};
	Result* current[5]; // main, then one per thread

	Result& mine() { return *current[sched_self() + 1]; }

	int count_of(const mimicpp::control_state_t& s)
	{
		return std::visit([](auto& st) { return st.count; }, s);
	}
	void record(rec::Kind k, const std::vector<mimicpp::MatchReport>& m)
	{
		Result& r = mine();
		++r.reports;
		r.kind = k;
		r.effectBeforeReport = r.effectBeforeReport || r.nEffects > 0;
		for (auto& x : m)
		{
			if (r.nListed == 6) break;
			r.listed[r.nListed] = rec::id_of(x.sourceLocation);
			r.counts[r.nListed++] = count_of(x.controlReport);
		}
	}

	struct Reporter final : mimicpp::IReporter
	{
		[[noreturn]] void report_no_matches(mimicpp::CallReport, std::vector<mimicpp::MatchReport> m) override
		{
			record(rec::Kind::no_match, m);
			throw rec::NoMatch{};
		}
		[[noreturn]] void report_inapplicable_matches(mimicpp::CallReport, std::vector<mimicpp::MatchReport> m) override
		{
			record(rec::Kind::inapplicable, m);
			throw rec::Inapplicable{};
		}
		void report_full_match(mimicpp::CallReport, mimicpp::MatchReport m) noexcept override
		{
			Result& r = mine();
			++r.reports;
			r.kind = rec::Kind::full;
			r.effectBeforeReport = r.effectBeforeReport || r.nEffects > 0;
			r.listed[0] = rec::id_of(m.sourceLocation);
			r.counts[0] = count_of(m.controlReport);
			r.nListed = 1;
		}
		void report_unfulfilled_expectation(mimicpp::ExpectationReport e) override
		{
			Result& r = mine();
			++r.unfulfilledReports;
			r.unfulfilled = rec::id_of(e.sourceLocation);
			if (throwUnfulfilled && std::uncaught_exceptions() == 0) throw rec::Unfulfilled{};
		}
		void report_error(mimicpp::StringT) override { ++mine().badState; }
		void report_unhandled_exception(mimicpp::CallReport, mimicpp::ExpectationReport, std::exception_ptr) override { ++mine().exceptions; }
		static inline bool throwUnfulfilled = false;
	};

	struct Options
	{
		int threads{2};
		int ops{2};
		int bound{2};
		int maxInitial{1};
		bool atomics{};
		bool points{};          // user callbacks are scheduling points
		bool throwing{};
		std::vector<Spec> specs{};
		std::vector<OpKind> kinds{OpKind::call, OpKind::create, OpKind::remove, OpKind::query};
		int args{2};
		int mocks{1};
	};
	bool throws(const Spec& s, int arg) { return s.mask >> (8 + arg) & 1; } // evaluating its requirement throws

	using Mock = mimicpp::Mock<int(int)>;

	struct Program
	{
		Options o;
		std::unique_ptr<Mock> mocks[2]{std::make_unique<Mock>(), std::make_unique<Mock>()};
		std::vector<Spec> spec;                 // of every expectation
		std::vector<int> owner;                 // thread, -1: stays until the end
		std::vector<mimicpp::ScopedExpectation*> real;
		std::vector<std::vector<Op>> ops;
		std::vector<std::vector<Result>> results;
		int initial{};

		void build(int id)
		{
			const Spec& s = spec[id];
			const bool points = o.points;
			// the captures live inside the expectation, so that its early end is noticed
			auto matcher = [mask = std::make_unique<int>(s.mask), points](const int& v) {
				if (points) sched_point();
				if (v >= 0 && (*mask >> (8 + v) & 1)) throw 1;
				return v >= 0 && (*mask >> v & 1);
			};
			auto effect = [who = std::make_unique<int>(id), points] {
				if (points) sched_point();
				Result& r = mine();
				if (r.nEffects < 3) r.effects[r.nEffects] = *who;
				++r.nEffects;
				r.finalBeforeEffect = r.finalBeforeEffect || r.nFinals > 0;
			};
			auto final = [who = std::make_unique<int>(id), points] {
				if (points) sched_point();
				Result& r = mine();
				if (r.nFinals < 3) r.finals[r.nFinals] = *who;
				++r.nFinals;
				return 1000 + *who;
			};
			real[id] = new mimicpp::ScopedExpectation{
				mocks[s.mock]->expect_call(mimicpp::matches::predicate(std::move(matcher)))
					and mimicpp::expect::times(s.min, s.max)
					and mimicpp::then::invoke(std::move(effect))
					and mimicpp::finally::returns_result_of(std::move(final)),
				rec::locs()[id]};
		}

		static void run(void* self, int t) { static_cast<Program*>(self)->run(t); }
		void run(int t)
		{
			for (std::size_t i = 0; i < ops[t].size(); ++i)
			{
				const Op op = ops[t][i];
				Result& r = results[t][i];
				current[t + 1] = &r;
				r.begin = sched_stamp();
				switch (op.kind)
				{
				case OpKind::call:
					try { r.answer = (*mocks[op.arg >> 4])(op.arg & 15) - 1000; }
					catch (const rec::NoMatch&) { r.thrown = 1; }
					catch (const rec::Inapplicable&) { r.thrown = 2; }
					catch (...) { r.thrown = 3; }
					break;
				case OpKind::create:
					build(op.arg);
					break;
				case OpKind::remove:
					{
						auto* victim = real[op.arg];
						real[op.arg] = nullptr;
						try { delete victim; }
						catch (const rec::Unfulfilled&) { r.thrown = 1; }
					}
					break;
				case OpKind::query:
					r.answer = real[op.arg]->is_satisfied();
					break;
				}
				r.end = sched_stamp();
				r.done = true;
			}
		}
	};

	std::string text(const Program& p, int t, const Op& op)
	{
		std::string s = (t < 0 ? "main" : "T" + std::to_string(t)) + ": ";
		switch (op.kind)
		{
		case OpKind::call: return s + "call(" + std::to_string(op.arg & 15) + ")" + (p.o.mocks > 1 ? " on mock " + std::to_string(op.arg >> 4) : "");
		case OpKind::create: return s + "create E" + std::to_string(op.arg) + ": " + p.spec[op.arg].text();
		case OpKind::remove: return s + "remove E" + std::to_string(op.arg);
		case OpKind::query: return s + "is_satisfied E" + std::to_string(op.arg);
		}
		return s;
	}

	// ---- linearizability ---------------------------------------------------------------------------------------------
	struct Search
	{
		const Program& p;
		std::vector<int> index;  // expectation -> index in the model
		Model m{};
		std::vector<std::size_t> next;

		bool fits(const Op& op, const Result& r)
		{
			switch (op.kind)
			{
			case OpKind::create:
				index[op.arg] = m.create(p.spec[op.arg]);
				return r.unfulfilledReports == 0 && r.reports == 0;
			case OpKind::query:
				return r.answer == (m.exps[index[op.arg]].satisfied() ? 1 : 0);
			case OpKind::remove:
				{
					MExp& e = m.exps[index[op.arg]];
					e.alive = false;
					const int want = e.satisfied() ? 0 : 1;
					return r.unfulfilledReports == want && (want == 0 || r.unfulfilled == op.arg) && r.thrown == (p.o.throwing ? want : 0);
				}
			case OpKind::call:
				{
					const int mock = op.arg >> 4, arg = op.arg & 15;
					auto takesPart = [&](const MExp& e) { return e.alive && e.spec.mock == mock && !throws(e.spec, arg); };
					int exceptions = 0;
					for (auto& e : m.exps) exceptions += e.alive && e.spec.mock == mock && throws(e.spec, arg);
					if (r.exceptions != exceptions) return false;
					const int best = m.choose(mock, arg);
					std::vector<std::pair<int, int>> want, got;
					for (int i = 0; i < r.nListed; ++i) got.emplace_back(r.listed[i] < 0 ? -1 : index[r.listed[i]], r.counts[i]);
					if (best >= 0)
					{
						if (r.answer < 0 || index[r.answer] != best || r.kind != rec::Kind::full) return false;
						want.emplace_back(best, m.exps[best].count);
						if (got != want) return false;
						m.consume(best);
						return true;
					}
					if (r.answer >= 0) return false;
					bool inapplicable = false;
					for (auto& e : m.exps) inapplicable = inapplicable || (takesPart(e) && m.evaluate(e, arg) == Verdict::inapplicable);
					for (std::size_t i = 0; i < m.exps.size(); ++i)
						if (takesPart(m.exps[i]) && m.evaluate(m.exps[i], arg) == (inapplicable ? Verdict::inapplicable : Verdict::none)) want.emplace_back(static_cast<int>(i), m.exps[i].count);
					std::sort(got.begin(), got.end());
					return r.thrown == (inapplicable ? 2 : 1) && r.kind == (inapplicable ? rec::Kind::inapplicable : rec::Kind::no_match) && got == want;
				}
			}
			return false;
		}
		bool search()
		{
			bool all = true;
			for (std::size_t t = 0; t < next.size(); ++t)
			{
				if (next[t] == p.ops[t].size()) continue;
				all = false;
				const Result& r = p.results[t][next[t]];
				// an operation that ended before this one began has to come first
				bool first = true;
				for (std::size_t u = 0; u < next.size(); ++u)
					if (u != t && next[u] < p.ops[u].size() && p.results[u][next[u]].end < r.begin) first = false;
				if (!first) continue;
				const Model saved = m;
				const auto savedIndex = index;
				if (fits(p.ops[t][next[t]], r))
				{
					++next[t];
					if (search()) return true;
					--next[t];
				}
				m = saved;
				index = savedIndex;
			}
			if (!all) return false;
			// what remains after the threads have finished: the final removals agree with the counts of this order
			for (std::size_t id = 0; id < p.spec.size(); ++id)
			{
				if (index[id] < 0 || !m.exps[index[id]].alive) continue;
				if (finalSatisfied[id] != (m.exps[index[id]].satisfied() ? 1 : 0)) return false;
			}
			return true;
		}
		std::vector<int> finalSatisfied;
	};

	void execute(const Options& o)
	{
		static bool installed = (mimicpp::install_reporter<Reporter>(), true);
		(void)installed;
		auto* p = new Program{o};
		Reporter::throwUnfulfilled = false;
		Result mainResult{};
		current[0] = &mainResult;

		// ---- the program
		const int n0 = mc::choose(o.maxInitial + 1);
		for (int i = 0; i < n0; ++i)
		{
			p->spec.push_back(mc::pick_from(o.specs));
			p->owner.push_back(mc::choose(o.threads + 1) - 1);
		}
		p->initial = n0;
		p->ops.resize(o.threads);
		p->results.resize(o.threads);
		std::vector<std::vector<int>> codes(o.threads);
		for (int t = 0; t < o.threads; ++t)
		{
			std::vector<int> own;
			for (int i = 0; i < n0; ++i) if (p->owner[i] == t) own.push_back(i);
			for (int k = 0; k < o.ops; ++k)
			{
				std::vector<Op> candidates;
				for (OpKind kind : o.kinds)
					switch (kind)
					{
					case OpKind::call: for (int j = 0; j < o.mocks; ++j) for (int a = 0; a < o.args; ++a) candidates.push_back({kind, j << 4 | a}); break;
					case OpKind::create: for (int s = 0; s < static_cast<int>(o.specs.size()); ++s) candidates.push_back({kind, s}); break;
					case OpKind::remove: for (int e : own) candidates.push_back({kind, e}); break;
					case OpKind::query:
						for (int e : own) candidates.push_back({kind, e});
						for (int i = 0; i < n0; ++i) if (p->owner[i] < 0) candidates.push_back({kind, i});
						break;
					}
				const int c = mc::choose(static_cast<int>(candidates.size()));
				codes[t].push_back(c);
				Op op = candidates[c];
				if (op.kind == OpKind::create)
				{
					p->spec.push_back(o.specs[op.arg]);
					p->owner.push_back(t);
					op.arg = static_cast<int>(p->spec.size()) - 1;
					own.push_back(op.arg);
				}
				if (op.kind == OpKind::remove) std::erase(own, op.arg);
				p->ops[t].push_back(op);
			}
			p->results[t].resize(o.ops);
		}
		const bool symmetric = std::all_of(p->owner.begin(), p->owner.begin() + n0, [](int x) { return x < 0; });
		if (symmetric) // threads are interchangeable
			for (int t = 1; t < o.threads; ++t) if (codes[t] < codes[t - 1]) { delete p; return; }
		p->real.resize(p->spec.size());
		Reporter::throwUnfulfilled = o.throwing;
		for (int i = 0; i < n0; ++i) { mc::note("create E", i, ": ", p->spec[i].text(), p->owner[i] < 0 ? "" : ", later removed by a thread"); p->build(i); }
		for (int t = 0; t < o.threads; ++t) for (auto& op : p->ops[t]) mc::note(text(*p, t, op));

		// ---- all schedules
		const int deadlock = sched_run(o.threads, Program::run, p, o.bound, o.atomics);
		if (deadlock || *sched_error()) { mc::fail(sched_error()); return; }

		// ---- judgement
		std::string trace;
		mc::E().curTransitions += sched_points();
		for (int t = 0; t < o.threads; ++t)
			for (std::size_t i = 0; i < p->ops[t].size(); ++i)
			{
				const Op& op = p->ops[t][i];
				const Result& r = p->results[t][i];
				if (!mc::check(r.done, "an operation did not finish")) return;
				const std::string what = text(*p, t, op) + " [" + std::to_string(r.begin) + "," + std::to_string(r.end) + "]"
					+ (op.kind == OpKind::call ? (r.answer < 0 ? " -> rejected as " + std::string{rec::name(r.kind)} : " -> E" + std::to_string(r.answer)) : "")
					+ (op.kind == OpKind::query ? (r.answer ? " -> satisfied" : " -> unsatisfied") : "")
					+ (r.unfulfilledReports ? " -> unfulfilled" : "");
				trace += what + "; ";
				mc::note(what);
				mc::check(r.badState == 0, "unexpected report during ", what);
				if (op.kind == OpKind::call)
				{
					const bool accepted = r.answer >= 0;
					mc::check(r.reports == 1, what, " issued ", r.reports, " reports");
					mc::check(accepted == (r.thrown == 0) && r.thrown != 3, what, ": neither answered nor rejected");
					mc::check(r.nEffects == (accepted ? 1 : 0) && (!accepted || r.effects[0] == r.answer), what, " ran ", r.nEffects, " side effects");
					mc::check(r.nFinals == (accepted ? 1 : 0) && (!accepted || r.finals[0] == r.answer), what, " ran ", r.nFinals, " finalizers");
					mc::check(!r.effectBeforeReport && !r.finalBeforeEffect, what, ": report, side effect and finalizer are out of order");
				}
				else mc::check(r.reports == 0 && r.exceptions == 0 && r.nEffects == 0 && r.nFinals == 0, what, " behaved like a call");
			}
		Search s{*p, std::vector<int>(p->spec.size(), -1)};
		for (int i = 0; i < n0; ++i) s.index[i] = s.m.create(p->spec[i]);
		s.next.assign(o.threads, 0);
		std::string finals;
		Reporter::throwUnfulfilled = false;
		for (std::size_t id = 0; id < p->spec.size(); ++id)
		{
			int sat = -1;
			if (p->real[id])
			{
				Result r{};
				current[0] = &r;
				sat = p->real[id]->is_satisfied();
				delete std::exchange(p->real[id], nullptr);
				mc::check(r.unfulfilledReports == (sat ? 0 : 1) && (sat || r.unfulfilled == static_cast<int>(id)), "final removal of E", id, " does not agree with its state");
				finals += " E" + std::to_string(id) + (sat ? " satisfied" : " unsatisfied");
			}
			s.finalSatisfied.push_back(sat);
		}
		mc::note("afterwards:", finals);
		mc::check(s.search(), "no sequential order of the operations explains: ", trace, "afterwards:", finals);
		mc::state(trace);
		delete p;
	}
}

// two mocks whose callbacks call each other: every call is answered, none is lost, and nobody waits forever
namespace
{
	struct Nested
	{
		Mock mocks[2];
		mimicpp::ScopedExpectation* real[2]{};
		std::vector<std::vector<std::pair<int, int>>> calls;
		bool inFinal{}, createInside{};
		int wrong[3]{};

		int inner(int m, int depth)
		{
			sched_point();
			if (depth == 0) return 0;
			if (createInside) // a callback creates, uses and removes a further expectation of the running mock
			{
				mimicpp::ScopedExpectation e{mocks[m].expect_call(50 + sched_self()) and mimicpp::finally::returns(7)};
				if (mocks[m](50 + sched_self()) != 7) ++wrong[sched_self()];
			}
			return mocks[1 - m](depth - 1) + 1;
		}
		static void run(void* self, int t)
		{
			auto* n = static_cast<Nested*>(self);
			Result r{};
			current[t + 1] = &r;
			for (auto [m, depth] : n->calls[t])
			{
				try { if (n->mocks[m](depth) != (n->inFinal ? depth : 0)) ++n->wrong[t]; }
				catch (...) { ++n->wrong[t]; }
			}
		}
	};
	void nested(int threads, int ops, int maxDepth, int bound)
	{
		static bool installed = (mimicpp::install_reporter<Reporter>(), true);
		(void)installed;
		Reporter::throwUnfulfilled = false;
		auto* n = new Nested;
		n->inFinal = mc::choose_bool();
		n->createInside = mc::choose_bool();
		n->calls.resize(threads);
		int expected[2]{};
		Result mainResult{};
		current[0] = &mainResult;
		for (int t = 0; t < threads; ++t)
			for (int k = 0; k < ops; ++k)
			{
				const int m = mc::choose(2), d = mc::choose(maxDepth + 1);
				n->calls[t].emplace_back(m, d);
				for (int i = 0; i <= d; ++i) ++expected[(m + i) % 2];
				mc::note("T", t, ": call mock ", m, " with depth ", d);
			}
		for (int m = 0; m < 2; ++m)
			n->real[m] = new mimicpp::ScopedExpectation{
				n->mocks[m].expect_call(mimicpp::matches::lt(10))
					and mimicpp::expect::times(expected[m])
					and mimicpp::then::apply_all([n, m](int d) { if (!n->inFinal) n->inner(m, d); })
					and mimicpp::finally::returns_apply_all_result_of([n, m](int d) { return n->inFinal ? n->inner(m, d) : 0; })};
		const int deadlock = sched_run(threads, Nested::run, n, bound, 0);
		mc::E().curTransitions += sched_points();
		if (deadlock || *sched_error()) { mc::fail(sched_error()); return; }
		for (int t = 0; t < threads; ++t) mc::check(n->wrong[t] == 0, "a nested call was rejected or answered wrongly");
		for (int m = 0; m < 2; ++m)
		{
			mc::check(n->real[m]->is_satisfied(), "mock ", m, " did not count exactly ", expected[m], " calls");
			delete n->real[m];
		}
		delete n;
	}
}

int main(int argc, char** argv)
{
	using mc::by_tier;
	const std::vector<Spec> specs{{.mask = 1}, {.mask = 3, .min = 1, .max = 2}, {.mask = 3, .min = 0, .max = 1}};
	const std::vector<Spec> few{{.mask = 3}, {.mask = 1, .min = 2, .max = 2}};
	const std::vector<Spec> one{{.mask = 1}};
	return mc::main(argc, argv, {
		{"two-threads-two-operations", [=] { execute({.ops = 2, .bound = by_tier(2, 4), .maxInitial = 1, .points = true, .specs = specs}); }},
		{"two-threads-one-operation", [=] { execute({.ops = 1, .bound = 100, .maxInitial = 2, .points = true, .throwing = true, .specs = specs}); }},
		{"three-threads-one-operation", [=] { execute({.threads = 3, .ops = 1, .bound = 1, .maxInitial = 2, .points = true, .specs = few, .args = 1}); }},
		{"three-threads-deeper", [=] { execute({.threads = 3, .ops = 1, .bound = by_tier(2, 4), .maxInitial = by_tier(1, 2), .specs = few, .args = 1}); }},
		{"nested", [=] { nested(2, 1, by_tier(2, 3), by_tier(2, 3)); }},
		{"atomic-steps", [=] { execute({.ops = 1, .bound = by_tier(2, 3), .maxInitial = 2, .atomics = true, .specs = few, .args = 1}); }},
		{"two-mocks", [=] { execute({.ops = 1, .bound = by_tier(2, 4), .maxInitial = 2, .points = true, .specs = {{.mock = 0, .mask = 1, .max = 2}, {.mock = 1, .mask = 1}}, .args = 1, .mocks = 2}); }},
		{"throwing-requirements", [=] { execute({.ops = 1, .bound = by_tier(2, 4), .maxInitial = 2, .points = true, .specs = {{.mask = 1 | 2 << 8}, {.mask = 2 | 1 << 8, .min = 0, .max = 2}}}); }},
		{"callers", [=] { execute({.threads = 3, .ops = 2, .bound = 2, .maxInitial = 2, .specs = {{.mask = 1, .min = 2, .max = 2}, {.mask = 1, .min = 0, .max = 3}}, .kinds = {OpKind::call}, .args = 1}); }},
	}, 6);
}
