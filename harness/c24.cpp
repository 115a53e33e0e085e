// C24: user-defined expectation policies, finalizers and matchers.
#include "mc.hpp"
#include "rec.hpp"
#include "ctx.hpp"
#include <climits>
#include <memory>
using namespace mimicpp;

#ifndef PART
#define PART 0
#endif

namespace
{
	// ---- probes ------------------------------------------------------------------------------------------------
	struct Thrown { int id; };
	struct Spec
	{
		int mask{3};      // accepted arguments
		int throwOn{-1};  // matches() throws for this argument
		int satisfiedAfter{0};
		bool described{true};
	};
	struct Entry
	{
		char what; // c: policy consumes, e: side effect, f: finalizer
		int expectation, id, arg;
		const void* address;
		std::size_t reports;
		bool operator ==(const Entry& o) const { return what == o.what && expectation == o.expectation && id == o.id && arg == o.arg && address == o.address; }
		std::string text() const { return std::string{what} + std::to_string(expectation) + "." + std::to_string(id) + "(" + std::to_string(arg) + ")"; }
	};
	std::vector<Entry> effects;
	int livePolicies{};
	int consumed[4][4];

	std::string name(int e, int id) { return "policy<" + std::to_string(e) + "." + std::to_string(id) + ">"; }

	class Probe
	{
	public:
		int expectation, id;
		Spec spec;
		bool owner{true};
		Probe(int e, int i, Spec s) : expectation{e}, id{i}, spec{s} { ++livePolicies; }
		Probe(Probe&& o) noexcept : expectation{o.expectation}, id{o.id}, spec{o.spec}, owner{std::exchange(o.owner, false)} { }
		Probe& operator =(Probe&&) = delete;
		~Probe() { if (owner) --livePolicies; }

		bool is_satisfied() const noexcept
		{
			mc::check(owner, "moved_from", "a moved-from policy is asked");
			return spec.satisfiedAfter <= consumed[expectation][id];
		}
		template <typename R, typename... A>
		bool matches(const call::Info<R, A...>& info) const
		{
			mc::check(owner, "moved_from", "a moved-from policy is asked");
			const int a = std::get<0>(info.args).get();
			if (a == spec.throwOn) throw Thrown{id};
			return spec.mask >> a & 1;
		}
		std::optional<StringT> describe() const
		{
			if (spec.described) return name(expectation, id);
			return std::nullopt;
		}
		template <typename R, typename... A>
		void consume(const call::Info<R, A...>& info)
		{
			auto& a = std::get<0>(info.args).get();
			++consumed[expectation][id];
			effects.push_back({'c', expectation, id, a, std::addressof(a), rec::log().events.size()});
		}
	};
	static_assert(!std::is_copy_constructible_v<Probe>);

	template <typename Ret>
	struct Finalizer
	{
		int expectation;
		template <typename... A>
		Ret finalize_call(const call::Info<Ret, A...>& info)
		{
			auto& a = std::get<0>(info.args).get();
			effects.push_back({'f', expectation, 0, a, std::addressof(a), rec::log().events.size()});
			if constexpr (!std::is_void_v<Ret>) return 100 + expectation;
		}
	};

	// ---- one expectation -----------------------------------------------------------------------------------------
	struct Model
	{
		int index{};
		std::string chain;
		std::vector<Spec> specs;      // of the custom policies
		int argMask{3};
		int min{1}, max{1};
		int count{};
		bool alive{true};
		std::string text() const
		{
			std::string s = "E" + std::to_string(index) + " " + chain + " times(" + std::to_string(min) + "," + std::to_string(max) + ") args" + std::to_string(argMask);
			for (auto& p : specs)
				s += " [accepts" + std::to_string(p.mask) + (p.throwOn >= 0 ? " throws on " + std::to_string(p.throwOn) : "") + " satisfied after " + std::to_string(p.satisfiedAfter) + (p.described ? "" : " undescribed") + "]";
			return s;
		}
		bool throws(int arg) const { for (auto& p : specs) if (p.throwOn == arg) return true; return false; }
		bool matches(int arg) const
		{
			for (auto& p : specs) if (!(p.mask >> arg & 1)) return false;
			return argMask >> arg & 1;
		}
		bool satisfied() const
		{
			for (std::size_t i = 0; i < specs.size(); ++i) if (count < specs[i].satisfiedAfter) return false;
			return min <= count && count <= max;
		}
		//! what the reports have to contain of the described policies, in order
		std::vector<std::pair<std::string, bool>> descriptions(int arg) const
		{
			std::vector<std::pair<std::string, bool>> r;
			std::size_t k = 0;
			for (char c : chain)
			{
				if (c == 'C' || c == 'c')
				{
					if (specs[k].described) r.emplace_back(name(index, static_cast<int>(k)), specs[k].mask >> arg & 1);
					++k;
				}
				else if (c == 'A') r.emplace_back("requirement", argMask >> arg & 1);
			}
			return r;
		}
		std::vector<Entry> effects_of(int arg, const void* address, bool custom) const
		{
			std::vector<Entry> r;
			int k = 0, e = 0;
			for (char c : chain)
			{
				if (c == 'C' || c == 'c') r.push_back({'c', index, k++, arg, address, 0});
				if (c == 'E') r.push_back({'e', index, e++, std::exchange(arg, arg ^ 1), address, 0});
			}
			if (custom) r.push_back({'f', index, 0, arg, address, 0});
			return r;
		}
	};

	struct Context
	{
		Model* m;
		LazySequence* seq;
		int probes{}, sideEffects{};
	};

	template <typename Ret, char C>
	auto link(Context& c)
	{
		if constexpr (C == 'C')
		{
			const int k = c.probes++;
			return Probe{c.m->index, k, c.m->specs[k]};
		}
		else if constexpr (C == 'T') return expect::times(c.m->min, c.m->max);
		else if constexpr (C == 'S') return expect::in_sequence(*c.seq);
		else if constexpr (C == 'A')
			return expect::arg<0>(matches::predicate([mask = c.m->argMask](int a) { return (mask >> a & 1) != 0; }, "requirement", "inverted requirement"));
		else if constexpr (C == 'E')
			return then::apply_arg<0>([e = c.m->index, id = c.sideEffects++](int& a) {
				effects.push_back({'e', e, id, a, &a, rec::log().events.size()});
				a ^= 1; // whatever follows belongs to the accepted call all the same
			});
		else if constexpr (C == 'F') return Finalizer<Ret>{c.m->index};
		else if constexpr (C == 'R') return finally::returns(100 + c.m->index);
	}

	template <typename Ret, char... Cs>
	struct Chain;
	template <typename Ret>
	struct Chain<Ret>
	{
		template <typename B>
		static std::unique_ptr<ScopedExpectation> build(B&& b, Context& c) { return std::make_unique<ScopedExpectation>(std::move(b), rec::locs()[c.m->index]); }
	};
	template <typename Ret, char C, char... Cs>
	struct Chain<Ret, C, Cs...>
	{
		template <typename B>
		static std::unique_ptr<ScopedExpectation> build(B&& b, Context& c)
		{
			if constexpr (C == 'c') // as an lvalue that is moved explicitly
			{
				const int k = c.probes++;
				Probe p{c.m->index, k, c.m->specs[k]};
				return Chain<Ret, Cs...>::build(std::move(b) && std::move(p), c);
			}
			else return Chain<Ret, Cs...>::build(std::move(b) && link<Ret, C>(c), c);
		}
	};

	template <typename Ret>
	using MockT = Mock<Ret(int&)>;
	template <typename Ret>
	struct Kind
	{
		std::string text;
		std::unique_ptr<ScopedExpectation> (*make)(MockT<Ret>&, Context&);
	};
	template <typename Ret, char... Cs>
	Kind<Ret> kind()
	{
		return {std::string{Cs...}, +[](MockT<Ret>& m, Context& c) { return Chain<Ret, Cs...>::build(m.expect_call(matches::_), c); }};
	}

	// ---- the run -----------------------------------------------------------------------------------------------
	void check_descriptions(const Model& m, const std::vector<MatchReport::Expectation>& reports, int arg, const char* where)
	{
		std::vector<std::pair<std::string, bool>> got;
		bool all = true;
		for (auto& r : reports)
		{
			all = all && r.isMatching;
			if (!r.description) continue;
			if (r.description->find("policy<") != std::string::npos) got.emplace_back(*r.description, r.isMatching);
			else if (r.description->find("requirement") != std::string::npos) got.emplace_back("requirement", r.isMatching);
		}
		const auto want = m.descriptions(arg);
		mc::check(got == want, "report_descriptions", std::string{where} + ": the report of " + m.text() + " for argument " + std::to_string(arg) + " names " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " descriptions (or in another order / with other verdicts)");
		mc::check(all == m.matches(arg), "report_verdict", std::string{where} + ": verdicts in the report of " + m.text() + " disagree with the policies");
	}

	template <typename Ret>
	struct World
	{
		MockT<Ret> mock{};
		std::vector<Model> models;
		std::vector<std::unique_ptr<ScopedExpectation>> exps;
		std::size_t seen{};
		int context{}; // circumstances of every call

		void create(const Kind<Ret>& k, Model m)
		{
			m.index = static_cast<int>(models.size());
			m.chain = k.text;
			mc::note(m.text());
			const int before = livePolicies;
			models.push_back(m);
			Context c{&models.back(), new LazySequence}; // one each, leaked: the end of a sequence is C06's matter
			exps.push_back(k.make(mock, c));
			mc::check_eq(livePolicies - before, static_cast<int>(m.specs.size()), "policies_alive", "policies alive after " + m.text());
			satisfaction();
		}
		void satisfaction()
		{
			for (auto& m : models)
				if (m.alive) mc::check_eq(exps[m.index]->is_satisfied(), m.satisfied(), "is_satisfied", "is_satisfied of " + m.text() + " after " + std::to_string(m.count) + " calls");
		}
		void call(int arg)
		{
			mc::note("call(" + std::to_string(arg) + ")");
			effects.clear();
			rec::log().events.clear();
			int value = arg;
			char outcome = 'r';
			int result = -1;
			try
			{
				ctx::run(context, [&] {
					if constexpr (std::is_void_v<Ret>) mock(value);
					else result = mock(value);
				});
			}
			catch (const rec::NoMatch&) { outcome = 'n'; }
			catch (const rec::Inapplicable&) { outcome = 'i'; }

			// the model
			const Model* chosen{};
			int candidates = 0, exhausted = 0, throwing = 0;
			for (auto i = models.rbegin(); i != models.rend(); ++i)
			{
				if (!i->alive) continue;
				if (i->throws(arg)) { ++throwing; continue; }
				++candidates;
				if (!i->matches(arg)) continue;
				if (i->count == i->max) { ++exhausted; continue; }
				if (!chosen) chosen = &*i;
			}
			const char want = chosen ? 'r' : exhausted ? 'i' : 'n';
			mc::check_eq(std::string{outcome}, std::string{want}, "outcome", "outcome of the call");

			// reports
			auto& ev = rec::log().events;
			int unhandled = 0;
			const rec::Event* main{};
			for (auto& e : ev)
			{
				if (e.kind == rec::Kind::unhandled)
				{
					++unhandled;
					bool right = false;
					try { if (e.ex) std::rethrow_exception(e.ex); }
					catch (const Thrown&) { right = true; }
					catch (...) { }
					mc::check(right, "unhandled_exception", "an exception of matches() is reported as another one");
					continue;
				}
				mc::check(!main, "reports", "more than one report for a call");
				main = &e;
			}
			mc::check_eq(unhandled, throwing, "unhandled_reports", "number of reported exceptions");
			if (!mc::check(main != nullptr, "reports", "no report for the call")) return;
			if (chosen)
			{
				mc::check(main->kind == rec::Kind::full && main->matches.size() == 1, "reports", "the accepted call is not reported as full match");
				if (main->matches.size() == 1)
				{
					mc::check_eq(rec::id_of(main->matches[0].sourceLocation), chosen->index, "chosen", "the reported expectation");
					check_descriptions(*chosen, main->matches[0].expectationReports, arg, "full match");
				}
				if constexpr (!std::is_void_v<Ret>) mc::check_eq(result, 100 + chosen->index, "result", "result of the call");
			}
			else
			{
				mc::check(main->kind == (exhausted ? rec::Kind::inapplicable : rec::Kind::no_match), "reports", "the rejected call is reported as another kind");
				mc::check_eq(static_cast<int>(main->matches.size()), exhausted ? exhausted : candidates, "reports", "number of expectations in the report");
				for (auto& r : main->matches)
				{
					const int id = rec::id_of(r.sourceLocation);
					if (mc::check(id >= 0 && id < static_cast<int>(models.size()), "reports", "unknown expectation in a report"))
						check_descriptions(models[id], r.expectationReports, arg, "rejection");
				}
			}
			// effects
			std::vector<Entry> expected;
			if (chosen)
			{
				expected = chosen->effects_of(arg, &value, chosen->chain.find('F') != std::string::npos);
				++models[chosen->index].count;
			}
			if (!(expected == effects))
			{
				std::string s;
				for (auto& e : effects) s += e.text() + " ";
				s += " expected: ";
				for (auto& e : expected) s += e.text() + " ";
				mc::fail("consumption", "consumption by the policies: " + s);
			}
			satisfaction();
			mc::state(static_cast<std::uint64_t>(arg) * 31 + (chosen ? chosen->index + 1 : 0) * 7 + want);
		}
		void remove(Model& m)
		{
			mc::note("remove E" + std::to_string(m.index));
			rec::log().events.clear();
			const int before = livePolicies;
			exps[m.index].reset();
			m.alive = false;
			mc::check_eq(before - livePolicies, static_cast<int>(m.specs.size()), "policies_destroyed", "policies destroyed with " + m.text());
			auto& ev = rec::log().events;
			mc::check_eq(static_cast<int>(ev.size()), m.satisfied() ? 0 : 1, "unfulfilled", "reports of removing " + m.text() + " after " + std::to_string(m.count) + " calls");
			for (auto& e : ev)
			{
				if (!mc::check(e.kind == rec::Kind::unfulfilled && e.exp && rec::id_of(e.exp->sourceLocation) == m.index, "unfulfilled", "wrong report")) continue;
				std::vector<std::string> got, want;
				for (auto& d : e.exp->expectationDescriptions)
					if (d && d->find("policy<") != std::string::npos) got.push_back(*d);
					else if (d && d->find("requirement") != std::string::npos) got.push_back("requirement");
				for (auto& d : m.descriptions(0)) want.push_back(d.first);
				mc::check(got == want, "unfulfilled_descriptions", "descriptions in the unfulfilled report of " + m.text());
			}
			satisfaction();
		}
	};

	void start()
	{
		rec::reset();
		effects.clear();
		livePolicies = 0;
		std::memset(consumed, 0, sizeof consumed);
	}

	int customs(const std::string& s) { return static_cast<int>(std::count(s.begin(), s.end(), 'C') + std::count(s.begin(), s.end(), 'c')); }

	enum Menu { wide, narrow, throwing };
	Model choose_model(const std::string& chain, Menu menu)
	{
		Model m;
		const int n = customs(chain);
		for (int i = 0; i < n; ++i)
		{
			Spec s;
			constexpr int masks[]{3, 1, 0, 2};
			if (menu == wide)
			{
				s.mask = masks[mc::choose(n < 3 || mc::E().thorough ? 4 : 3)];
				s.satisfiedAfter = mc::choose(3);
				if (s.satisfiedAfter == 2) s.satisfiedAfter = n < 3 ? 2 : 99;
				s.described = mc::choose(2) == 0;
			}
			else if (menu == narrow)
			{
				const int c = mc::choose(4);
				s.mask = masks[c % 2];
				s.satisfiedAfter = c / 2;
			}
			else
			{
				const int c = mc::choose(4);
				if (c < 2) s.throwOn = c;
				else s.mask = masks[c - 2];
			}
			m.specs.push_back(s);
		}
		if (chain.find('T') != std::string::npos)
		{
			constexpr std::pair<int, int> ranges[]{{0, 1}, {2, 2}, {1, 3}};
			const auto r = ranges[mc::choose(menu == wide ? 3 : 2)];
			m.min = r.first;
			m.max = r.second;
		}
		if (chain.find('A') != std::string::npos) m.argMask = mc::choose(2) ? 1 : 3;
		return m;
	}

	//! every assignment of verdicts, satisfactions and descriptions to one expectation, every call string
	template <typename Ret>
	void one(const std::vector<Kind<Ret>>& kinds, Menu menu)
	{
		start();
		auto& k = mc::pick_from(kinds);
		World<Ret> w;
		if (menu == throwing && (w.context = mc::choose(ctx::count))) mc::note(std::string{"calls take place"} + ctx::name(w.context));
		w.create(k, choose_model(k.text, menu));
		const int depth = customs(k.text) < 3 || mc::E().thorough ? 3 : 2;
		for (int i = 0; i < depth; ++i)
		{
			const int c = mc::choose(3);
			if (c == 2) break;
			w.call(c);
		}
		w.remove(w.models[0]);
	}

	//! two expectations: no policy of the one that was not chosen may notice anything
	template <typename Ret>
	void two(const std::vector<Kind<Ret>>& kinds)
	{
		start();
		World<Ret> w;
		if ((w.context = mc::choose(3))) mc::note(std::string{"calls take place"} + ctx::name(w.context));
		const int depth = w.context ? 1 : mc::by_tier(3, 4);
		for (int i = 0; i < 2; ++i)
		{
			auto& k = mc::pick_from(kinds);
			w.create(k, choose_model(k.text, narrow));
		}
		for (int i = 0; i < depth; ++i)
		{
			const int c = mc::choose(3);
			if (c == 2) break;
			w.call(c);
		}
		const int first = mc::choose(2);
		w.remove(w.models[first]);
		if (mc::choose(2)) w.call(0);
		w.remove(w.models[1 - first]);
	}

#if PART == 4
	// ---- matchers ------------------------------------------------------------------------------------------------
	struct Base
	{
		int mask;
		std::string text() const { return "custom matcher <" + std::to_string(mask) + ">"; }
		bool test(int v) const { return mask >> v & 1; }
	};
	struct Member : Base // template member, describes with a std::string
	{
		bool matches(const auto& v) const { return test(v); }
		std::string describe() const { return text(); }
	};
	struct MemberMutable : Base // non-const target, describes with a view
	{
		std::shared_ptr<std::string> d = std::make_shared<std::string>(text());
		bool matches(auto& v) const { return test(v); }
		std::string_view describe() const { return *d; }
	};
	struct MemberMoveOnly : Base
	{
		std::unique_ptr<std::string> d;
		explicit MemberMoveOnly(Base b) : Base{b}, d{std::make_unique<std::string>(text())} { }
		bool matches(const int& v) const { return test(v); }
		const char* describe() const { return d->c_str(); }
	};
	struct Trait : Base { };
	struct TraitStatic : Base
	{
		std::shared_ptr<std::string> d = std::make_shared<std::string>(text());
	};
	struct TraitMoveOnly : Base
	{
		std::unique_ptr<int> p{new int};
		explicit TraitMoveOnly(Base b) : Base{b} { }
	};
	struct Mixed : Base // matching by the traits, description by the member
	{
		std::string describe() const { return text(); }
	};
	struct Mixed2 : Base // the other way round
	{
		bool matches(const int& v) const { return test(v); }
	};
	template <typename T>
	struct Tmpl : Base { };
}

template <> struct mimicpp::custom::matcher_traits<Trait>
{
	bool matches(const Trait& m, const auto& v) const { return m.test(v); }
	std::string describe(const Trait& m) const { return m.text(); }
};
template <> struct mimicpp::custom::matcher_traits<TraitStatic>
{
	static constexpr bool matches(const TraitStatic& m, int& v) { return m.test(v); }
	static constexpr bool matches(const TraitStatic& m, const int& v) { return m.test(v); }
	static std::string_view describe(const TraitStatic& m) { return *m.d; }
};
template <> struct mimicpp::custom::matcher_traits<TraitMoveOnly>
{
	bool matches(const TraitMoveOnly& m, const auto& v) const { return m.p && m.test(v); }
	std::string describe(const TraitMoveOnly& m) const { return m.text(); }
};
template <> struct mimicpp::custom::matcher_traits<Mixed>
{
	bool matches(const Mixed& m, const auto& v) const { return m.test(v); }
};
template <> struct mimicpp::custom::matcher_traits<Mixed2>
{
	std::string describe(const Mixed2& m) const { return m.text(); }
};
template <typename T> struct mimicpp::custom::matcher_traits<Tmpl<T>>
{
	bool matches(const Tmpl<T>& m, const T& v) const { return m.test(v); }
	std::string describe(const Tmpl<T>& m) const { return m.text(); }
};

namespace
{
	//! outcome of one call and whether the report carries the description with the right verdict
	template <typename MockT, typename... Args>
	void expect_outcome(const char* what, MockT& mock, bool accepted, const std::string& text, bool mandatory, Args&&... args)
	{
		rec::log().events.clear();
		bool got = true;
		try { mock(std::forward<Args>(args)...); }
		catch (const rec::NoMatch&) { got = false; }
		mc::check_eq(got, accepted, "matcher_verdict", std::string{what} + " " + text);
		auto& ev = rec::log().events;
		if (!mc::check(ev.size() == 1 && ev[0].matches.size() == 1, "matcher_report", "not exactly one report")) return;
		int n = 0;
		for (auto& e : ev[0].matches[0].expectationReports)
			if (e.description && e.description->find(text) != std::string::npos)
			{
				++n;
				mc::check_eq(e.isMatching, accepted, "matcher_report_verdict", std::string{what} + " " + text + ": verdict in the report");
			}
		if (mandatory) mc::check_eq(n, 1, "matcher_description", std::string{what} + " " + text + ": descriptions in the report");
	}

	template <typename M>
	void matcher_case()
	{
		const Base base{mc::choose(8)};
		const int form = mc::choose(9), v = mc::choose(3);
		mc::note("matcher form " + std::to_string(form) + " mask " + std::to_string(base.mask) + " value " + std::to_string(v));
		auto make = [&] { if constexpr (std::is_aggregate_v<M>) return M{base}; else return M(base); };
		const bool want = base.test(v);
		auto close = [](auto&& e) { auto* p = new ScopedExpectation(std::move(e), rec::locs()[0]); return std::unique_ptr<ScopedExpectation>{p}; };
		const auto times = [] { return expect::at_most(1); };
		switch (form)
		{
		case 0:
			if constexpr (std::is_copy_constructible_v<M>)
				if (mc::choose(2))
				{
					const M matcher = make();
					Mock<void(int)> m;
					auto e = close(m.expect_call(matcher) && times());
					expect_outcome("lvalue matcher", m, want, base.text(), true, v);
					break;
				}
			{ Mock<void(int)> m; auto e = close(m.expect_call(make()) && times()); expect_outcome("expect_call", m, want, base.text(), true, v); break; }
		case 1: { Mock<void(const int&)> m; auto e = close(m.expect_call(make()) && times()); expect_outcome("expect_call const&", m, want, base.text(), true, v); break; }
		case 2: { Mock<void(int)> m; auto e = close(m.expect_call(matches::_) && expect::arg<0>(make()) && times()); expect_outcome("expect::arg", m, want, base.text(), true, v); break; }
		case 3:
		{
			Mock<void(int, int)> m;
			auto e = close(m.expect_call(matches::_, make()) && times());
			expect_outcome("second argument", m, want, base.text(), true, 2 - v, v);
			break;
		}
		case 4:
		{
			Mock<void(int)> m;
			auto e = close(m.expect_call(matches::_) && expect::arg<0>(make(), [](int x) { return 2 - x; }) && times());
			expect_outcome("projection", m, base.test(2 - v), base.text(), true, v);
			break;
		}
		case 5: case 6: case 7:
		{
			std::vector<int> r;
			const int n = mc::choose(4);
			bool all = true, any = false;
			for (int i = 0; i < n; ++i)
			{
				r.push_back(i == 0 ? v : mc::choose(3));
				all = all && base.test(r.back());
				any = any || base.test(r.back());
			}
			Mock<void(std::vector<int>)> m;
			auto run = [&](auto&& matcher, bool want2, const char* what)
			{
				auto e = close(m.expect_call(std::move(matcher)) && times());
				expect_outcome(what, m, want2, base.text(), true, r);
			};
			if (form == 5) run(matches::range::each_element(make()), all, "each_element");
			else if (form == 6) run(matches::range::any_element(make()), any, "any_element");
			else run(!matches::range::any_element(make()), !any, "no element");
			break;
		}
		default: // conjunction of the requirement with itself and another one
		{
			const Base other{mc::choose(8)};
			auto make2 = [&] { if constexpr (std::is_aggregate_v<M>) return M{other}; else return M(other); };
			Mock<void(int)> m;
			auto e = close(m.expect_call(make()) && expect::arg<0>(make2()) && times());
			if (other.mask == base.mask) expect_outcome("conjunction", m, want, "custom matcher <9>", false, v);
			else
			{
				const bool both = want && other.test(v);
				bool got = true;
				int x = v;
				rec::log().events.clear();
				try { m(x); } catch (const rec::NoMatch&) { got = false; }
				mc::check_eq(got, both, "matcher_verdict", "conjunction of two custom matchers");
				auto& ev = rec::log().events;
				std::string order;
				if (ev.size() == 1 && ev[0].matches.size() == 1)
					for (auto& r : ev[0].matches[0].expectationReports)
						if (r.description)
						{
							if (r.description->find(base.text()) != std::string::npos) order += r.isMatching ? "A+" : "A-";
							if (r.description->find(other.text()) != std::string::npos) order += r.isMatching ? "B+" : "B-";
						}
				mc::check_eq(order, std::string{want ? "A+" : "A-"} + (other.test(v) ? "B+" : "B-"), "matcher_descriptions", "descriptions of two custom matchers in order");
			}
		}
		}
		mc::state(static_cast<std::uint64_t>(form * 100 + base.mask * 10 + v));
	}

	void matchers()
	{
		rec::reset();
		switch (mc::choose(8))
		{
		case 0: mc::note("member"); matcher_case<Member>(); break;
		case 1: mc::note("member, mutable target"); matcher_case<MemberMutable>(); break;
		case 2: mc::note("member, move-only"); matcher_case<MemberMoveOnly>(); break;
		case 3: mc::note("traits"); matcher_case<Trait>(); break;
		case 4: mc::note("static traits"); matcher_case<TraitStatic>(); break;
		case 5: mc::note("traits, move-only"); matcher_case<TraitMoveOnly>(); break;
		case 6: mc::note("traits + member description"); matcher_case<Mixed>(); break;
		default: mc::note("partially specialized traits"); matcher_case<Tmpl<int>>(); break;
		}
	}
#endif
}

int main(int argc, char** argv)
{
#if PART == 0
	using K = Kind<void>;
	static const std::vector<K> kinds{
		kind<void, 'C'>(), kind<void, 'C', 'C'>(), kind<void, 'c', 'C'>(), kind<void, 'C', 'c'>(),
		kind<void, 'T', 'C', 'C'>(), kind<void, 'C', 'T', 'C'>(), kind<void, 'C', 'C', 'T'>(),
		kind<void, 'A', 'C', 'C'>(), kind<void, 'C', 'A', 'C'>(), kind<void, 'C', 'C', 'A'>(),
		kind<void, 'E', 'C', 'C'>(), kind<void, 'C', 'E', 'C'>(), kind<void, 'C', 'C', 'E'>(),
		kind<void, 'S', 'C', 'C'>(), kind<void, 'C', 'S', 'C'>(), kind<void, 'C', 'C', 'S'>(),
		kind<void, 'F', 'C', 'C'>(), kind<void, 'C', 'F', 'C'>(), kind<void, 'C', 'C', 'F'>()};
	return mc::main(argc, argv, {{"one expectation", [] { one(kinds, wide); }}, {"throwing policies", [] { one(kinds, throwing); }}}, 5);
#elif PART == 1
	using K = Kind<int>;
	static const std::vector<K> kinds{
		kind<int, 'R', 'C', 'C'>(), kind<int, 'C', 'R', 'C'>(), kind<int, 'C', 'C', 'R'>(),
		kind<int, 'F', 'C', 'T', 'C'>(), kind<int, 'T', 'C', 'F', 'C'>(), kind<int, 'C', 'S', 'C', 'F'>(),
		kind<int, 'C', 'S', 'F', 'C', 'E'>(), kind<int, 'E', 'C', 'E', 'C', 'F'>(), kind<int, 'A', 'C', 'R', 'T', 'C'>(),
		kind<int, 'S', 'R', 'c', 'A', 'c', 'T', 'E'>()};
	return mc::main(argc, argv, {{"one expectation", [] { one(kinds, wide); }}, {"throwing policies", [] { one(kinds, throwing); }}}, 5);
#elif PART == 2
	using K = Kind<void>;
	static const std::vector<K> kinds{
		kind<void, 'C', 'C', 'C'>(), kind<void, 'C', 'E', 'C', 'A', 'C', 'T'>(), kind<void, 'T', 'C', 'C', 'F', 'C'>()};
	return mc::main(argc, argv, {{"three policies", [] { one(kinds, wide); }}, {"throwing policies", [] { one(kinds, throwing); }}}, 5);
#elif PART == 3
	using K = Kind<void>;
	using I = Kind<int>;
	static const std::vector<K> kinds{kind<void, 'C', 'C'>(), kind<void, 'C', 'E', 'T', 'C'>(), kind<void, 'A', 'C', 'S'>(), kind<void>(), kind<void, 'E'>()};
	static const std::vector<I> ikinds{kind<int, 'C', 'R', 'C'>(), kind<int, 'T', 'F', 'C', 'E'>()};
	return mc::main(argc, argv, {{"two expectations", [] { two(kinds); }}, {"two expectations with results", [] { two(ikinds); }}}, 5);
#else
	return mc::main(argc, argv, {{"matchers", matchers}}, 3);
#endif
}
