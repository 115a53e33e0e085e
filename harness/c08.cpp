// C08: ownership of expectations across moves of their owners and of the mock.
#include "core.hpp"
using namespace core;
namespace mpp = mimicpp;
using Scoped = mpp::ScopedExpectation;

namespace
{
	constexpr int absent = -2, empty = -1;

	struct Ownership
	{
		Model m{};
		std::vector<MockT*> mocks;
		std::vector<int> route;   // which collection (index at creation time) a mock object currently has; -1: moved-from
		int nextRoute{};
		std::vector<Scoped*> slot;
		std::vector<int> owns;    // absent / empty / id
		std::vector<int> endReports;
		bool throwing{};
		int context{}; // circumstances of every operation
		int locMod{1000}; // expectations share that many source locations

		Ownership(int nMocks, int nSlots, bool doThrow) : slot(nSlots, nullptr), owns(nSlots, absent), throwing{doThrow}
		{
			rec::reset();
			for (int i = 0; i < nMocks; ++i) { mocks.push_back(new MockT{}); route.push_back(nextRoute++); }
		}
		~Ownership()
		{
			rec::log().throwUnfulfilled = false;
			for (auto* p : slot) delete p;
			for (auto* p : mocks) delete p;
		}

		Scoped make(int mock, const Spec& sp)
		{
			Spec s = sp;
			s.mock = route[mock];
			int id = m.create(s);
			return Scoped{
				mocks[mock]->expect_call(mpp::matches::predicate([mask = s.mask](const int& v) { return (mask >> v & 1) != 0; }))
				and mpp::expect::times(s.min, s.max)
				and mpp::finally::returns(1000 + id), rec::locs()[id % locMod]};
		}

		// runs fn, which is expected to end the lives of exactly `ended` (id or -1)
		template <typename Fn>
		void ending(const char* what, int ended, Fn fn)
		{
			const auto before = rec::log().events.size();
			const bool unsat = ended >= 0 && !m.exps[ended].satisfied();
			bool threw = false;
			rec::log().throwUnfulfilled = throwing;
			try { ctx::run(context, fn); }
			catch (const rec::Unfulfilled&) { threw = true; }
			rec::log().throwUnfulfilled = false;
			if (ended >= 0) m.exps[ended].alive = false;
			mc::check(threw == (unsat && throwing && !ctx::in_flight(context)), what, ": reporter's exception ", threw ? "left the operation unexpectedly" : "got lost");
			std::size_t n = rec::log().events.size() - before;
			if (mc::check(n == (unsat ? 1u : 0u), what, ": issued ", n, " report(s), expected ", unsat ? 1 : 0) && n == 1)
			{
				auto& ev = rec::log().events.back();
				mc::check(ev.kind == rec::Kind::unfulfilled && rec::id_of(ev.exp->sourceLocation) == ended % locMod, what, ": the report concerns another expectation");
			}
		}

		void verify(const char* what)
		{
			for (std::size_t i = 0; i < slot.size(); ++i)
			{
				if (owns[i] < 0) continue;
				mc::check(slot[i]->is_satisfied() == m.exps[owns[i]].satisfied(), "after ", what, ": owner ", i, " answers is_satisfied for another expectation");
				mc::check(rec::id_of(slot[i]->from()) == owns[i] % locMod, "after ", what, ": owner ", i, " names the location of another expectation");
			}
			std::string k = m.key();
			for (int o : owns) k += "|" + std::to_string(o);
			for (int r : route) k += "/" + std::to_string(r);
			mc::state(k);
		}

		void call(int mock, int arg)
		{
			int value = arg, got = -1;
			const int expected = m.choose(route[mock], arg);
			try { ctx::run(context, [&] { got = (*mocks[mock])(value) - 1000; }); }
			catch (const rec::NoMatch&) {}
			catch (const rec::Inapplicable&) {}
			mc::note("call mock ", mock, " -> ", got);
			mc::observe(static_cast<std::uint64_t>(got + 2));
			mc::check_eq(got, expected, "call was answered by the wrong expectation");
			if (expected >= 0) m.consume(expected);
		}
	};

	const std::vector<Spec> specs{{.mask = 1}, {.mask = 1, .min = 0, .max = 2}};

	void scenario(int depth, int nMocks, int nSlots, bool moveMocks, int nSpecs, int locMod = 1000, bool contexts = false)
	{
		Ownership o{nMocks, nSlots, mc::choose_bool()};
		o.locMod = locMod;
		if (contexts) mc::note("everything", ctx::name(o.context = 1 + mc::choose(ctx::count - 1)));
		for (int d = 0; d < depth && !mc::violated(); ++d)
		{
			struct Op { int kind, a, b; };
			std::vector<Op> ops;
			int freeSlot = -1;
			for (int i = 0; i < nSlots; ++i) if (o.owns[i] == absent) { freeSlot = i; break; }
			for (int q = 0; q < nMocks; ++q)
			{
				if (!o.mocks[q] || o.route[q] < 0) continue;
				ops.push_back({0, q, 0});
				for (int s = 0; s < nSpecs; ++s) if (freeSlot >= 0 && d + 1 < depth) ops.push_back({1, q, s});
				if (d + 1 < depth) for (int i = 0; i < nSlots; ++i) if (o.owns[i] != absent) ops.push_back({2, q, i});
				if (moveMocks)
				{
					ops.push_back({3, q, 0}); // relocate
					ops.push_back({4, q, 0}); // destroy
					for (int t = 0; t < nMocks; ++t) if (t != q && o.mocks[t]) ops.push_back({5, q, t});
				}
			}
			for (int i = 0; i < nSlots; ++i)
			{
				if (o.owns[i] == absent) continue;
				ops.push_back({6, i, 0}); // destroy owner
				if (freeSlot >= 0) ops.push_back({7, i, freeSlot}); // move construct
				for (int j = 0; j < nSlots; ++j)
				{
					if (j == i || o.owns[j] == absent) continue;
					ops.push_back({8, i, j}); // j = move(i)
					if (i < j) ops.push_back({9, i, j});
				}
			}
			if (ops.empty()) break;
			const Op op = mc::pick_from(ops);
			switch (op.kind)
			{
			case 0: o.call(op.a, 0); break;
			case 1:
				mc::note("create E", o.m.exps.size(), " of mock ", op.a, " in owner ", freeSlot);
				o.slot[freeSlot] = new Scoped{o.make(op.a, specs[op.b])};
				o.owns[freeSlot] = static_cast<int>(o.m.exps.size()) - 1;
				break;
			case 2:
			{
				mc::note("owner ", op.b, " = new E", o.m.exps.size(), " of mock ", op.a);
				const int old = o.owns[op.b];
				o.owns[op.b] = static_cast<int>(o.m.exps.size());
				o.ending("assigning a new expectation", old, [&] { *o.slot[op.b] = o.make(op.a, specs[0]); });
				break;
			}
			case 3:
			{
				mc::note("relocate mock ", op.a);
				auto* n = new MockT{std::move(*o.mocks[op.a])};
				delete std::exchange(o.mocks[op.a], n);
				break;
			}
			case 4:
				mc::note("destroy mock ", op.a);
				o.ending("destroying a mock", -1, [&] { delete std::exchange(o.mocks[op.a], nullptr); });
				break;
			case 5:
				mc::note("mock ", op.b, " = move(mock ", op.a, ")");
				o.ending("move-assigning a mock", -1, [&] { *o.mocks[op.b] = std::move(*o.mocks[op.a]); });
				o.route[op.b] = std::exchange(o.route[op.a], -1);
				break;
			case 6:
			{
				mc::note("destroy owner ", op.a);
				auto* p = std::exchange(o.slot[op.a], nullptr);
				const int old = std::exchange(o.owns[op.a], absent);
				o.ending("destroying an owner", old, [&] { delete p; });
				break;
			}
			case 7:
				mc::note("move-construct owner ", op.b, " from ", op.a);
				o.ending("move-construction", -1, [&] { o.slot[op.b] = new Scoped{std::move(*o.slot[op.a])}; });
				o.owns[op.b] = std::exchange(o.owns[op.a], empty);
				break;
			case 8:
			{
				mc::note("owner ", op.b, " = move(owner ", op.a, ")");
				const int old = o.owns[op.b];
				o.owns[op.b] = std::exchange(o.owns[op.a], empty);
				o.ending("move-assignment", old, [&] { *o.slot[op.b] = std::move(*o.slot[op.a]); });
				break;
			}
			case 9:
				mc::note("swap owners ", op.a, " ", op.b);
				o.ending("swap", -1, [&] { std::swap(*o.slot[op.a], *o.slot[op.b]); });
				std::swap(o.owns[op.a], o.owns[op.b]);
				break;
			}
			o.verify("operation");
		}
		for (std::size_t q = 0; q < o.mocks.size() && !mc::violated(); ++q) if (o.mocks[q] && o.route[q] >= 0) o.call(static_cast<int>(q), 0);
		for (int i = 0; i < nSlots && !mc::violated(); ++i)
		{
			if (!o.slot[i]) continue;
			auto* p = std::exchange(o.slot[i], nullptr);
			const int old = std::exchange(o.owns[i], absent);
			o.ending("destroying an owner at the end", old, [&] { delete p; });
		}
	}

	// owners inside a growing, shrinking and reordered std::vector
	void container(int depth, int locMod = 1000)
	{
		Ownership o{1, 0, false};
		o.locMod = locMod;
		std::vector<Scoped> v;
		std::vector<int> ids;
		for (int d = 0; d < depth && !mc::violated(); ++d)
		{
			const int n = static_cast<int>(ids.size());
			const int c = mc::choose(4 + 2 * n + (n > 1 ? n - 1 : 0));
			if (c == 0) o.call(0, 0);
			else if (c <= 2)
			{
				mc::note("push_back E", o.m.exps.size());
				ids.push_back(static_cast<int>(o.m.exps.size()));
				v.push_back(o.make(0, specs[c - 1]));
			}
			else if (c == 3)
			{
				mc::note("insert E", o.m.exps.size(), " at begin");
				ids.insert(ids.begin(), static_cast<int>(o.m.exps.size()));
				v.insert(v.begin(), o.make(0, specs[0]));
			}
			else if (c < 4 + n)
			{
				const int k = c - 4, id = ids[k];
				mc::note("erase element ", k);
				ids.erase(ids.begin() + k);
				o.ending("erasing from a vector", id, [&] { v.erase(v.begin() + k); });
			}
			else if (c < 4 + 2 * n)
			{
				const int k = c - 4 - n;
				mc::note("rotate by ", k);
				std::rotate(ids.begin(), ids.begin() + k, ids.end());
				o.ending("rotating", -1, [&] { std::rotate(v.begin(), v.begin() + k, v.end()); });
			}
			else
			{
				const int k = c - 4 - 2 * n;
				mc::note("swap elements ", k);
				std::swap(ids[k], ids[k + 1]);
				o.ending("swapping", -1, [&] { std::swap(v[k], v[k + 1]); });
			}
			for (std::size_t i = 0; i < ids.size() && !mc::violated(); ++i)
			{
				mc::check(v[i].is_satisfied() == o.m.exps[ids[i]].satisfied(), "element ", i, " answers is_satisfied for another expectation");
				mc::check(rec::id_of(v[i].from()) == ids[i] % o.locMod, "element ", i, " names the location of another expectation");
			}
			mc::state(o.m.key());
		}
		if (mc::violated()) return;
		o.call(0, 0);
		std::size_t unsat = 0;
		for (int id : ids) { unsat += !o.m.exps[id].satisfied(); o.m.exps[id].alive = false; }
		const auto before = rec::log().events.size();
		v.clear();
		mc::check_eq(rec::log().events.size() - before, unsat, "reports while clearing a vector of owners");
	}
}

int main(int argc, char** argv)
{
	using mc::by_tier;
	const bool asan =
#ifdef __SANITIZE_ADDRESS__
		true;
#else
		false;
#endif
	return mc::main(argc, argv, {
		{"owners", [=] { scenario(asan ? by_tier(4, 5) : by_tier(6, 7), 1, 3, false, 2); }},
		{"owners-and-mocks", [=] { scenario(asan ? by_tier(4, 5) : by_tier(5, 6), 2, 2, true, 1); }},
		{"one-mock-moving", [=] { scenario(asan ? by_tier(4, 5) : by_tier(6, 7), 1, 2, true, 1); }},
		{"vector", [=] { container(asan ? by_tier(4, 5) : by_tier(6, 7)); }},
		{"contexts", [=] { scenario(asan ? by_tier(3, 4) : by_tier(4, 5), 1, 2, false, 2, 1000, true); }},
		{"contexts-mocks", [=] { scenario(asan ? by_tier(3, 4) : by_tier(4, 5), 2, 2, true, 1, 1000, true); }},
		{"owners-one-location", [=] { scenario(asan ? by_tier(3, 4) : by_tier(5, 6), 1, 3, false, 2, 1); }},
		{"vector-one-location", [=] { container(asan ? by_tier(3, 4) : by_tier(5, 6), 1); }},
	}, 3);
}
