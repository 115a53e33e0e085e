// Scenario families over core::World.
#pragma once
#include "core.hpp"

namespace core
{
	struct HistoryBounds
	{
		int depth;
		std::vector<Spec> specs;
		int mocks{1};
		int args{2};
		std::vector<bool> greedy{};
		bool destroySequences{};
		int maxLive{99};
		bool newestFirst{true};
		int locMod{};
		bool contexts{};                     // under each of the circumstances of ctx.hpp
	};

	// every interleaving of create / call / remove (/ destroy sequence object) up to a depth
	inline void histories(unsigned tags, const HistoryBounds& b)
	{
		World w{tags, b.mocks, b.greedy};
		w.locMod = b.locMod;
		if (b.contexts) mc::note("everything", ctx::name(w.context = 1 + mc::choose(ctx::count - 1)));
		for (int d = 0; d < b.depth && !w.stop(); ++d)
		{
			const auto live = w.live();
			const int nCalls = b.mocks * b.args;
			std::vector<int> creatable;
			// never end with a creation: nothing would exercise it any further
			if (d + 1 < b.depth && static_cast<int>(live.size()) < b.maxLive)
				for (std::size_t i = 0; i < b.specs.size(); ++i)
				{
					bool ok = true;
					for (int q : b.specs[i].seqs) ok = ok && w.m.seqs[q].object;
					if (ok) creatable.push_back(static_cast<int>(i));
				}
			std::vector<int> objs;
			if (b.destroySequences)
				for (std::size_t q = 0; q < w.m.seqs.size(); ++q) if (w.m.seqs[q].object) objs.push_back(static_cast<int>(q));
			const int nCreate = static_cast<int>(creatable.size());
			const int nLive = static_cast<int>(live.size());
			int c = mc::choose(nCalls + nCreate + nLive + static_cast<int>(objs.size()));
			if (c < nCalls) w.call(c / b.args, c % b.args);
			else if (c -= nCalls; c < nCreate) w.create(b.specs[creatable[c]]);
			else if (c -= nCreate; c < nLive) w.destroy(live[c]);
			else w.destroy_sequence(objs[c - nLive]);
		}
		w.finish(b.newestFirst);
		for (int q = 0; q < static_cast<int>(w.m.seqs.size()) && !w.stop(); ++q) if (w.m.seqs[q].object) w.destroy_sequence(q);
	}

	using Times = std::pair<int, int>;

	struct PresetBounds
	{
		int n;
		std::vector<Times> times;
		int masks{3};                        // non-empty subsets of the arguments
		int args{2};
		int calls;
		std::vector<bool> greedy{};
		std::vector<std::vector<int>> attach{{}}; // possible attachments of an element
		int mocks{1};                        // elements are spread round-robin... by choice
		bool newestFirst{false};
		int locMod{};
		bool contexts{};
		bool chooseEnd{false};               // every combination of: sequence objects first/last, newest/oldest expectation first
	};

	// first all expectations (every combination of specs), then every call string
	inline void preset(unsigned tags, const PresetBounds& b)
	{
		World w{tags, b.mocks, b.greedy};
		w.locMod = b.locMod;
		if (b.contexts) mc::note("everything", ctx::name(w.context = 1 + mc::choose(ctx::count - 1)));
		for (int i = 0; i < b.n; ++i)
		{
			auto [mn, mx] = mc::pick_from(b.times);
			Spec s{.mask = 1 + mc::choose(b.masks), .min = mn, .max = mx};
			if (b.attach.size() > 1) s.seqs = mc::pick_from(b.attach);
			else s.seqs = b.attach[0];
			if (b.mocks > 1) s.mock = mc::choose(b.mocks);
			w.create(s);
		}
		for (int i = 0; i < b.calls && !w.stop(); ++i)
		{
			int c = mc::choose(b.args * b.mocks);
			w.call(c / b.args, c % b.args);
		}
		const int end = b.chooseEnd ? mc::choose(4) : b.newestFirst ? 1 : 0;
		if (end & 2)
			for (int q = 0; q < static_cast<int>(w.m.seqs.size()) && !w.stop(); ++q) w.destroy_sequence(q);
		w.finish(end & 1);
		for (int q = 0; q < static_cast<int>(w.m.seqs.size()) && !w.stop(); ++q) if (w.m.seqs[q].object) w.destroy_sequence(q);
	}

	struct ManyBounds
	{
		std::vector<int> sizes;
		Times normal{1, 1};
		std::vector<Times> special{{0, 2}};
		int positions{};                     // of the special expectation: 0 = all, otherwise spread evenly
		bool removeOne{};
		std::vector<bool> greedy{};
		std::vector<std::vector<int>> attach{{}}; // of all expectations alike
		bool mixedMasks{};                   // every third expectation accepts another argument, too
	};

	// many expectations, one of which differs (at every position), one of which may be removed (at every position); called until all are saturated
	inline void many(unsigned tags, const ManyBounds& b)
	{
		World w{tags, 1, b.greedy};
		const int n = mc::pick_from(b.sizes);
		auto position = [&] { return b.positions == 0 || b.positions >= n ? mc::choose(n) : mc::choose(b.positions) * (n - 1) / (b.positions - 1); };
		const int k = position();
		const auto sp = mc::pick_from(b.special);
		const auto seqs = mc::pick_from(b.attach);
		const int arg = mc::choose(b.mixedMasks ? 2 : 1);
		for (int i = 0; i < n && !w.stop(); ++i)
		{
			Spec s{.mask = b.mixedMasks && i % 3 == 0 ? 3 : 1, .min = b.normal.first, .max = b.normal.second, .seqs = seqs};
			if (i == k) { s.mask = 3; s.min = sp.first; s.max = sp.second; }
			w.create(s);
		}
		const int when = b.removeOne ? mc::choose(3) : -1;
		const int gone = b.removeOne ? position() : -1;
		if (when == 0 && !w.stop()) w.destroy(gone);
		const int calls = std::min(n * (b.normal.second == INT_MAX ? 1 : b.normal.second) + 2, 400);
		for (int c = 0; c < calls && !w.stop(); ++c)
		{
			if (when == 1 && c == calls / 2) w.destroy(gone);
			w.call(0, arg);
		}
		if (when == 2 && !w.stop()) w.destroy(gone);
		w.finish(mc::choose_bool());
		for (int q = 0; q < static_cast<int>(w.m.seqs.size()) && !w.stop(); ++q) if (w.m.seqs[q].object) w.destroy_sequence(q);
	}
}
