// C25: histories of reports inside a running test case of a framework; the framework's part is supplied by the harness.
#pragma once
#include "mc.hpp"
#include "mimic++/mimic++.hpp"
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <vector>

namespace c25
{
	using namespace mimicpp;

	enum class Kind { success, message, failure };
	struct Event
	{
		Kind kind;
		std::string text;
	};
	struct Observed
	{
		std::vector<Event> events;  // in order, those of the adapter
		int foreignFailures{};      // failures the framework found itself (escaped exceptions)
		bool passed{};              // the verdict on the test case
		int testCases{};            // finished
	};

	struct Framework
	{
		std::string name;
		bool messages;                 // the framework has a channel for non-failing messages
		bool successIsMessage;         // no record of a success other than a message
		int foreignPerAbort;           // failures the framework adds itself for the exception that aborts
		std::function<Observed(const std::function<void()>&)> run;
		std::function<void()> install; // the reporter the adapter installs by inclusion
		std::function<void(const std::string&)> error; // report_error of that reporter
	};

	struct UserException { };
	struct MatcherException { };

	enum Op
	{
		accepted, unmatched, inapplicable, unfulfilled, satisfied, error, throwing_match, throwing_no_match, live_unfulfilled, user_exception,
		unwinding_accepted, unwinding_unfulfilled, unwinding_sequence, unwinding_error, unwinding_throwing_match, unwinding_unmatched, opCount
	};
	inline const char* name(int o)
	{
		constexpr const char* n[] = {
			"accepted call", "unmatched call", "inapplicable call", "removal of an unfulfilled expectation", "removal of a satisfied expectation", "error report", "call with throwing and matching expectation",
			"call with throwing expectation", "unfulfilled expectation until the end", "exception of the test", "accepted call while unwinding", "removal of an unfulfilled expectation while unwinding",
			"incomplete sequence ends while unwinding", "error report while unwinding", "call with throwing and matching expectation while unwinding", "unmatched call (handled) while unwinding"};
		return n[o];
	}
	struct Step { int op; bool handled; };
	inline bool can_abort(int o) { return o == unmatched || o == inapplicable || o == unfulfilled || o == error || o == throwing_no_match || o == user_exception; }

	struct Expected { Kind kind; std::string marker; };

	const std::string odd = "{} {0} %s %n <&> \\n\ttab";

	struct Run
	{
		const std::vector<Step>& steps;
		const Framework& fw;
		bool reachedEnd{};
		std::size_t progress{};

		// the actions, all through the public interface
		static void call(Mock<void(int, std::string)>& m, int v) { m(v, odd); }
		void act(int op, int v)
		{
			Mock<void(int, std::string)> m{};
			switch (op)
			{
			case accepted: { ScopedExpectation e = m.expect_call(v, matches::_); call(m, v); break; }
			case unmatched: { ScopedExpectation e = m.expect_call(v + 5, matches::_) && expect::at_most(1); call(m, v); break; }
			case inapplicable: { ScopedExpectation e = m.expect_call(v, matches::_) && expect::times(0); call(m, v); break; }
			case unfulfilled: { ScopedExpectation e = m.expect_call(v, matches::_); break; }
			case satisfied: { ScopedExpectation e = m.expect_call(v, matches::_) && expect::at_most(1); break; }
			case error: fw.error("error " + std::to_string(v) + " " + odd); break;
			case throwing_match: case throwing_no_match:
			{
				std::optional<ScopedExpectation> e;
				if (op == throwing_match) e.emplace(m.expect_call(v, matches::_));
				ScopedExpectation t = m.expect_call(matches::predicate([](int) -> bool { throw MatcherException{}; }), matches::_) && expect::at_most(1);
				call(m, v);
				break;
			}
			case user_exception: throw UserException{};
			default: break;
			}
		}
		struct Guard
		{
			Run& r;
			int op, v;
			~Guard() noexcept(true)
			{
				switch (op)
				{
				case unwinding_accepted: r.act(accepted, v); break;
				case unwinding_unfulfilled: r.act(unfulfilled, v); break;
				case unwinding_sequence:
				{
					Mock<void(int, std::string)> m{};
					SequenceT s{};
					ScopedExpectation e = m.expect_call(v, matches::_) && expect::in_sequence(s);
					break;
				}
				case unwinding_error: r.act(error, v); break;
				case unwinding_throwing_match: r.act(throwing_match, v); break;
				case unwinding_unmatched:
					try { r.act(unmatched, v); }
					catch (...) { }
					break;
				}
			}
		};
		void from(std::size_t i)
		{
			progress = i;
			if (i == steps.size()) { reachedEnd = true; return; }
			const auto [op, handled] = steps[i];
			const int v = 1000 + 10 * static_cast<int>(i);
			if (op == live_unfulfilled)
			{
				Mock<void(int, std::string)> m{};
				ScopedExpectation e = m.expect_call(v, matches::_);
				from(i + 1);
				return;
			}
			if (op >= unwinding_accepted)
			{
				try
				{
					Guard g{*this, op, v};
					throw UserException{};
				}
				catch (const UserException&) { }
			}
			else if (handled)
			{
				try { act(op, v); }
				catch (...) { }
			}
			else act(op, v);
			from(i + 1);
		}
	};

	//! what has to be observed
	struct Model
	{
		std::vector<Expected> events;
		bool end{true}, abortedByReport{}, userEscapes{};
		Model(const std::vector<Step>& steps)
		{
			std::vector<int> live;
			std::size_t i = 0;
			bool aborted = false;
			for (; i < steps.size() && !aborted; ++i)
			{
				const auto [op, handled] = steps[i];
				const std::string v = std::to_string(1000 + 10 * static_cast<int>(i));
				switch (op)
				{
				case accepted: case unwinding_accepted: events.push_back({Kind::success, v}); break;
				case unmatched: case unwinding_unmatched: case inapplicable: case unfulfilled: case error: events.push_back({Kind::failure, v}); break;
				case throwing_match: case unwinding_throwing_match: events.push_back({Kind::message, v}); events.push_back({Kind::success, v}); break;
				case throwing_no_match: events.push_back({Kind::message, v}); events.push_back({Kind::failure, v}); break;
				case live_unfulfilled: live.push_back(static_cast<int>(i)); break;
				default: break;
				}
				if (can_abort(op) && !handled)
				{
					aborted = true;
					(op == user_exception ? userEscapes : abortedByReport) = true;
				}
			}
			end = !aborted;
			if (!aborted && !live.empty())
			{
				events.push_back({Kind::failure, std::to_string(1000 + 10 * live.back())});
				abortedByReport = true;
			}
		}
	};

	// the same texts without any framework
	inline std::vector<Event>& captured()
	{
		static std::vector<Event> c;
		return c;
	}
	struct CapturedFailure { };
	inline void capture_success(const StringT& s) { captured().push_back({Kind::success, s}); }
	inline void capture_warning(const StringT& s) { captured().push_back({Kind::message, s}); }
	[[noreturn]] inline void capture_failure(const StringT& s) { captured().push_back({Kind::failure, s}); throw CapturedFailure{}; }
	using Capture = BasicReporter<&capture_success, &capture_warning, &capture_failure>;

	inline const char* kind_name(Kind k) { return k == Kind::success ? "success" : k == Kind::message ? "message" : "failure"; }
	inline std::string list(const std::vector<Event>& v)
	{
		std::string s;
		for (auto& e : v) s += std::string{kind_name(e.kind)} + " ";
		return s.empty() ? "nothing" : s;
	}

	inline void history(const Framework& fw, int depth)
	{
		std::vector<Step> steps;
		for (int i = 0; i < depth; ++i)
		{
			const int op = mc::choose(opCount + 1);
			if (op == opCount) break;
			const bool handled = can_abort(op) && mc::choose(2);
			steps.push_back({op, handled});
			mc::note(name(op), handled ? " (handled)" : "");
			if (can_abort(op) && !handled) break;
		}
		const Model model{steps};
		// texts
		captured().clear();
		install_reporter<Capture>();
		{
			Framework plain = fw;
			plain.error = [](const std::string& s) { Capture{}.report_error(s); };
			Run r{steps, plain};
			try { r.from(0); }
			catch (const UserException&) { }
			catch (const CapturedFailure&) { }
		}
		const std::vector<Event> texts = captured();
		// the real thing
		fw.install();
		Run r{steps, fw};
		int runs = 0;
		const Observed o = fw.run([&] {
			++runs;
			r.from(0);
		});
		mc::check_eq(runs, 1, fw.name, ": runs of the test case");
		mc::check_eq(o.testCases, 1, fw.name, ": finished test cases");
		mc::check_eq(r.reachedEnd, model.end, fw.name, ": the end of the test case is reached");
		// the model's view
		std::vector<Event> want;
		std::size_t t = 0;
		mc::check_eq(texts.size(), model.events.size(), fw.name, ": number of reports");
		bool failed = model.userEscapes;
		for (auto& e : model.events)
		{
			if (t >= texts.size()) break;
			mc::check(texts[t].kind == e.kind && texts[t].text.find(e.marker) != std::string::npos, fw.name, ": report ", t, " is not the expected ", kind_name(e.kind));
			failed = failed || e.kind == Kind::failure;
			if (e.kind != Kind::message || fw.messages) want.push_back({e.kind == Kind::success && fw.successIsMessage ? Kind::message : e.kind, texts[t].text});
			++t;
		}
		mc::check_eq(list(o.events), list(want), fw.name, ": events of the framework");
		for (std::size_t i = 0; i < std::min(want.size(), o.events.size()); ++i)
			mc::check(o.events[i].text.find(want[i].text) != std::string::npos, fw.name, ": the ", kind_name(want[i].kind), " lacks the text of the report: <", o.events[i].text, "> instead of <", want[i].text, ">");
		mc::check_eq(o.passed, !failed, fw.name, ": verdict of the framework");
		const int foreign = (model.abortedByReport ? fw.foreignPerAbort : 0) + (model.userEscapes ? 1 : 0);
		mc::check(o.foreignFailures <= foreign, fw.name, ": ", o.foreignFailures, " further failures");
		for (auto& s : steps) mc::state(static_cast<std::uint64_t>(s.op) * 2 + s.handled);
		mc::observe(list(o.events));
	}

	// Runs before anything is installed (every scenario starts in a process of its own): including the adapter suffices.
	inline void inclusion(const Framework& fw)
	{
		const int op = mc::choose(4);
		mc::note("reporter installed by inclusion: ", name(op));
		bool end = false;
		const std::vector<Step> none{};
		const Observed o = fw.run([&] {
			Run r{none, fw};
			r.act(op, 1);
			end = true;
		});
		const int failures = static_cast<int>(std::ranges::count_if(o.events, [](const Event& e) { return e.kind == Kind::failure; }));
		mc::check_eq(failures, op == accepted ? 0 : 1, fw.name, ": failures recorded with the reporter installed by inclusion");
		mc::check(o.passed == (op == accepted) && end == (op == accepted), fw.name, ": the reporter installed by inclusion does not decide the test case");
		mc::observe(static_cast<std::uint64_t>(op));
	}

	template <typename Reporter>
	Framework adapter(std::string name, bool messages, bool successIsMessage, int foreignPerAbort)
	{
		Framework f;
		f.name = std::move(name);
		f.messages = messages;
		f.successIsMessage = successIsMessage;
		f.foreignPerAbort = foreignPerAbort;
		f.install = [] { install_reporter<Reporter>(); };
		f.error = [](const std::string& s) { Reporter{}.report_error(s); };
		return f;
	}
}
