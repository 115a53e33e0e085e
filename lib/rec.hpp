// Recording reporter and source-location identities shared by the harnesses.
#pragma once
#include "mimic++/mimic++.hpp"
#include <array>
#include <cstring>
#include <functional>
#include <optional>
#include <source_location>
#include <string>
#include <vector>

namespace rec
{
	enum class Kind { no_match, inapplicable, full, unfulfilled, error, unhandled };
	inline const char* name(Kind k)
	{
		constexpr const char* n[] = {"no-match", "inapplicable", "full-match", "unfulfilled", "error", "unhandled-exception"};
		return n[static_cast<int>(k)];
	}

	struct Event
	{
		Kind kind;
		std::optional<mimicpp::CallReport> call{};
		std::vector<mimicpp::MatchReport> matches{};
		std::optional<mimicpp::ExpectationReport> exp{};
		std::string text{};
		std::exception_ptr ex{};
		int effectsBefore{}; // number of callback log entries at the time of the report
	};

	struct NoMatch { };
	struct Inapplicable { };
	struct Unfulfilled { };
	struct SequenceError { };

	struct Log
	{
		std::vector<Event> events;
		bool throwUnfulfilled{false};
		bool throwError{false};
		int effects{};
		std::function<void(const Event&)> onEvent;
	};
	inline Log& log()
	{
		static Log l;
		return l;
	}

	class Reporter final : public mimicpp::IReporter
	{
		static void push(Event e)
		{
			e.effectsBefore = log().effects;
			log().events.push_back(std::move(e));
			if (log().onEvent) log().onEvent(log().events.back());
		}

	public:
		[[noreturn]] void report_no_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> m) override
		{
			push({.kind = Kind::no_match, .call = std::move(call), .matches = std::move(m)});
			throw NoMatch{};
		}
		[[noreturn]] void report_inapplicable_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> m) override
		{
			push({.kind = Kind::inapplicable, .call = std::move(call), .matches = std::move(m)});
			throw Inapplicable{};
		}
		void report_full_match(mimicpp::CallReport call, mimicpp::MatchReport m) noexcept override
		{
			std::vector<mimicpp::MatchReport> v;
			v.push_back(std::move(m));
			push({.kind = Kind::full, .call = std::move(call), .matches = std::move(v)});
		}
		void report_unfulfilled_expectation(mimicpp::ExpectationReport e) override
		{
			push({.kind = Kind::unfulfilled, .exp = std::move(e)});
			if (log().throwUnfulfilled && std::uncaught_exceptions() == 0) throw Unfulfilled{};
		}
		void report_error(mimicpp::StringT msg) override
		{
			push({.kind = Kind::error, .text = std::move(msg)});
			if (log().throwError && std::uncaught_exceptions() == 0) throw SequenceError{};
		}
		void report_unhandled_exception(mimicpp::CallReport call, mimicpp::ExpectationReport e, std::exception_ptr ex) override
		{
			push({.kind = Kind::unhandled, .call = std::move(call), .exp = std::move(e), .ex = std::move(ex)});
		}
	};

	//! call at the begin of each execution
	inline void reset()
	{
		static bool installed = (mimicpp::install_reporter<Reporter>(), true);
		(void)installed;
		log().events.clear();
		log().throwUnfulfilled = log().throwError = false;
		log().effects = 0;
		log().onEvent = nullptr;
	}

	//! all integers contained in a text
	inline std::vector<long> integers(const std::string& s)
	{
		std::vector<long> r;
		for (std::size_t i = 0; i < s.size();)
		{
			if (s[i] < '0' || s[i] > '9') { ++i; continue; }
			std::size_t n = 0;
			bool neg = i > 0 && s[i - 1] == '-';
			long v = std::stol(s.substr(i), &n);
			r.push_back(neg ? -v : v);
			i += n;
		}
		return r;
	}

	// distinct source locations usable as identities
	inline std::source_location here(std::source_location l = std::source_location::current()) { return l; }
	inline const std::array<std::source_location, 320>& locs()
	{
		static const std::array<std::source_location, 320> a{
#include "locs.inc"
		};
		return a;
	}
	inline int id_of(const std::source_location& l)
	{
		// one entry per line of locs.inc
		static const unsigned first = locs()[0].line();
		const unsigned i = l.line() - first;
		if (l.line() >= first && i < locs().size() && locs()[i].line() == l.line() && 0 == std::strcmp(locs()[i].file_name(), l.file_name())) return static_cast<int>(i);
		return -1;
	}
	inline int id_of(const std::optional<std::source_location>& l) { return l ? id_of(*l) : -2; }
}
