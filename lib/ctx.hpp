// The circumstances under which an operation takes place.
#pragma once
#include <exception>
#include <thread>

namespace ctx
{
	enum Kind { plain, unwinding, handler, other_thread, handler_while_unwinding, unwinding_in_handler, count };
	inline const char* name(int k)
	{
		static const char* const n[] = {"", " while unwinding", " inside a handler", " on another thread", " inside a handler while unwinding", " while unwinding inside a handler"};
		return n[k];
	}
	// an exception that is in flight and not caught within
	inline bool in_flight(int k) { return k == unwinding || k == handler_while_unwinding || k == unwinding_in_handler; }

	namespace detail
	{
		struct Marker {};
		template <typename Fn>
		struct Guard
		{
			Fn& fn;
			~Guard() { fn(); }
		};
		template <typename Fn>
		void unwind(Fn fn)
		{
			try { Guard<Fn> g{fn}; throw Marker{}; }
			catch (const Marker&) { }
		}
		template <typename Fn>
		void handle(Fn fn)
		{
			try { throw Marker{}; }
			catch (const Marker&) { fn(); }
		}
	}

	// runs fn under the given circumstances and hands on what it throws
	template <typename Fn>
	void run(int kind, Fn&& fn)
	{
		if (kind == plain) { fn(); return; }
		std::exception_ptr thrown{};
		auto guarded = [&] { try { fn(); } catch (...) { thrown = std::current_exception(); } };
		switch (kind)
		{
		case unwinding: detail::unwind(guarded); break;
		case handler: detail::handle(guarded); break;
		case other_thread: std::thread{guarded}.join(); break;
		case handler_while_unwinding: detail::unwind([&] { detail::handle(guarded); }); break;
		default: detail::handle([&] { detail::unwind(guarded); });
		}
		if (thrown) std::rethrow_exception(thrown);
	}
}
