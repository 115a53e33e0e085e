// hand-written shapes: several methods, several bases
namespace fixed
{
	struct A { virtual ~A() = default; virtual int foo(int) = 0; virtual int bar(int) const = 0; };
	struct B { virtual ~B() = default; virtual int foo(int) = 0; virtual int foo(int) const noexcept = 0; };
	struct AB final : A, B
	{
		MOCK_OVERLOADED_METHOD(foo, ADD_OVERLOAD(int, (int)), ADD_OVERLOAD(int, (int), const noexcept));
		MOCK_METHOD(bar, int, (int), const);
	};
	// a method shared by both bases, an overload of one of them and another method
	inline void multiple()
	{
		rec::reset();
		AB m{};
		mimicpp::ScopedExpectation e0 = m.foo_.expect_call(1) and mimicpp::expect::times(0, 9) and mimicpp::finally::returns(100);
		mimicpp::ScopedExpectation e1 = std::as_const(m.foo_).expect_call(1) and mimicpp::expect::times(0, 9) and mimicpp::finally::returns(101);
		mimicpp::ScopedExpectation e2 = m.bar_.expect_call(1) and mimicpp::expect::times(0, 9) and mimicpp::finally::returns(102);
		for (int n = 0; n < 3; ++n)
		{
			const int c = mc::choose(6);
			A& a = m;
			B& b = m;
			int r = -1;
			switch (c)
			{
			case 0: r = a.foo(1); break;
			case 1: r = b.foo(1); break;
			case 2: r = std::as_const(b).foo(1); break;
			case 3: r = a.bar(1); break;
			case 4: r = m.foo(1); break;
			default: r = std::as_const(m).foo(1); break;
			}
			const int want[]{100, 100, 101, 102, 100, 101};
			mc::note("call ", c, " -> ", r);
			mc::check(r == want[c], "call ", c, " returned ", r, " instead of ", want[c]);
		}
	}

	struct Three
	{
		virtual ~Three() = default;
		virtual int a(int) = 0;
		virtual int b(int) = 0;
		virtual std::tuple<int, int> c(std::pair<int, int>, int, std::map<int, int>&) const noexcept = 0;
		virtual int d(int, int, int, int, int, int, int, int, int, int, int, int) = 0;
	};
	struct MThree final : Three
	{
		MOCK_METHOD(a, int, (int));
		MIMICPP_MOCK_METHOD(b, int, (int));
		MOCK_METHOD(c, (std::tuple<int, int>), ((std::pair<int, int>), int, (std::map<int, int>&)), const noexcept);
		MOCK_METHOD(d, int, (int, int, int, int, int, int, int, int, int, int, int, int));
	};
	inline void several()
	{
		rec::reset();
		MThree m{}, other{};
		using namespace mimicpp;
		// every method answers from its own mock of its own object
		ScopedExpectation e[]{
			m.a_.expect_call(matches::_) and expect::times(0, 9) and finally::returns_apply_result_of<0>([](int x) { return 1000 + x; }),
			m.b_.expect_call(matches::_) and expect::times(0, 9) and finally::returns_apply_result_of<0>([](int x) { return 2000 + x; }),
			m.c_.expect_call(matches::_, matches::_, matches::_) and expect::times(0, 9) and finally::returns_apply_all_result_of([](std::pair<int, int> p, int x, std::map<int, int>& q) { return std::tuple{p.first * 10 + p.second, x * 10 + q.at(0)}; }),
			m.d_.expect_call(matches::_, matches::_, matches::_, matches::_, matches::_, matches::_, matches::_, matches::_, matches::_, matches::_, matches::_, matches::_)
				and expect::times(0, 9) and finally::returns_apply_all_result_of([](auto... x) { int r = 0, k = 1; ((r += x * k++), ...); return r; }),
			other.a_.expect_call(matches::_) and expect::times(0, 9) and finally::returns_apply_result_of<0>([](int x) { return 5000 + x; })};
		for (int n = 0; n < 3; ++n)
		{
			const int c = mc::choose(6);
			const int v = c == 3 ? 1 : mc::choose(2);
			Three& i = m;
			Three& o = other;
			std::map<int, int> q{{0, 7}};
			mc::note("call ", c, " with ", v);
			switch (c)
			{
			case 0: mc::check(i.a(v) == 1000 + v, "a is wrong"); break;
			case 1: mc::check(i.b(v) == 2000 + v, "b is wrong"); break;
			case 2: mc::check(std::as_const(i).c({v, 3}, 4 + v, q) == std::tuple{v * 10 + 3, (4 + v) * 10 + 7}, "c is wrong"); break;
			case 3:
				{
					int x[12]{};
					const int hot = mc::choose(12);
					x[hot] = v + 1;
					mc::check(i.d(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11]) == (v + 1) * (hot + 1), "d mixes up argument ", hot);
				}
				break;
			case 4: mc::check(o.a(v) == 5000 + v, "other.a is wrong"); break;
			default:
				{
					bool thrown = false;
					try { (void)o.b(v); }
					catch (const rec::NoMatch&) { thrown = true; }
					mc::check(thrown, "other.b has no expectation");
				}
			}
		}
	}

	// mocks are classes like others: they can be derived from, sit on virtual bases and behind further interfaces
	struct Root { virtual ~Root() = default; virtual int a(int) = 0; virtual int b(int) const = 0; };
	struct Left : virtual Root { virtual int c(int&) = 0; };
	struct Right : virtual Root { int b(int) const override = 0; virtual int d(std::string) = 0; };
	struct MDiamond : Left, Right
	{
		MOCK_METHOD(a, int, (int));
		MOCK_METHOD(b, int, (int), const);
		MOCK_METHOD(c, int, (int&));
		MOCK_METHOD(d, int, (std::string));
	};
	struct Adapted : MDiamond // overrides what the mock generated
	{
		int a(int x) override { return MDiamond::a(x + 1) + 5; }
		int b(int x) const override { return x < 0 ? -1 : MDiamond::b(x); }
	};
	inline void derived()
	{
		rec::reset();
		using namespace mimicpp;
		Adapted m{};
		ScopedExpectation e[]{
			m.a_.expect_call(matches::_) and expect::times(0, 9) and finally::returns_apply_result_of<0>([](int x) { return 1000 + x; }),
			m.b_.expect_call(matches::_) and expect::times(0, 9) and finally::returns_apply_result_of<0>([](int x) { return 2000 + x; }),
			m.c_.expect_call(matches::_) and expect::times(0, 9) and finally::returns_apply_result_of<0>([](int& x) { return 3000 + x++; }),
			m.d_.expect_call(matches::_) and expect::times(0, 9) and finally::returns_apply_result_of<0>([](const std::string& x) { return 4000 + static_cast<int>(x.size()); })};
		const int context = mc::choose(ctx::count);
		mc::note("calls take place", ctx::name(context));
		for (int n = 0; n < 3; ++n)
		{
			const int c = mc::choose(10);
			const int v = mc::choose(2);
			int x = v, r = 0, want = 0;
			Root& root = m;
			Left& left = m;
			Right& right = m;
			MDiamond& mock = m;
			ctx::run(context, [&] {
				switch (c)
				{
				case 0: r = root.a(v), want = 1006 + v; break;
				case 1: r = left.a(v), want = 1006 + v; break;
				case 2: r = right.a(v), want = 1006 + v; break;
				case 3: r = mock.MDiamond::a(v), want = 1000 + v; break;
				case 4: r = std::as_const(root).b(v), want = 2000 + v; break;
				case 5: r = std::as_const(right).b(-1 - v), want = -1; break;
				case 6: r = left.c(x), want = 3000 + v; break;
				case 7: r = mock.c(x), want = 3000 + v; break;
				case 8: r = right.d(std::string(static_cast<std::size_t>(v), 'x')), want = 4000 + v; break;
				default: r = std::as_const(mock).MDiamond::b(v), want = 2000 + v; break;
				}
			});
			mc::note("call ", c, " with ", v, " -> ", r);
			mc::check(r == want, "call ", c, " returned ", r, " instead of ", want);
			mc::check(x == v + (c == 6 || c == 7), "the referenced argument is now ", x);
		}
	}
}
