From acb88816eedb444f148fb6afd7c52338e5839475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:03 +0000
Subject: [PATCH 01/13] fix: let reports of overwritten expectations leave
 ScopedExpectation's move-assignment

The defaulted move-assignment deleted the previously owned expectation inside
std::unique_ptr::operator=, which is noexcept; a throwing reporter (e.g. the
DefaultReporter) thus terminated the process instead of reporting the
unfulfilled expectation.
---
 include/mimic++/Expectation.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index 8e40c75..f83b1e6 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -698,9 +698,22 @@ namespace mimicpp
 		ScopedExpectation(ScopedExpectation&&) = default;
 
 		/**
-		 * \brief Defaulted move-assignment-operator.
+		 * \brief Move-assignment-operator.
+		 * \param other The other object.
+		 * \details A previously owned expectation is removed and checked the same way as during destruction.
+		 * \throws In cases of an unsatisfied previously owned expectation, this operator is expected to throw or terminate.
 		 */
-		ScopedExpectation& operator =(ScopedExpectation&&) = default;
+		ScopedExpectation& operator =(ScopedExpectation&& other) noexcept(false)
+		{
+			if (this != std::addressof(other))
+			{
+				// same as for the dtor: std::unique_ptr mustn't perform the deletion, because the inner dtor may throw.
+				Concept* const previous = std::exchange(m_Inner, std::move(other.m_Inner)).release();
+				delete previous;
+			}
+
+			return *this;
+		}
 
 		/**
 		 * \brief Queries the stored expectation, whether it's satisfied.
-- 
2.43.0


From e133e8c98b611f7276197fb3f3b78179ac9110d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 02/13] fix: print null string pointers instead of
 dereferencing them

Reporting a call, which passed a nullptr for a character-pointer parameter,
created a string-view from that pointer and crashed.
---
 include/mimic++/Printer.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index fb21304..95e3ccb 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -478,6 +478,15 @@ namespace mimicpp::detail
 		template <std::common_reference_with<String> T, print_iterator OutIter>
 		static OutIter print(OutIter out, T&& str)
 		{
+			// pointers may be null, in which case there is no string to be printed
+			if constexpr (std::is_pointer_v<String>)
+			{
+				if (nullptr == str)
+				{
+					return format::format_to(std::move(out), "nullptr");
+				}
+			}
+
 			if constexpr (constexpr auto prefix = string_literal_prefix<string_char_t<String>>;
 				!std::ranges::empty(prefix))
 			{
-- 
2.43.0


From 2b79b37489e67b031bcca223dfff8dc26d578634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:41 +0000
Subject: [PATCH 03/13] fix: claim the selected expectation before releasing
 the collection's lock

Calls released the lock between the selection of an expectation and its
consumption. Concurrent calls thus selected the same expectation beyond its
limit, raced on its state and accessed it after it had been removed by another
thread.
The selected expectation is now claimed (times and sequences) under the same lock
and kept alive until the call has been finished. Side-effects and finalizers
are still performed without any lock held. ScopedExpectation::is_satisfied reads
the state under that lock, too.
---
 include/mimic++/Expectation.hpp | 75 ++++++++++++++++++++++++++++++---
 1 file changed, 69 insertions(+), 6 deletions(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index f83b1e6..7b31645 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -176,6 +176,27 @@ namespace mimicpp
 		 */
 		virtual void consume(const CallInfoT& call) = 0;
 
+		/**
+		 * \brief First part of the consumption, which claims the given call.
+		 * \param call The call to be consumed.
+		 * \details This function is called while the owning collection is locked. Implementations should do just what is necessary
+		 * to become aware of the call, so that calls from other threads don't get matched by an outdated state. In particular, they
+		 * should not invoke any user provided actions.
+		 */
+		virtual constexpr void begin_consume(const CallInfoT& call)
+		{
+			consume(call);
+		}
+
+		/**
+		 * \brief Second part of the consumption, which performs the remaining work.
+		 * \param call The call to be consumed.
+		 * \details This function is called after ``begin_consume``, but without any lock held.
+		 */
+		virtual constexpr void complete_consume([[maybe_unused]] const CallInfoT& call)
+		{
+		}
+
 		/**
 		 * \brief Requests the given call to be finalized.
 		 * \param call The call to be finalized.
@@ -288,6 +309,19 @@ namespace mimicpp
 			}
 		}
 
+		/**
+		 * \brief Queries the given expectation, whether it's satisfied.
+		 * \param expectation The expectation to be queried.
+		 * \return True, if satisfied.
+		 */
+		[[nodiscard]]
+		bool is_satisfied(const ExpectationT& expectation) const
+		{
+			const std::scoped_lock lock{m_ExpectationsMx};
+
+			return expectation.is_satisfied();
+		}
+
 		/**
 		 * \brief Handles the incoming call.
 		 * \param call The call to be handled.
@@ -304,8 +338,8 @@ namespace mimicpp
 			std::vector<MatchReport> noMatches{};
 			std::vector<MatchReport> inapplicableMatches{};
 
-			for (const std::scoped_lock lock{m_ExpectationsMx};
-				auto& exp : m_Expectations | std::views::reverse)
+			std::unique_lock lock{m_ExpectationsMx};
+			for (auto& exp : m_Expectations | std::views::reverse)
 			{
 				if (std::optional matchReport = detail::make_match_report(call, *exp))
 				{
@@ -332,13 +366,26 @@ namespace mimicpp
 			if (!std::ranges::empty(matches))
 			{
 				auto&& [exp, report] = *detail::pick_best_match(matches);
+
+				// The selection and the claim must happen under the same lock, because otherwise other threads may select the same
+				// expectation beyond its limit. As all user provided actions are performed without any lock, the expectation must be
+				// kept alive; it may be removed in the meanwhile.
+				const std::shared_ptr<ExpectationT> selected = *std::ranges::find(
+					m_Expectations,
+					std::addressof(exp),
+					&std::shared_ptr<ExpectationT>::get);
+				selected->begin_consume(call);
+				lock.unlock();
+
 				detail::report_full_match(
 					make_call_report(call),
 					std::move(report));
-				exp.consume(call);
-				return exp.finalize_call(call);
+				selected->complete_consume(call);
+				return selected->finalize_call(call);
 			}
 
+			lock.unlock();
+
 			if (!std::ranges::empty(inapplicableMatches))
 			{
 				detail::report_inapplicable_matches(
@@ -353,7 +400,7 @@ namespace mimicpp
 
 	private:
 		std::vector<std::shared_ptr<ExpectationT>> m_Expectations{};
-		std::mutex m_ExpectationsMx{};
+		mutable std::mutex m_ExpectationsMx{};
 	};
 
 	/**
@@ -524,8 +571,24 @@ namespace mimicpp
 		 * \copydoc Expectation::consume
 		 */
 		constexpr void consume(const CallInfoT& call) override
+		{
+			begin_consume(call);
+			complete_consume(call);
+		}
+
+		/**
+		 * \copydoc Expectation::begin_consume
+		 */
+		constexpr void begin_consume([[maybe_unused]] const CallInfoT& call) override
 		{
 			m_ControlPolicy.consume();
+		}
+
+		/**
+		 * \copydoc Expectation::complete_consume
+		 */
+		constexpr void complete_consume(const CallInfoT& call) override
+		{
 			std::apply(
 				[&](auto&... policies) noexcept
 				{
@@ -619,7 +682,7 @@ namespace mimicpp
 			[[nodiscard]]
 			bool is_satisfied() const override
 			{
-				return m_Expectation->is_satisfied();
+				return m_Storage->is_satisfied(*m_Expectation);
 			}
 
 			[[nodiscard]]
-- 
2.43.0


From cb99aa142f8844067e02d43068d1560585165901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 04/13] fix: derive returns_result_of's noexcept from the
 invocation it performs

The finalizer invokes its stored copy of the callable as non-const lvalue, but the exception specification was
computed for the original value category and constness of the argument. Callables with differently noexcept
overloads could thus terminate the program instead of letting their exception reach the caller.
---
 include/mimic++/ExpectationPolicies.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mimic++/ExpectationPolicies.hpp b/include/mimic++/ExpectationPolicies.hpp
index de5e020..0c20fce 100644
--- a/include/mimic++/ExpectationPolicies.hpp
+++ b/include/mimic++/ExpectationPolicies.hpp
@@ -473,7 +473,7 @@ namespace mimicpp::finally
 		return expectation_policies::ReturnsResultOf{
 			[
 				fn = std::forward<Fun>(fun)
-			]([[maybe_unused]] const auto& call) mutable noexcept(std::is_nothrow_invocable_v<decltype(fun)>) -> decltype(auto)
+			]([[maybe_unused]] const auto& call) mutable noexcept(std::is_nothrow_invocable_v<std::remove_cvref_t<Fun>&>) -> decltype(auto)
 			{
 				return std::invoke(fn);
 			}
-- 
2.43.0


From 2b3ec5ac4a0e3ef982ab9c35cc159b3cec9d525f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 05/13] fix: do not move from lvalue matchers given to
 each_element and any_element

The inner matcher was forwarded as std::remove_cvref_t<Matcher>, which turned lvalues into rvalues: the caller's
matcher was silently emptied (and const lvalues were refused), so using it again gave wrong verdicts.
---
 include/mimic++/Matcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index db176c8..58459ed 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -954,7 +954,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
@@ -983,7 +983,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
-- 
2.43.0


From 524c588736485356cc98491d6768dd08c60e1399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 06/13] fix: reach inner matchers of each_element and
 any_element through the matcher hooks

---
 include/mimic++/Matcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index 58459ed..3ac3598 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -945,7 +945,7 @@ namespace mimicpp::matches::range
 			{
 				return std::ranges::all_of(
 					target,
-					[&](const auto& element) { return m.matches(element); });
+					[&](const auto& element) { return mimicpp::detail::matches_hook::matches(m, element); });
 			},
 			"each el in range: el {}",
 			"not each el in range: el {}",
@@ -974,7 +974,7 @@ namespace mimicpp::matches::range
 			{
 				return std::ranges::any_of(
 					target,
-					[&](const auto& element) { return m.matches(element); });
+					[&](const auto& element) { return mimicpp::detail::matches_hook::matches(m, element); });
 			},
 			"any el in range: el {}",
 			"none el in range: el {}",
-- 
2.43.0


From c53fbc8045f877b2ad159c73cbf9c3f6076aed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 07/13] fix: treat only character arrays as strings

---
 include/mimic++/String.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mimic++/String.hpp b/include/mimic++/String.hpp
index 2656fdc..a43a008 100644
--- a/include/mimic++/String.hpp
+++ b/include/mimic++/String.hpp
@@ -284,6 +284,7 @@ namespace mimicpp
 	 */
 	template <typename T>
 		requires std::is_array_v<T>
+				&& is_character_v<std::remove_cv_t<std::remove_extent_t<T>>>
 	struct string_traits<T>
 		: public string_traits<std::remove_extent_t<T>*>
 	{
-- 
2.43.0


From 0ced2bb950c61c8689073860ba49552349146616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 08/13] fix: do not recurse endlessly when printing a range of
 its own type

---
 include/mimic++/Printer.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index 95e3ccb..e061e0f 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -266,7 +266,14 @@ namespace mimicpp::detail
 			std::forward<T>(value));
 	}
 
-	template <print_iterator OutIter, std::ranges::forward_range Range>
+	// Ranges which are their own element type (e.g. ``std::filesystem::path``) can not be printed element-wise.
+	template <typename Range>
+	concept printable_range = std::ranges::forward_range<Range>
+							&& !std::same_as<
+								std::remove_cvref_t<Range>,
+								std::remove_cvref_t<std::ranges::range_reference_t<Range>>>;
+
+	template <print_iterator OutIter, printable_range Range>
 	OutIter print(
 		OutIter out,
 		Range&& range,
@@ -332,7 +339,7 @@ namespace mimicpp::detail
 		}
 	};
 
-	template <print_iterator OutIter, std::ranges::forward_range Range>
+	template <print_iterator OutIter, printable_range Range>
 	OutIter print(
 		OutIter out,
 		Range&& range,  // NOLINT(cppcoreguidelines-missing-std-forward)
-- 
2.43.0


From 193cd3aa074466c416f6af9c05db0bad088b4fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 09/13] fix: print the elements of std::vector<bool>

---
 include/mimic++/Printer.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index e061e0f..d073c03 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -23,6 +23,7 @@
 #include <string>
 #include <string_view>
 #include <utility>
+#include <vector>
 
 #ifndef MIMICPP_CONFIG_USE_FMT
 	#include <format>
@@ -399,6 +400,20 @@ namespace mimicpp::detail
 		}
 	};
 
+	// the elements of std::vector<bool> are accessed via proxy objects, which are not formattable
+	template <>
+	class Printer<std::vector<bool>::reference>
+	{
+	public:
+		template <print_iterator OutIter>
+		static OutIter print(OutIter out, const std::vector<bool>::reference& ref)
+		{
+			constexpr PrintFn print{};
+
+			return print(std::move(out), static_cast<bool>(ref));
+		}
+	};
+
 	template <typename T>
 	class Printer<std::optional<T>>
 	{
-- 
2.43.0


From 89d0fa2894f2627814c74702c2c298bdb16a8ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:35 +0000
Subject: [PATCH 10/13] fix: interface mocks with parenthesised return and
 parameter types compile

---
 include/mimic++/InterfaceMock.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/InterfaceMock.hpp b/include/mimic++/InterfaceMock.hpp
index ea80a55..6437a5d 100644
--- a/include/mimic++/InterfaceMock.hpp
+++ b/include/mimic++/InterfaceMock.hpp
@@ -197,16 +197,24 @@ namespace mimicpp
 	 */
 }
 
+/**
+ * \brief Selects the first argument.
+ * \ingroup MOCK_INTERFACES_DETAIL_MAKE_SIGNATURE_LIST
+ */
+#define MIMICPP_DETAIL_FIRST(first, ...) first
+
 /**
  * \brief Converts the given information to a single signature.
  * \ingroup MOCK_INTERFACES_DETAIL_MAKE_SIGNATURE_LIST
  * \param sequence Unused.
  * \param bound_data Unused.
- * \param ret The return type.
+ * \param ret The return type. Enclosing parentheses will be stripped.
  * \param param_type_list The parameter types.
  * \param specs Additional specs (e.g. ``const``, ``noexcept``).
+ * \param ... If the enclosed parameter list (whose types have already been stripped) is provided, it's preferred over the plain types.
  */
-#define MIMICPP_DETAIL_MAKE_SIGNATURE(sequence, bound_data, ret, param_type_list, specs, ...) ret param_type_list specs
+#define MIMICPP_DETAIL_MAKE_SIGNATURE(sequence, bound_data, ret, param_type_list, specs, ...) \
+	MIMICPP_DETAIL_STRIP_PARENS(ret) MIMICPP_DETAIL_FIRST(__VA_ARGS__ __VA_OPT__(,) param_type_list, ) specs
 
 /**
  * \brief Converts all given arguments to a signature list (not enclosed by parentheses).
-- 
2.43.0


From ce827ecf8f86d0db81b74c09ab148f14dde13981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:25 +0000
Subject: [PATCH 11/13] fix: Catch2 adapter compiles with
 CATCH_CONFIG_PREFIX_ALL on Catch2 versions without
 CATCH_CONFIG_PREFIX_MESSAGES

---
 include/mimic++/adapters/Catch2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mimic++/adapters/Catch2.hpp b/include/mimic++/adapters/Catch2.hpp
index c32ff2c..08b8c77 100644
--- a/include/mimic++/adapters/Catch2.hpp
+++ b/include/mimic++/adapters/Catch2.hpp
@@ -43,7 +43,7 @@ namespace mimicpp::detail::catch2
 
 	inline void send_warning(const StringViewT msg)
 	{
-#ifdef CATCH_CONFIG_PREFIX_MESSAGES
+#ifdef CATCH_WARN	// depends on the version of Catch2, which config prefixes the message macros
 		CATCH_WARN(msg);
 #else
 		WARN(msg);
-- 
2.43.0


From 26def3d2784fdf9bce219dc7966df4779ef8ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 12/13] fix: comparison matchers and plain values accept
 std::pair and std::tuple operands

---
 include/mimic++/Matcher.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index 3ac3598..e5a0fed 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -353,7 +353,7 @@ namespace mimicpp::matches
 			std::equal_to{},
 			"== {}",
 			"!= {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -370,7 +370,7 @@ namespace mimicpp::matches
 			std::not_equal_to{},
 			"!= {}",
 			"== {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -387,7 +387,7 @@ namespace mimicpp::matches
 			std::less{},
 			"< {}",
 			">= {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -404,7 +404,7 @@ namespace mimicpp::matches
 			std::less_equal{},
 			"<= {}",
 			"> {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -421,7 +421,7 @@ namespace mimicpp::matches
 			std::greater{},
 			"> {}",
 			"<= {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
@@ -438,7 +438,7 @@ namespace mimicpp::matches
 			std::greater_equal{},
 			">= {}",
 			"< {}",
-			std::tuple{std::forward<T>(value)}
+			std::tuple<std::decay_t<T>>{std::forward<T>(value)}
 		};
 	}
 
-- 
2.43.0


From 82061e5730385b42ca7affd791a37f8aac1c8b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 13/13] fix: mocks accept std::reference_wrapper parameters

---
 include/mimic++/Mock.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/mimic++/Mock.hpp b/include/mimic++/Mock.hpp
index 7f8a049..ef44e49 100644
--- a/include/mimic++/Mock.hpp
+++ b/include/mimic++/Mock.hpp
@@ -85,7 +85,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current())
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple<std::reference_wrapper<std::remove_reference_t<Params>>...>{params...},
 				from);
 		}
 
@@ -122,7 +122,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) const
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple<std::reference_wrapper<std::remove_reference_t<Params>>...>{params...},
 				from);
 		}
 
@@ -159,7 +159,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) &
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple<std::reference_wrapper<std::remove_reference_t<Params>>...>{params...},
 				from);
 		}
 
@@ -196,7 +196,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) const &
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple<std::reference_wrapper<std::remove_reference_t<Params>>...>{params...},
 				from);
 		}
 
@@ -233,7 +233,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) &&
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple<std::reference_wrapper<std::remove_reference_t<Params>>...>{params...},
 				from);
 		}
 
@@ -270,7 +270,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) const &&
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple<std::reference_wrapper<std::remove_reference_t<Params>>...>{params...},
 				from);
 		}
 
@@ -307,7 +307,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple<std::reference_wrapper<std::remove_reference_t<Params>>...>{params...},
 				from);
 		}
 
@@ -347,7 +347,7 @@ namespace mimicpp::detail
 		) const noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple<std::reference_wrapper<std::remove_reference_t<Params>>...>{params...},
 				from);
 		}
 
@@ -384,7 +384,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) & noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple<std::reference_wrapper<std::remove_reference_t<Params>>...>{params...},
 				from);
 		}
 
@@ -424,7 +424,7 @@ namespace mimicpp::detail
 		) const & noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple<std::reference_wrapper<std::remove_reference_t<Params>>...>{params...},
 				from);
 		}
 
@@ -461,7 +461,7 @@ namespace mimicpp::detail
 		constexpr Return operator ()(Params... params, const std::source_location& from = std::source_location::current()) && noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple<std::reference_wrapper<std::remove_reference_t<Params>>...>{params...},
 				from);
 		}
 
@@ -501,7 +501,7 @@ namespace mimicpp::detail
 		) const && noexcept
 		{
 			return SuperT::handle_call(
-				std::tuple{std::ref(params)...},
+				std::tuple<std::reference_wrapper<std::remove_reference_t<Params>>...>{params...},
 				from);
 		}
 
-- 
2.43.0

