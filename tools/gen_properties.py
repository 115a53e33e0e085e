#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one entry per property)."""
import json, os
I='include/mimic++/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[I+f for f in files],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=hook)))

CORE="The core unit tests (Expectation, ControlPolicy, Sequence, Mock) need Trompeloeil and are not built here; what runs is a few fixed example histories."

prop('C01','A call is answered by the newest live applicable expectation, or rejected',
 "For every history of creating expectations (without sequences), calling the mock and removing expectations, a call is accepted exactly when at least one live expectation of that mock accepts its arguments and has not reached its maximum count. If several qualify, the most recently created one answers the call: its result is returned and its count alone advances. A rejected call changes no expectation.",
 ['histories','inputs'],"every interleaving of create/call/remove operations up to the depth bound, over overlapping argument predicates and times ranges",
 CORE+" Selection depends on the whole history: which expectations are alive, in which order they were created or removed and how often each was consumed.",
 ['Expectation.hpp','ControlPolicy.hpp','Mock.hpp','Reports.hpp'],
 [('newest-first evaluation and choice',I+'Expectation.hpp ExpectationCollection::handle_call, detail::pick_best_match'),('classification of a candidate',I+'Reports.hpp evaluate_match_report'),('count bookkeeping',I+'ControlPolicy.hpp ControlPolicy::consume, make_control_state')],
 [('expectation list','live expectations in creation order',I+'Expectation.hpp ExpectationCollection::m_Expectations'),('count','accepted calls of one expectation',I+'ControlPolicy.hpp ControlPolicy::m_Count')],
 ['returned value of the mock call','exception of a rejected call','ScopedExpectation::is_satisfied'])

prop('C02','Times bounds are enforced and an unmet minimum is reported exactly once',
 "An expectation created with any times specification accepts at most its maximum number of calls and is satisfied exactly while its count lies within its inclusive bounds (exactly once if none is given); exact, at-least, at-most, once and twice forms equal their two-bound meaning, and negative or inverted bounds are refused with an invalid-argument error. When an expectation is removed, exactly one unfulfilled-expectation report is issued if it is unsatisfied and none otherwise, and whatever the reporter throws reaches the scope that removed it.",
 ['inputs','histories'],"every times form and every (min,max) in a range including negative, zero and INT_MAX bounds; every number of attempted calls; every removal order",
 CORE+" Bounds, call counts and removal orders multiply; boundary mistakes (min-1, max, max+1, zero, INT_MAX) are only visible at specific combinations.",
 ['ControlPolicy.hpp','Expectation.hpp','ExpectationBuilder.hpp'],
 [('bounds validation and forms',I+'ControlPolicy.hpp TimesConfig, expect::times/at_least/at_most/once/twice'),('satisfaction and saturation',I+'ControlPolicy.hpp is_satisfied/is_saturated/is_applicable'),('report on removal',I+'Expectation.hpp ExpectationCollection::remove, ScopedExpectation::~ScopedExpectation')],
 [('min,max,count','bounds and number of accepted calls',I+'ControlPolicy.hpp ControlPolicy')],
 ['acceptance of each call','ScopedExpectation::is_satisfied','IReporter::report_unfulfilled_expectation'])

prop('C03','Every call produces exactly one report of the right kind with the right content',
 "Each call that reaches the reporter yields exactly one outcome report: a full-match report naming the chosen expectation if it is accepted; otherwise an inapplicable-match report listing exactly the live expectations that matched but are saturated or out of sequence turn; otherwise a no-match report listing exactly the live expectations whose requirements failed. Every report carries the call's own argument values and types as they were before any side effect, its return type, value category, constness and source location, and for every listed expectation its location, its current count and bounds, and a pass/fail entry for each of its requirements.",
 ['histories','inputs'],"every history of create/call/remove up to the depth bound, with mixes of non-matching, saturated, out-of-turn and applicable expectations",
 CORE+" Which expectations belong in which report depends on the combined state of all live expectations.",
 ['Expectation.hpp','Reports.hpp','Reporter.hpp','ControlPolicy.hpp'],
 [('classification and dispatch',I+'Expectation.hpp ExpectationCollection::handle_call'),('call snapshot',I+'Reports.hpp make_call_report'),('expectation snapshot',I+'Expectation.hpp BasicExpectation::matches/report'),('control state',I+'ControlPolicy.hpp detail::make_control_state')],
 [],['arguments of IReporter::report_full_match/report_inapplicable_matches/report_no_matches'])

prop('C04','A sequence admits its expectations only in order; lazy/greedy pick as documented',
 "For any expectations attached to one sequence, a call can only be answered by an element that is neither saturated nor already passed and whose predecessors back to the current position have all reached their minimum; answering makes that element the current position, so earlier elements never match again. If several elements are eligible for a call, a lazy sequence answers with the earliest and a greedy one with the latest eligible element. This holds for every mix of times ranges, for expectations attached while the sequence is already in use, and for elements of different mocks.",
 ['histories','inputs'],"every history of attach/call/remove operations over up to five elements with times ranges from a set including 0..n, and unsequenced expectations in between",
 CORE+" The examples fix one history per strategy; skipping rules, late attachment and partially consumed ranges interact over arbitrary histories.",
 ['Sequence.hpp','ControlPolicy.hpp','Expectation.hpp'],
 [('eligibility and cursor',I+'Sequence.hpp BasicSequence::is_consumable/consume/add'),('strategies',I+'Sequence.hpp LazyStrategy, GreedyStrategy'),('state propagation',I+'ControlPolicy.hpp ControlPolicy::update_sequence_states'),('choice among candidates',I+'Sequence.hpp has_better_rating, '+I+'Expectation.hpp pick_best_match')],
 [('cursor and entry states','current position and per-element unsatisfied/satisfied/saturated',I+'Sequence.hpp BasicSequence::m_Cursor, m_Entries')],
 ['which expectation answered each call','reports'])

prop('C05','Expectations in several sequences need their turn in all of them',
 "An expectation attached to several sequences is eligible only while it is eligible in every one of them, and answering a call advances all of them and no other. When the newest eligible candidates share sequences the shared sequences' strategies decide between them, otherwise the newer one is preferred. Attaching one expectation twice to the same sequence is refused with an invalid-argument error, leaving the sequences unchanged.",
 ['histories','inputs'],"every history over two or three sequences of either strategy, expectations attached to every non-empty subset, in one or several attachment steps, up to the depth bound",
 CORE+" Cross-sequence coupling needs particular joint positions; the single documented example covers one.",
 ['Sequence.hpp','ControlPolicy.hpp','ExpectationBuilder.hpp','Expectation.hpp'],
 [('conjunction over sequences',I+'ControlPolicy.hpp ControlPolicy::is_applicable/consume, make_control_state'),('duplicates refused',I+'Sequence.hpp Config'),('rating',I+'Sequence.hpp has_better_rating')],
 [],['which expectation answered each call','std::invalid_argument from the builder'])

prop('C06','An incomplete sequence is reported once, when its last user goes away',
 "When a sequence object and all expectations attached to it are gone, exactly one error report with the number of leading satisfied elements and the total is issued if some element from the current position on never reached its minimum, and none otherwise; until then no such report appears, and whatever the reporter throws for it reaches the scope that let go of the last user. The sequence object may be destroyed before or after its expectations without changing any matching behaviour.",
 ['histories'],"every history of attach/call and every destruction order of the sequence object and its expectations, up to the depth bound",
 CORE+" Needs every combination of partial progress and destruction order.",
 ['Sequence.hpp','ControlPolicy.hpp','Expectation.hpp'],
 [('end-of-life check',I+'Sequence.hpp BasicSequence::~BasicSequence'),('shared ownership',I+'Sequence.hpp BasicSequenceInterface, '+I+'ControlPolicy.hpp ControlPolicy::m_Sequences')],
 [],['IReporter::report_error'])

prop('C07','Calls reach only expectations of the same overload, constness and value category',
 "On a mock with several overloads, a call is only ever answered by an expectation created through a compatible overload: same parameter and return types, const-ness equal, and value category equal or unrestricted. C++ overload resolution alone determines which overload a call or expectation belongs to, and noexcept never changes matching. Expectations of other overloads neither match nor are consumed, and each call report names the constness and category actually used.",
 ['programs','inputs','configurations'],"every qualifier combination of a signature (const x none/lvalue/rvalue x noexcept), every legal overload set of those plus parameter overloads, every way to call (const/non-const, lvalue/rvalue) and every placement of the expectation",
 CORE+" Qualified overloads share storage and are told apart only at run time; the mapping must hold for each of the combinations.",
 ['Mock.hpp','ExpectationPolicies.hpp','Fwd.hpp','Utility.hpp','TypeTraits.hpp'],
 [('frontends',I+'Mock.hpp detail::MockFrontend specialisations'),('qualifier policies',I+'ExpectationPolicies.hpp Category, Constness'),('matching of qualifiers',I+'Fwd.hpp is_matching')],
 [],['which expectation answered','CallReport::fromConstness/fromCategory'])

prop('C08','Expectations live exactly as long as their owning scope object, across moves',
 "An expectation is live from its creation until its owning scope object is destroyed or overwritten, wherever that object and the mock have been moved in between and even if the mock is destroyed first; moved-from owners own nothing. Each owner's is-satisfied and location queries always reflect its own expectation, and each expectation is checked exactly once at its end of life.",
 ['histories'],"every history of create, move-construct, move-assign (onto empty and onto owning objects), swap, mock move/destroy, container storage, call and destroy up to the depth bound",
 CORE+" Ownership bugs need a specific chain of moves before a call or a destruction.",
 ['Expectation.hpp','ExpectationBuilder.hpp','Mock.hpp'],
 [('RAII owner',I+'Expectation.hpp ScopedExpectation, ScopedExpectation::Model'),('shared collection',I+'Mock.hpp BasicMockFrontend::m_Expectations'),('removal',I+'Expectation.hpp ExpectationCollection::remove')],
 [],['calls through the mock','report_unfulfilled_expectation','ScopedExpectation::is_satisfied/from'])

prop('C09','An accepted call runs its side effects once, in order, then its finalizer',
 "For an accepted call, all side effects of the chosen expectation run exactly once in the order written, each receiving references to the caller's actual arguments so modifications are visible to later effects, to the finalizer and (for reference parameters) to the caller; then its finalizer alone yields the result: the stored value, the forwarded argument, the callable's result or the thrown copy. No side effect or finalizer of any other expectation runs, and none runs for a rejected call.",
 ['inputs','histories','configurations'],"every ordered selection of side effects (single-, multi-, all-argument and plain invocations) and finalizers up to the bound, parameter passing by value, lvalue, const and rvalue reference, over call histories with competing expectations",
 CORE+" Order, index permutations and reference categories combine beyond the sampled cases.",
 ['ExpectationPolicies.hpp','Expectation.hpp'],
 [('side effects',I+'ExpectationPolicies.hpp SideEffectAction, then::*'),('argument projection',I+'ExpectationPolicies.hpp ApplyArgsAction, ApplyAllArgsAction'),('finalizers',I+'ExpectationPolicies.hpp ReturnsResultOf, Throws, finally::*'),('order',I+'Expectation.hpp BasicExpectation::consume/finalize_call')],
 [],['user callbacks invoked','returned value or exception','caller objects after the call'])

prop('C10','Value matchers decide their relation; requirements conjoin; negation inverts',
 "For all operands, the comparison, predicate, identity and wildcard matchers accept a value exactly when the named relation holds; negating a matcher any number of times flips both its verdict and its description. A call satisfies an expectation exactly when every given requirement, on whole or projected arguments and by position, holds; plain values mean equality (string equality for strings).",
 ['inputs','programs'],"all operand pairs over small domains including extremes, signed zeros and NaN; all matcher kinds and negation depths; all conjunctions up to three requirements over two or three parameters",
 "The matcher tests that run sample a few values of each matcher; negation, conjunction, positions and projections multiply.",
 ['Matcher.hpp','ExpectationPolicies.hpp','ExpectationBuilder.hpp'],
 [('matchers',I+'Matcher.hpp PredicateMatcher, matches::*'),('requirements',I+'ExpectationPolicies.hpp Requirement, expect::arg'),('argument to matcher conversion',I+'ExpectationBuilder.hpp detail::make_arg_matcher')],
 [],['matcher.matches/describe','acceptance of calls','descriptions in reports'])

prop('C11','String matchers equal the textbook relation for all strings',
 "For all target and pattern strings of every supported string form and character type, equality, starts-with, ends-with and contains (and their negations) hold exactly as defined on the character sequences, including empty strings, embedded NULs for sized strings, patterns longer than the target and self-overlapping patterns. The case-insensitive versions give exactly the verdict of the plain version on case-folded operands.",
 ['inputs'],"all pairs of strings up to a length bound over a small alphabet with both cases, a non-letter, a NUL and a non-ASCII character; pointer, array, view and owning forms",
 "The existing tests sample a handful of string pairs.",
 ['Matcher.hpp','String.hpp'],
 [('string matchers',I+'Matcher.hpp matches::str'),('string views and case folding',I+'String.hpp string_traits, string_case_fold_converter')],
 [],['matcher.matches'])

prop('C12','Range matchers equal their set/sequence definition for all ranges',
 "For all ranges, the range matchers hold exactly by definition: element-wise equality, permutation (with multiplicity), sortedness under the given relation, emptiness, size, and the all-/any-element quantifiers over an inner matcher, which are true/false respectively for empty ranges. Custom comparators and negations are honoured and the target range is not modified.",
 ['inputs'],"all pairs of ranges up to a length bound over a three-value alphabet, containers with different iterator categories, all inner matchers",
 "The range-matcher tests need Trompeloeil and are not built here.",
 ['Matcher.hpp'],
 [('range matchers',I+'Matcher.hpp matches::range')],[],['matcher.matches'])

prop('C13','A watched object reports exactly one destruction, wherever it was moved',
 "For every history of constructing, copying, moving and assigning lifetime-watched objects, the destruction of an object that currently carries a watched lifetime reports exactly once on that lifetime's own expectation, moved-from objects report nothing, copies start a fresh lifetime without expectation, and copy-assignment ends the target's lifetime (reported) before a fresh one starts. A destruction without expectation is reported as unmatched, an expected destruction that never comes is reported as unfulfilled, and a second destruct expectation for one lifetime is refused with a logic error.",
 ['histories'],"every history of create/expect/copy/move/assign/destroy operations over three object slots up to the depth bound, watchers alone and inside watched user types",
 "Existing watcher tests check single operations; mistakes in transfer of the watched state show only over chains.",
 ['ObjectWatcher.hpp'],
 [('lifetime watcher',I+'ObjectWatcher.hpp LifetimeWatcher'),('composition',I+'ObjectWatcher.hpp detail::CombinedWatchers, Watched')],
 [],['reports','std::logic_error'])

prop('C14','Each relocation of a watched object is reported exactly once on its own watcher',
 "For every history of constructing, copying, moving and assigning relocation-watched objects, each move-construction or move-assignment reports exactly once on the moved-from object's expectations, and these stay with the relocated object for later moves. Copies and copy-assigned objects start without expectations and report nothing, and destruction reports nothing; combined with a lifetime watcher, both keep their own behaviour.",
 ['histories'],"every history of create/expect/copy/move/assign/destroy operations over three object slots up to the depth bound, alone and combined with the lifetime watcher in either order",
 "Existing watcher tests check single operations; mistakes in transfer of the watched state show only over chains.",
 ['ObjectWatcher.hpp'],
 [('relocation watcher',I+'ObjectWatcher.hpp RelocationWatcher'),('composition',I+'ObjectWatcher.hpp detail::CombinedWatchers, Watched')],
 [],['reports'])

prop('C15','Violations reach the installed reporter; failures throw unless already unwinding',
 "Every report goes to the most recently installed reporter and to no other. The default reporter throws its documented exception carrying the reported data for unmatched or inapplicable calls, and, unless an exception is already propagating, for unfulfilled expectations and errors; it stays silent on full matches and only warns about exceptions raised while matching. The callback-based reporter sends each report's text to the success, warning or fail callback by the same rules.",
 ['histories','configurations','fault_sequences'],"all report kinds x reporter kinds x unwinding or not x every order of installing reporters and triggering reports up to the bound",
 "Reporter unit tests are not built; adapters test one situation each. The suppression rule depends on the dynamic context.",
 ['Reporter.hpp','Expectation.hpp'],
 [('reporters',I+'Reporter.hpp DefaultReporter, BasicReporter'),('installation and dispatch',I+'Reporter.hpp install_reporter, detail::get_reporter, detail::report_*')],
 [],['exceptions at the call site','callback invocations','output stream'])

prop('C16','A requirement that throws while matching only excludes its own expectation',
 "If evaluating an expectation against a call throws, exactly one unhandled-exception report with that exception, expectation and call is issued for it, that expectation takes no part in the call, and the call is decided by the remaining expectations as if it were absent; nothing escapes, no state of any expectation changes because of it, and later calls work normally.",
 ['histories','fault_sequences'],"every assignment of throw/match/mismatch outcomes to the evaluations of up to four expectations (with times and sequences) over call histories up to the bound",
 CORE+" Fault positions times expectation states are not sampled by any built test.",
 ['Expectation.hpp','Reporter.hpp'],
 [('containment',I+'Expectation.hpp detail::make_match_report'),('reporting',I+'Reporter.hpp report_unhandled_exception')],
 [],['IReporter::report_unhandled_exception','call outcome'])

prop('C17','Printing any argument is total and composes',
 "Every value of every parameter type can be printed for a report without crashing or altering it: strings quoted with their literal prefix, ranges and tuples as the braced comma-separated list of their elements' own representations, optionals as their value or nullopt, pointers as fixed-width hexadecimal, formattable types by their format, anything else as a placeholder; a user-provided printer takes precedence at every nesting level. Null string pointers are printable as well, so reporting a call that passed one works.",
 ['inputs','programs','configurations'],"all nestings up to the depth bound of range/tuple/pair/optional over leaf types, all element counts up to a bound, both formatting back ends",
 "Printer tests sample flat values; dispatch among overlapping categories (string vs range vs formattable vs custom) changes with nesting.",
 ['Printer.hpp','String.hpp'],
 [('dispatch order',I+'Printer.hpp detail::print priority_tag overloads'),('printers',I+'Printer.hpp detail::Printer specialisations')],
 [],['mimicpp::print','CallReport argument text'])

prop('C18','Report texts state the facts of the report',
 "For every report content, the rendered text contains each fact once and correctly: for times, the saturated / accepts-further / expected wording chosen by count and bounds with the right numbers; for requirements, each description under failed or passed according to its verdict; every argument with index, type and value; locations of call and expectation; the sequence counts; and the header matching the kind of report.",
 ['inputs'],"all (min,max,count) up to a bound including INT_MAX, all pass/fail/undescribed vectors up to length four, all sequence counts up to three, zero to three arguments, all report kinds",
 "Report text tests check single samples; wording depends on boundary relations of three numbers and on the partition of requirements.",
 ['Reports.hpp','Reporter.hpp'],
 [('times wording',I+'Reports.hpp detail::print_times_state, control_state_printer'),('rendering',I+'Reports.hpp detail::Printer<CallReport/ExpectationReport/MatchReport>'),('messages',I+'Reporter.hpp detail::stringify_*')],
 [],['text passed to BasicReporter callbacks','what() of DefaultReporter exceptions'])

prop('C19','Callbacks may use the mock re-entrantly',
 "Side effects and finalizers may call the same or other mocks, create expectations and remove other expectations (including the one being answered). Each nested operation behaves exactly as if issued at that point of the history: the count, sequence position and liveness seen by nested calls already include the outer call, the outer call still finishes with its own expectation's remaining effects and result, and nothing deadlocks or touches freed memory. Requirements, too, may use other mocks while they are evaluated, without any influence on how the surrounding call is answered and reported.",
 ['histories','programs'],"every tree of nested operations (call same/other mock, create, remove self/other) up to the depth bound, placed in side effects and finalizers",
 CORE+" No built test performs a nested call.",
 ['Expectation.hpp','ControlPolicy.hpp','Sequence.hpp'],
 [('selection before execution',I+'Expectation.hpp ExpectationCollection::handle_call'),('execution',I+'Expectation.hpp BasicExpectation::consume/finalize_call')],
 [],['log of callbacks','results','reports','AddressSanitizer'])

prop('C20','Concurrent calls, creations and removals are linearizable and race-free',
 "When several threads call one mock, create expectations for it, query and remove them at the same time (no sequences involved), every execution is equivalent to some sequential order of these operations: no expectation accepts more calls than its maximum, no accepted call is lost or counted twice, reports match the outcome. There is no data race inside the library, no deadlock, and an expectation removed while it answers a call stays usable until that call has finished.",
 ['schedules'],"all thread interleavings at synchronisation points and user callbacks up to a preemption bound, for small sets of concurrent operations on two or three threads",
 "No existing test uses a second thread, and free-running tests sample schedules.",
 ['Expectation.hpp','ControlPolicy.hpp','Mock.hpp'],
 [('collection mutex',I+'Expectation.hpp ExpectationCollection::m_ExpectationsMx'),('count update',I+'ControlPolicy.hpp ControlPolicy::consume')],
 [('count and expectation list','shared mutable state',I+'Expectation.hpp, '+I+'ControlPolicy.hpp')],
 ['pthread mutex operations','memory accesses','results and reports'])

prop('C21','Interface mocks forward every call unchanged to the right mock',
 "A method generated by the interface-mock macros overrides exactly the declared virtual function and forwards its arguments to its mock with their value categories and identities intact, without extra copies, and returns the mock's result unchanged, for every parameter count, parameter passing mode, return kind, qualifier and overload set. Calls through the base interface and directly on the mock member are indistinguishable to expectations.",
 ['programs','inputs'],"all parameter passing modes x return kinds x qualifier specs, parameter counts 0..6, overload sets up to four, parenthesised types containing commas",
 "The interface-mock tests are not built here, and the macros expand differently for each arity.",
 ['InterfaceMock.hpp','Mock.hpp'],
 [('macro expansion',I+'InterfaceMock.hpp MIMICPP_MOCK_METHOD, MIMICPP_MOCK_OVERLOADED_METHOD, MIMICPP_DETAIL_FORWARD_ARGS')],
 [],['addresses and categories seen by the expectation','copy/move counters','returned references'])

prop('C22','Signature algebra is correct for every function signature',
 "For every function signature (parameters x const x reference qualifier x noexcept) and callable built from it, the public signature traits agree with the language: decaying, adding and removing noexcept, return and parameter types, and whether two signatures can form a legal overload set, which must be symmetric and consistent with what a class may declare.",
 ['programs'],"all 12 qualifier combinations x return types x parameter lists up to length two; all ordered pairs (and triples as sets) of signatures",
 "The trait tests instantiate selected combinations; pairwise overloadability over all combinations is not covered.",
 ['TypeTraits.hpp'],
 [('traits',I+'TypeTraits.hpp signature_*, is_overloadable_with, is_overload_set')],[],['trait values and types'])

prop('C23','Reports and call descriptions compare equal exactly when their contents agree',
 "Two call descriptions, call reports, expectation reports or match reports compare equal exactly when all their observable parts agree: argument identities or type-and-text, return type, constness, value category, source location, times state with all its numbers and sequence data, finalizer and the ordered requirement entries. Equality is reflexive and symmetric and unequal operators are its negation.",
 ['inputs'],"all pairs of values drawn from the product of small domains for each field",
 "Tests vary one field at a time against one base value.",
 ['Reports.hpp','Call.hpp','Utility.hpp'],
 [('equality',I+'Reports.hpp operator==, '+I+'Call.hpp Info::operator==, '+I+'Utility.hpp is_same_source_location')],[],['operator=='])

prop('C24','Custom policies join matching, consumption and satisfaction as specified',
 "User-defined expectation policies attached to an expectation are honoured uniformly at every position and in any number: a call matches only if all of them match, each policy of the chosen expectation and of no other consumes exactly once per accepted call in attachment order, an expectation is satisfied only if its count and all policies are, and every provided description appears in the reports in order. User-defined matchers work through either customisation route with the same verdicts.",
 ['histories','programs','configurations'],"all vectors of policy verdicts/satisfactions/descriptions up to three custom policies among built-in ones, over call histories up to the bound",
 CORE+" Policy interaction is only tested with the unavailable mocking library.",
 ['Expectation.hpp','ExpectationBuilder.hpp','Matcher.hpp'],
 [('folding over policies',I+'Expectation.hpp BasicExpectation::matches/consume/is_satisfied/report'),('attachment',I+'ExpectationBuilder.hpp BasicExpectationBuilder::operator&&'),('matcher hooks',I+'Matcher.hpp detail::matches_hook, detail::describe_hook')],
 [],['policy callbacks','reports','is_satisfied'])

prop('C25','Framework adapters turn every report into the matching framework event',
 "With a test-framework adapter installed, every unmatched, inapplicable or unfulfilled report fails the running test case of that framework with the report text and aborts it, a full match is recorded as success and an exception raised while matching as a non-failing message, and nothing is reported as failed otherwise. Reports raised while another exception unwinds never terminate the process.",
 ['configurations','fault_sequences'],"all report kinds x GoogleTest/Catch2/Doctest adapters x unwinding or not, in every order up to the bound",
 "Each adapter's test covers one scenario per report kind.",
 ['adapters/gtest.hpp','adapters/Catch2.hpp','adapters/Doctest.hpp','Reporter.hpp'],
 [('adapters',I+'adapters/*.hpp'),('rules',I+'Reporter.hpp BasicReporter')],[],['framework result listeners'])

prop('C26','Impossible expectations do not compile; every meaningful one does',
 "Building an expectation accepts a clause exactly when it makes sense for the mocked signature: at most one times clause, at most one finalizer whose result can be converted to the return type, requirements, side effects and further actions only on parameters that exist and with matchers and functions that accept them, one positional value or matcher per parameter, custom policies only if they offer the complete policy interface, and any number of sequences. Chains are used once (as rvalues), a non-void mock needs a finalizer, and mocks, builders, expectations and sequences can not be copied. Without the configuration for prefixed macros both spellings of each macro exist, with it only the prefixed one.",
 ['inputs','configurations'],"every signature of a list x every state of the expectation builder x every clause of a menu (about 150 per signature); all positional argument lists up to one more than the number of parameters",
 "A test file that compiles can not show what is refused; the refusals depend on the product of signature, builder state and clause.",
 ['ExpectationBuilder.hpp','Expectation.hpp','ExpectationPolicies.hpp','Mock.hpp','ControlPolicy.hpp','Matcher.hpp'],
 [('constraints of operator&&',I+'ExpectationBuilder.hpp BasicExpectationBuilder'),('policy concepts',I+'Expectation.hpp expectation_policy_for, finalize_policy_for'),('constraints of the policies',I+'ExpectationPolicies.hpp'),('positional arguments',I+'ExpectationBuilder.hpp requirement_for, '+I+'Mock.hpp expect_call')],[],['verdict of the compiler on the expression'])

ids=[p['id'] for p in P]; assert len(set(ids))==len(ids)
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
    n=p['statement'].count('. ')+1
    assert n<=3,(p['id'],n)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
