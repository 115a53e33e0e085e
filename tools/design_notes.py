"""Per property: (oracle, what the built tests cannot reach)."""
NOTES = {
"C01": ("the reference model: newest live expectation of the mock that accepts the argument and is below its maximum; after each call result, counts (through satisfaction and saturation), `is_satisfied` of all expectations and all reports are compared.",
        "the outcome depends on the whole history of creations, calls and removals; tests contain single hand-picked histories."),
"C02": ("interval arithmetic on the count; exactly one unfulfilled report at removal iff below the minimum, thrown exceptions observed by the removing scope; creation refused for negative/inverted bounds.",
        "every form, bound and count combination, extremes included, with and without an exception in flight."),
"C03": ("the set of expectations per verdict computed by the model; every field of every report compared with the history (arguments before effects, types, category, constness, location, counts, bounds, one entry per requirement).",
        "report contents depend on the global state of all expectations."),
"C04": ("an explicit model of a sequence (cursor, per-element count and range) with lazy/greedy choice; each call is compared, and each order of destroying things.",
        "cursor positions only arise from call strings; the sequence tests are not built here at all."),
"C05": ("the sequence model generalised to several sequences: eligibility in all, advancing all, documented preference; ambiguous cases where the strategies disagree are excluded from the preference comparison but not from the others.",
        "needs products of several cursors."),
"C06": ("the model knows when the last user of a sequence disappears and whether an element from the cursor on is below its minimum; exactly one error report with both numbers, at exactly that step.",
        "depends on the destruction order of sequence objects and expectations."),
"C07": ("for every legal overload set the generated harness asks the compiler (through a plain class with the same overloads) which overload a call form selects; only expectations of that overload with compatible category may answer.",
        "88 overload sets with all call forms are far beyond hand-written cases."),
"C08": ("a model of owners and expectations (who owns what), compared after every move, swap, assignment and destruction; AddressSanitizer as second oracle.",
        "moves chained over several owners and mocks destroyed first."),
"C09": ("arithmetic on the arguments: every effect writes an injective function of what it saw, so order, multiplicity, aliasing and identity are all visible in the values seen by later effects, the finalizer and the caller.",
        "all chains of effects times all finalizers times calls repeated on one expectation."),
"C10": ("the relation written with the built-in operators; conjunctions as a bitwise and of per-requirement verdicts.",
        "all operand pairs incl. NaN, embedded NUL, boundary values, and all positions of requirements."),
"C11": ("textbook definitions on `std::vector` of code units (element-wise loops).",
        "all target/pattern pairs in a small scope, in every string form."),
"C12": ("textbook definitions (count-based permutation, adjacent pairs, loops).",
        "all pairs of ranges in a small scope, all container forms."),
"C13": ("a model of lifetimes: which object carries which lifetime, which lifetime has an expectation; every destruction and removal is compared.",
        "moves and assignments between several watched objects interleave with expectations."),
"C14": ("a model of which relocation expectations travel with which object.",
        "as C13; in addition several expectations per object."),
"C15": ("a table (report kind x exception context x reporter) of what has to be printed, called or thrown.",
        "the product of reporters, reports, exchange of reporters and nested exception contexts."),
"C16": ("the core model with the throwing expectations removed for that call, plus one unhandled-exception report each.",
        "every combination of places that may throw, over several calls."),
"C17": ("an independent recursive printer over a parallel value tree; the printed value is compared with itself before printing.",
        "composition: all nestings of wrappers over all leaf types."),
"C18": ("an independent rendering: each fact must be present once in its section; numbers, wording, verdict, location, type and value compared modulo white space and order within a section.",
        "products of report contents."),
"C19": ("the core model executed re-entrantly: nested operations are applied to the model at the point at which they are issued.",
        "no built test performs a nested call; the tree of nested operations is enumerated."),
"C20": ("brute-force search for a linearization against the sequential model (results, reports, satisfaction), a vector-clock data race detector and a use-after-free detector on every schedule; deadlock detection.",
        "schedules: the tests are single threaded."),
"C21": ("the same call on the mock member; argument identity, value category and copy counters; generated classes must compile with `override`.",
        "thousands of generated interfaces; the tests have a few."),
"C22": ("the spelled-out type (generated text) and the compiler's verdict on plain class definitions.",
        "all signatures and all pairs, where the tests list some."),
"C23": ("equality of the abstract contents from which the reports were built.",
        "all pairs of a product of contents, so that every ignored field shows up."),
"C24": ("a model in which an expectation is the conjunction of its policies; consumption logs compared in order.",
        "chains of policies at all positions with all verdicts."),
"C25": ("a model of the framework's events for each step; listeners registered with the real frameworks record what arrives.",
        "sequences of steps incl. unwinding in all four frameworks; texts compared with those of a capturing reporter."),
"C26": ("the language's own traits on the spelled-out types (`is_invocable`, casts, comparability) or the documented need of the clause; small programs next to an accepted twin where a refusal is a hard error.",
        "refusals can not be written as a compiling test; several thousand combinations of signature, builder state and clause."),
}
MISSED = [
"`c06_last_element`: sequences with fewer than two unsatisfied elements after the cursor were explored only; C06 now destroys preset sequences of 2-3 elements (all ranges) in every order.",
"`c09_throw_moved`: the thrown exception had no moved-from state; it now knows whether it was moved from.",
"`c15_in_handler`: only *normal* and *unwinding* were explored; now all nestings of handlers and unwinding.",
"`c19_scratch_buffers`: requirements did not use other mocks while being evaluated; now they do, in six ways.",
"`c13_unwinding`: watched objects were destroyed plainly only; now (as every operation of every history harness) also while the stack unwinds, inside handlers, and on another thread (`lib/ctx.hpp`).",
"`c18_arg_index`: calls had at most ten parameters; now 24.",
"`c07_void_const` (and a shared matcher for noexcept twins): the overload sets returned values only; a second family returns void with every pattern of `noexcept`.",
"`c22_return_types`-like changes in sets of more than four signatures: sets of 5-9 with one conflicting pair at every two positions.",
"`c23_missing_text`: reports differing only late (a list one longer, a text differing in its last character, type names of equal length) are compared now.",
"Mock classes used as a base (virtual inheritance, final overriders): C21 derives from generated classes.",
"The order of the watched base and its watchers (with a virtual destructor, too): C13/C14 observe when the base ends or moves relative to the report.",
"`c10_base_part`, `c10_narrowed`, `c12_element_type`: targets and operands had the same type (or a wider operand only); base parts as instances, mixed integer/floating and narrower operands, and ranges of other element types are compared now.",
"`c11_long_equal`: texts were at most 300 (1025) characters long; now over 4096.",
"`c09_through_double`: results were small numbers; now numbers of ten types at their limits.",
]
CAUGHT_BY = {}
UNCAUGHT = {}
