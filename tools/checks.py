"""The table of checks: which harnesses decide which property, how they are built, and what is recorded as evidence."""

ENUM = "stateless model checking: every execution of the bounded harness against the real headers, compared step by step with a reference model"
TRUST = ["g++ 13 and libstdc++", "the reference model / relation in the harness", "the recording reporter is a faithful observer (it only copies what it is given)"]

CHECKS = {}


def add(pid, jobs, bounds, method=ENUM, assumptions=(), level="model_checking", limit=None, technique=None, note=None):
    CHECKS[pid] = {
        "jobs": jobs, "bounds": bounds, "method": method, "assumptions": TRUST + list(assumptions), "level": level,
        "limit": limit or {"quick": 420, "thorough": 2400},
        "technique": technique or "exhaustive bounded exploration of the real code (stateless model checking) against a reference model",
        "note": note or ("Exhaustive within: " + bounds),
    }


SAN = ["-O1", "-fsanitize=address", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"]
ASAN = ["-O1", "-fsanitize=address"]

add("C01", [{"name": "c01", "src": "harness/c01.cpp"}],
    "all histories of create/call/remove up to depth 6-10 (quick) / 7-11 (thorough) over 1-2 mocks, up to 7 expectation kinds and 2 argument values; "
    "all sets of 2-5 expectations (masks x times) with every call string of length 4-7 / 6-8; sets of up to 34 (66) and of 130 (300) expectations with one differing and one removed at every position; one and two mocks whose expectations all stem from one or two source locations")
add("C02", [{"name": "c02", "src": "harness/c02.cpp"}, {"name": "c01", "src": "harness/c01.cpp"}],
    "every times form x bounds in a small grid incl. negative, inverted and extreme values x every count up to saturation and beyond x normal/unwinding removal; counts of 32767-66000 walked through call by call; C01's histories with satisfaction and removal reports checked after each step, also with all expectations stemming from one source location")
add("C03", [{"name": "c03_%d" % k, "src": "harness/c03.cpp", "flags": ["-O0", "-DPART=%d" % k]} for k in (5, 3, 2, 0, 1, 4)]
    + [{"name": "c03_6", "src": "harness/c03.cpp", "flags": ["-O0", "-DPART=6"], "thorough_only": True}]
    + [{"name": "c01", "src": "harness/c01.cpp"}, {"name": "seq1", "src": "harness/seq1.cpp"}, {"name": "seqn", "src": "harness/seqn.cpp"}],
    "C01's histories plus histories with one and two sequences, and sets of up to 34 (66) and of 130 (300) expectations; every report compared in full with the model; "
    "every signature of one of 64 parameter kinds, all ordered pairs of 10 (thorough 20) kinds, rotations of 3-9 kinds, 20 equal parameters, eight return kinds, with every string of three outcomes; "
    "all qualifications and overload sets of them, all ways to obtain source locations, all verdict combinations of four requirements")
add("C04", [{"name": "seq1", "src": "harness/seq1.cpp"}],
    "one lazy or greedy sequence: all element lists of length 3-5 over up to 7 times ranges and argument masks with every call string of length 5-8 (thorough 6-10); all histories incl. late attachment and removal to depth 7-9 (8-11); lists of up to 17 (33) mixed and 258 (300) uniform elements, one of them special or removed, with calls before and after; hundreds of optional elements skipped at once; 65540 elements with every two of ten positions around 2^8, 2^15 and 2^16 called; times ranges with bounds up to 6")
add("C05", [{"name": "seqn", "src": "harness/seqn.cpp"}],
    "two and three sequences of every strategy combination, 3-4 expectations with every attachment subset (attached at once and one by one), every call string of length 3-6; two sequences over lists of up to 17 (33) elements; times ranges with bounds up to 4; all attachment tuples of 2-5 out of five sequences, duplicates included, in three spellings")
add("C06", [{"name": "seq1", "src": "harness/seq1.cpp"}, {"name": "seqn", "src": "harness/seqn.cpp"}, {"name": "c06t", "src": "harness/c06t.cpp"}],
    "all histories of create/call/remove/destroy-sequence-object to depth 7-9 (8-11) with one sequence, 6 (8) with two; sequences of 2-3 elements destroyed before, between or after their elements, and of 65540 elements blocked at one of ten positions; times ranges with bounds up to 6; every release order with a throwing reporter in a child process")
add("C07", [{"name": "c07_%d" % k, "src": "", "gen": ["gen_c07.py", "--part", str(k), "--parts", "8"], "flags": ["-O0"]} for k in range(8)],
    "all 88 legal qualified overload sets (const x ref-qualifier x noexcept) of one parameter list, each with every expectation overload and every call form, plus overloads that differ in parameters and a second family returning void with noexcept patterns; every sequence of up to 3 expectations and calls")
add("C08", [{"name": "c08", "src": "harness/c08.cpp"}, {"name": "c08asan", "src": "harness/c08.cpp", "flags": ASAN}],
    "all histories of create/move-construct/move-assign/swap/destroy of up to 3 owners, moving and destroying up to 2 mocks, and calls, to depth 5-6 (6-7); owners as variables and in vectors, expectations of one or of several source locations; plain and under AddressSanitizer")
add("C09", [{"name": "c09_%d" % k, "src": "harness/c09.cpp", "flags": ["-O0", "-DFIN=%d" % k]} for k in range(9)]
    + [{"name": "c09k_%d" % k, "src": "harness/c09k.cpp", "flags": ["-O0", "-DPART=%d" % k]} for k in range(4)],
    "transport, handing back, stored results and stateful actions for about 64 kinds of parameter and return type; numbers of ten types at their limits (and converted ones) through seven finalizer forms; nine finalizers x every chain of up to 3 side effects x by-value/by-reference parameters x every argument projection; every side effect writes and every callback records what it saw; exception specification of the mocked call with every finalizer")
add("C10", [{"name": "c10_%d" % k, "src": "harness/c10.cpp", "flags": ["-O0", "-DPART=%d" % k]} for k in (10, 11, 12, 9, 14, 13, 15, 16, 17)]
    + [{"name": "c10_%d" % k, "src": "harness/c10.cpp", "flags": ["-O0", "-DPART=%d" % k, "-DDEPTH=2"]} for k in range(9)]
    + [{"name": "c10_deep_%d" % k, "src": "harness/c10.cpp", "flags": ["-O0", "-DPART=%d" % k, "-DDEPTH=3"], "thorough_only": True} for k in range(9)],
    "six relations over boundary values of int, mixed widths and mixed integer/floating operands, double (NaN, infinities, zeros), strings (embedded NUL), bytes and a partially ordered type, each negated 0-3 times as lvalue and rvalue, "
    "directly and through four call forms; pairs and tuples; operands of twelve types kept by value whatever happens to their source; identity, predicate, wildcard and plain values; conjunctions of two positional requirements (wildcard, value, predicate) and up to 2 (thorough 3) further plain or projected requirements on all argument pairs; an argument type with its own address-of operator, and base parts (first, second, virtual) as instances of whole objects")
add("C11", [{"name": "c11_%d" % k, "src": "harness/c11.cpp", "flags": ["-O1", "-DPART=%d" % k]} for k in (7, 5, 6, 0, 1, 2, 3, 4)]
    + [{"name": "c11_asan_%d" % k, "src": "harness/c11.cpp", "flags": ASAN + ["-DPART=%d" % k]} for k in (1, 3)],
    "all pairs of target (length up to 5, thorough 6) and pattern (up to 3, thorough 4) over alphabets of 2-5 characters incl. NUL and the characters around the letter ranges, up to 8/6 (10/7) over two letters, and texts of 15-33, 300 and 4200 (14-1025, 4097, 5000) characters; five forms of target x five forms of pattern; "
    "eq/starts_with/ends_with/contains, plain and case-insensitive, negated and twice negated; six character types, one with a length-changing user folding; views into larger buffers and, under AddressSanitizer, into exactly sized blocks")
add("C12", [{"name": "c12_%d" % k, "src": "harness/c12.cpp", "flags": ["-O1", "-DPART=%d" % k]} for k in range(6)]
    + [{"name": "c12_asan_%d" % k, "src": "harness/c12.cpp", "flags": ASAN + ["-DPART=%d" % k], "thorough_only": True} for k in (0, 1, 3)],
    "all pairs of target and expected range up to length 6/6 over 2, 5/4 over 3 and 4/4 over 4 values (thorough 8/8, 6/5, 5/4), and of 9-33 and 130 (8-300) elements differing in one place or in order, of 70000 elements differing at the ends or in the middle (not for permutations), of other element types (double, int, long long, unsigned char), seven container forms, default, modulo, move-only and asymmetric comparators; "
    "sortedness under four relations; sizes against signed/unsigned bounds of every width, also of ranges longer than any narrow integer; quantifiers over nine kinds of inner matcher; negated up to twice; directly and through calls")
WATCH = {k: {"name": "watch_%d" % k, "src": "harness/watch.cpp", "flags": ["-O1", "-DTYPE=%d" % k]} for k in range(9)}
WATCH_ASAN = lambda k: {"name": "watch_asan_%d" % k, "src": "harness/watch.cpp", "flags": ASAN + ["-DTYPE=%d" % k]}
add("C13", [WATCH[k] for k in (0, 1, 2, 6, 7, 8)] + [WATCH_ASAN(1)],
    "all histories of create/copy/move-construct/copy/move-assign/destroy/expect/remove over two objects (depth 7, thorough 8) and three objects (depth 6, thorough 7), for direct use of the watcher and Watched<> over plain and virtual bases, alone and combined with a relocation watcher in both orders; "
    "destruction through a base pointer, ordered destructions, noexcept mirroring, the base ending before its destruction is reported",
    assumptions=["moving from an already moved-from watched object is outside the property (the library dereferences its moved-from mock)", "histories end at a copy-assignment whose report throws"])
add("C14", [WATCH[k] for k in (3, 4, 5, 6, 7, 8)] + [WATCH_ASAN(4)],
    "as C13 with relocation watchers, with up to twelve relocation expectations of two times ranges per history; the base relocated only after the report",
    assumptions=["moving from an already moved-from watched object is outside the property (the library dereferences its moved-from mock)", "with both watchers combined, only expected relocations are explored (an unexpected one unwinds a lifetime watcher)"])

add("C15", [{"name": "c15", "src": "harness/c15.cpp"}],
    "five reporters (default on two streams and mute, callback-based, recording) x all histories of create/call/remove, each also while an exception propagates and inside a handler (all six nestings of the two to depth 3 (4)), to depth 5 (6), with reporters exchanged in between to depth 4 (5); every report kind handed directly to every reporter; every replacement history of length 6, also from other threads")

add("C16", [{"name": "c16", "src": "harness/c16.cpp"}],
    "1-3 expectations over three specs, each able to throw in one of six places (positional matcher, member-hook matcher, projection, argument matcher, further argument matcher, policy) x every string of 2-4 calls (thorough one more) x every subset of armed expectations per call x four exception types incl. the reporter's own; sequences; all histories with creation and removal, also while unwinding, to depth 5 (6)",
    assumptions=["an exception while describing (rather than evaluating) a requirement is outside the property"])

C17 = lambda k, name=None, fl=(), **kw: dict({"name": name or "c17_%d" % k, "src": "harness/c17.cpp", "flags": ["-O0", "-DPART=%d" % k] + list(fl)}, **kw)
FMT = ["-DMIMICPP_CONFIG_USE_FMT", "-DFMT_HEADER_ONLY"]
add("C17", [C17(k) for k in (1, 4, 11, 3, 2, 7, 0, 14, 15, 16, 13)] + [C17(0, "c17_fmt_0", FMT)] + [C17(k, thorough_only=True) for k in (5, 6, 8, 9, 10)] + [C17(1, "c17_fmt_1", FMT, thorough_only=True)],
    "55 leaf types (every value of a small set incl. null, empty, embedded NUL, braces, extremes), every leaf of 17 under every nesting of one, two and (six inner types) three of eleven wrappers with all sizes up to 2 and all element values; arrays, views and further special cases; const/mutable/rvalue and iterator outputs; arguments of reported calls by value, const reference and rvalue; std::format and {fmt}")

add("C18", [{"name": "c18_%d" % k, "src": "harness/c18.cpp", "flags": ["-O0", "-DPART=%d" % k]} for k in (1, 0, 2)]
    + [{"name": "c18_fmt_0", "src": "harness/c18.cpp", "flags": ["-O0", "-DPART=0"] + FMT}, {"name": "c18_fmt_1", "src": "harness/c18.cpp", "flags": ["-O0", "-DPART=1"] + FMT, "thorough_only": True}],
    "every report object over small domains (times bounds and counts incl. extremes, states x sequence counts, up to four requirements, three arguments, qualifiers, locations, headers) rendered directly, by the default and by the callback-based reporter; "
    "descriptions of every built-in matcher, negated or not, and of up to 24 arguments; reports with up to 1000 arguments, requirements, sequences or expectations; every text of every history of up to two expectations (five times ranges, up to two sequences) and 3-4 calls (4-5); compared with an independent rendering modulo layout and order within a section; std::format and {fmt}")

add("C19", [{"name": "c19", "src": "harness/c19.cpp"}, {"name": "c19asan", "src": "harness/c19.cpp", "flags": ASAN + ["-DSMALL"]}],
    "all histories of up to 5-7 (thorough 6-8) operations (call, create, remove, throwing finalizer), each issued at top level or from inside any of the three callbacks (two side effects, finalizer) of any running call, nested up to 3-5 calls, on one or two mocks, without and with a lazy or greedy sequence; three expectations whose requirements use another mock in each of six ways; two operations less under AddressSanitizer")

add("C20", [{"name": "c20", "src": "harness/c20rt.cpp", "flags": ["-O2"], "extra_objs": [("harness/c20.cpp", ["-O1", "-fsanitize=thread"])],
             "libs": ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__cxa_allocate_exception", "-pthread"]}],
    "2 threads x 2 operations and 3 threads x 1 operation (call with two arguments, create one of 2-3 specs, remove, query) on one mock with up to 2 initial expectations owned by a thread or by nobody; "
    "all schedules with switches at mutex operations and in every user callback, at most 1-2 (thorough up to 4) preemptions, unbounded for 2 x 1; atomics as switch points for 2 x 1; "
    "2-3 calling threads x 2 calls; two mocks used side by side; requirements that throw for some arguments; two mocks whose callbacks call each other and create and remove expectations; race and use-after-free detection on every schedule, results checked for linearizability",
    method="stateless model checking of thread schedules: the real headers, compiled with memory-access instrumentation, run under a controlled scheduler; every schedule within the preemption bound, with a vector-clock race detector and a brute-force linearizability check against the reference model",
    assumptions=["the scheduler and race detector in harness/c20rt.cpp", "memory accesses inside the shared C++ library (e.g. non-inlined std::string members) are not seen by the race detector", "sequentially consistent interleavings; weak-memory effects are covered only through the absence of data races", "user callbacks do not share state without synchronisation"],
    technique="exhaustive preemption-bounded schedule exploration of the real code (stateless model checking) with linearizability and data-race oracles")

add("C21", [{"name": "c21_%s_%d" % (kind, n), "src": "", "gen": ["gen_c21w.py", "--kind", kind, "--n", str(n)], "flags": ["-O0"], "thorough_only": deep}
       for kind, n, deep in (("overloads", 86, False), ("params", 30, False), ("params", 64, True), ("overloads", 31, True))]
    + [{"name": "c21_%d" % k, "src": "", "gen": ["gen_c21.py", "--part", str(k), "--parts", "8"], "flags": ["-O0"]} for k in range(8)]
    + [{"name": "c21_extra_%d" % k, "src": "", "gen": ["gen_c21.py", "--extra", "--part", str(k), "--parts", "6"], "flags": ["-O0"], "thorough_only": True} for k in range(6)],
    "generated interfaces: 0-6 parameters in every rotation of twelve passing modes, eight qualifier specs x ten return kinds, all overload sets of 2 and half (thorough all) of 3 and a fifth (all) of 4 out of nine overloads, parenthesised types, several methods and bases, virtual bases and classes derived from mocks, in all circumstances of calls, 30 (64) parameters and 86 overloads, the most the macros can handle; "
    "every subset of expectations, every sequence of 1-2 (3) calls through the base interface or the derived object, lvalue and rvalue hand-over, all compared with the same call on the mock member",
    assumptions=["&&-qualified interface methods are outside the property (the mock member is always an lvalue)", "types whose declarator surrounds the name (function pointers, array references) need an alias"])

add("C22", [{"name": "c22_" + m, "src": "", "gen": ["gen_c22.py", "--mode", m], "flags": ["-O0"]} for m in ("unary", "pairs", "sets")],
    "1080 signatures (12 qualifier combinations x 5 return types x 9 parameter lists, with and without C ellipsis) for every unary trait; all 5184 ordered pairs of 72 signatures for is_overloadable_with, 576 of them also for is_overload_set and Mock<>; ordered triples of 12 signatures and permutations of 4 and 5 for is_overload_set, sets of 5-9 signatures with one conflicting or compatible pair at every two positions; "
    "legality of an overload set is decided by g++ on plain class definitions",
    method="exhaustive enumeration of a bounded space of programs (signatures and signature sets); every trait value is compared with the spelled-out type or with the verdict of the compiler on the corresponding class definition",
    assumptions=["g++ as the judge of legal overload sets", "signatures with a C ellipsis are only covered by the unary traits (mocks do not support them)"])

add("C23", [{"name": "c23", "src": "harness/c23.cpp", "flags": ["-O2"]}],
    "all ordered pairs of: 256 source locations (file, function, line, column incl. equal text at other addresses, alone and inside every report), about 1100 call reports, 1300 expectation reports, 4400 match reports (all control states x finalizer x location x requirement), 2300 match reports differing in up to three requirements, 900 control states, 490 call descriptions with equal and identical arguments (thorough: lists one longer); values that differ late or slightly: 40 similar types, texts of up to 1024 characters, lists of up to 41 entries, numbers beyond every narrow integer",
    method="exhaustive enumeration of all pairs of values of bounded products; the real comparison operators are compared with equality of the abstract contents",
    assumptions=["source locations are fabricated through libstdc++'s representation"])

add("C24", [{"name": "c24_%d" % k, "src": "harness/c24.cpp", "flags": ["-O0", "-DPART=%d" % k]} for k in (4, 0, 1, 2, 3)],
    "32 chains of 1-3 custom policies at every position among times, sequences, requirements, side effects and (custom) finalizers; every assignment of verdicts (4 resp. 3 masks), satisfaction points (always, after 1, later), descriptions (given or not), throwing policies, "
    "times ranges and requirement masks with every call string of length 2-3; all pairs of expectations (reduced menus) with every call string of length 3 (4) and either removal order; eight matcher types (member, traits, static, partially specialized, mixed, move-only) in nine uses with all accepted sets and values",
    assumptions=["policies whose consume throws are outside the property (documented to terminate)"])

add("C25", [{"name": "c25_catch2", "src": "harness/c25_catch2.cpp", "flags": ["-O0", "-DMIMICPP_CONFIG_EXPERIMENTAL_CATCH2_MATCHER_INTEGRATION"], "libs": ["-lCatch2"]},
            {"name": "c25_doctest", "src": "harness/c25_doctest.cpp", "flags": ["-O0"], "libs": ["-pthread"]},
            {"name": "c25_catch2_prefixed", "src": "harness/c25_catch2.cpp", "flags": ["-O0", "-DCATCH_CONFIG_PREFIX_ALL"], "libs": ["-lCatch2"]},
            {"name": "c25_doctest_prefixed", "src": "harness/c25_doctest.cpp", "flags": ["-O0", "-DPREFIXED"], "libs": ["-pthread"]},
            {"name": "c25_gtest", "src": "harness/c25_gtest.cpp", "flags": ["-O0"], "libs": ["-lgtest", "-pthread"]},
            {"name": "c25_boost", "src": "harness/c25_boost.cpp", "flags": ["-O0"], "libs": ["-l:libboost_unit_test_framework.a"]}],
    "every sequence of up to 4 (thorough 5) steps out of sixteen (each report kind, report kinds while an exception unwinds, live unfulfilled expectations, exceptions of the test), aborting ones also with the exception handled inside the test case, run as one test case of GoogleTest, Catch2, Doctest (both also with prefixed macros) and Boost.Test; "
    "the listener's events, the verdict and the continuation are compared with a model and with the texts a capturing reporter gets in the same history; Catch2 matchers of both styles over small values",
    assumptions=["the frameworks deliver their events faithfully to listeners", "GoogleTest has no non-failing messages; Boost.Test records successes only as messages"])

C26 = lambda mode, k, n, *more, **kw: dict({"name": "c26_%s%s_%d" % (mode, "".join(more).replace("--", "_"), k), "src": "", "gen": ["gen_c26.py", "--mode", mode, "--part", str(k), "--parts", str(n)] + list(more), "flags": ["-O0"]}, **kw)
add("C26", [C26("clauses", k, 10) for k in range(10)] + [C26("args", k, 2) for k in range(2)] + [C26("programs", 0, 1)] + [C26("clauses", k, 10, "--deep", thorough_only=True) for k in range(10)],
    "ten signatures x seven builder states x about 200 clauses (each times, sequence, finalizer, side effect, requirement and policy form, index up to 3, with fitting and unfitting functions, matchers and policies), as rvalue, for a selection (thorough: all) also as lvalue and const; "
    "all argument lists of up to two out of thirteen values and matchers for 26 parameter lists; 22 programs (refused ones next to accepted twins); copyability of all handles; macro names in both configurations",
    method="exhaustive enumeration of a bounded space of programs (chains of clauses per signature); the compiler's verdict on each is compared with the language's traits on the spelled-out types",
    assumptions=["g++ as the judge of what compiles"])


# scenarios that several checks share (lib/ctx.hpp)
for _pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C13", "C14", "C24"):
    _text = "; the operations of smaller histories also run in every circumstance of six (plainly, while the stack unwinds, in a handler, on another thread, and the two nestings of these)"
    CHECKS[_pid]["bounds"] += _text
    CHECKS[_pid]["note"] += _text
CHECKS["C17"]["bounds"] += "; ranges and strings of up to 100001 elements, tuples of up to 33"
