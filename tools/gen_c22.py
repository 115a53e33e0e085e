#!/usr/bin/env python3
"""C22: tables of trait results next to what the language says.
Expected types are spelled out; whether signatures may be overloaded is decided by the compiler (g++) on plain class definitions."""
import itertools
import os
import re
import subprocess
import sys

out = sys.argv[sys.argv.index("--out") + 1]
mode = sys.argv[sys.argv.index("--mode") + 1]

QUALS = [" ".join(x for x in (c, r, n) if x) for c in ("", "const") for r in ("", "&", "&&") for n in ("", "noexcept")]
PRE = "struct X { int v; };\n"


def sig(r, ps, q, va=False):
    return "%s(%s) %s" % (r, ", ".join(list(ps) + (["..."] if va else [])), q)


def legal(groups):
    """which lists of (return, params, qualifiers) can be members of one class, according to g++"""
    src = out + ".oracle.cpp"
    with open(src, "w") as f:
        f.write(PRE)
        for i, g in enumerate(groups):
            f.write("struct S%d { %s };\n" % (i, " ".join("%s f(%s) %s;" % (r, ", ".join(p), q) for r, p, q in g)))
    p = subprocess.run(["g++", "-std=c++20", "-fsyntax-only", "-fmax-errors=0", "-fno-diagnostics-show-caret", "-w", src], capture_output=True, text=True)
    bad = set(int(m) for m in re.findall(r":(\d+):\d+: error: ", p.stderr))
    first = PRE.count("\n") + 1
    os.unlink(src)
    res = [first + i not in bad for i in range(len(groups))]
    if all(res) or not any(res):
        sys.exit("the oracle gave a constant answer")
    return res


o = ['#include "mc.hpp"\n#include "mimic++/mimic++.hpp"\n#include "mimic++/TypeTraits.hpp"\n', PRE, '''
struct Row { const char* what; bool ok; };
template <typename... S> concept mockable = requires { typename mimicpp::Mock<S...>; };
template <std::size_t I, typename S> concept has_param = requires { typename mimicpp::signature_param_type_t<I, S>; };
static void run(const Row* rows, int n)
{
	int blocks = (n + 63) / 64;
	const int b = blocks > 1 ? mc::choose(blocks) : 0;
	for (int i = b * 64; i < std::min(n, b * 64 + 64); ++i)
	{
		mc::note(rows[i].what);
		mc::check(rows[i].ok, rows[i].what);
	}
}
''']
tables = []


def table(name, rows):
    o.append("static const Row %s[] {\n" % name)
    for what, expr in rows:
        o.append('\t{"%s", %s},\n' % (what.replace('"', "'"), expr))
    o.append("};\n")
    tables.append((name, len(rows)))


if mode == "unary":
    RETS = ["void", "int", "const X&", "X&&", "X"]
    LISTS = [[], ["int"], ["X&"], ["const X&"], ["X&&"], ["int", "X"], ["X", "int"], ["const X*", "int&&"], ["int", "int", "X&", "const int&", "X"]]
    rows = []
    for r in RETS:
        for ps in LISTS:
            for q in QUALS:
                for va in (False, True):
                    s = sig(r, ps, q, va)
                    bare = q.replace("noexcept", "").strip()
                    name = " ".join(s.split())

                    def same(trait, want, label):
                        rows.append(("%s of %s" % (label, name), "std::is_same_v<%s, %s>" % (trait, want)))
                    same("mimicpp::signature_decay_t<%s>" % s, sig(r, ps, "", va), "signature_decay")
                    same("mimicpp::signature_add_noexcept_t<%s>" % s, sig(r, ps, bare + " noexcept", va), "signature_add_noexcept")
                    same("mimicpp::signature_remove_noexcept_t<%s>" % s, sig(r, ps, bare, va), "signature_remove_noexcept")
                    same("mimicpp::signature_return_type_t<%s>" % s, r, "signature_return_type")
                    if not va:
                        same("mimicpp::signature_param_list_t<%s>" % s, "std::tuple<%s>" % ", ".join(ps), "signature_param_list")
                        for i, p in enumerate(ps):
                            same("mimicpp::signature_param_type_t<%d, %s>" % (i, s), p, "signature_param_type %d" % i)
    table("unary", rows)
    rows = []
    for n, t in ((1, "std::uint8_t"), (2, "std::uint16_t"), (4, "std::uint32_t"), (8, "std::uint64_t")):
        rows.append(("uint_with_size<%d>" % n, "std::is_same_v<mimicpp::uint_with_size_t<%d>, %s>" % (n, t)))
    table("misc", rows)
else:
    LISTS = [[], ["int"], ["const int&"], ["int&"], ["int", "int"], ["X"]]
    RETS = ["int", "void", "const X&"]
    k = 0
    sigs = []
    for ps in LISTS:
        for q in QUALS:
            sigs.append((RETS[k % 3], ps, q))
            k += 1
    if mode == "pairs":
        pairs = list(itertools.product(sigs, sigs))
        want = legal(pairs)
        rows = []
        for (a, b), w in zip(pairs, want):
            n = "%s | %s" % (" ".join(sig(*a).split()), " ".join(sig(*b).split()))
            v = "true" if w else "false"
            rows.append(("is_overloadable_with: %s (%s)" % (n, "legal" if w else "illegal"), "mimicpp::is_overloadable_with_v<%s, %s> == %s" % (sig(*a), sig(*b), v)))
            if sigs.index(a) < 24 and sigs.index(b) < 24:
                rows.append(("is_overload_set: %s (%s)" % (n, "legal" if w else "illegal"), "mimicpp::is_overload_set_v<%s, %s> == %s" % (sig(*a), sig(*b), v)))
                rows.append(("Mock: %s (%s)" % (n, "legal" if w else "illegal"), "mockable<%s, %s> == %s" % (sig(*a), sig(*b), v)))
        table("pairs", rows)
    else:
        few = [s for s in sigs[:24] if "noexcept" not in s[2] or s[2] in ("noexcept", "const & noexcept")]
        few = [s for s in few if s[1] == ["int"]] + [s for s in few if s[1] == []][:4]
        sets = list(itertools.product(few, repeat=3))
        bare = [s for s in few if s[1] == ["int"] and "noexcept" not in s[2]] + [s for s in few if s[1] == []][:1]
        sets += [list(c) for n in (4, 5) for c in itertools.permutations(bare, n) if n == 4 or c[0] == bare[0]]
        # larger sets of distinct parameter lists, alone and with one member that conflicts with another one
        PARAMS = ["int", "long", "char", "X", "X*", "const X*", "int*", "double", "short"]
        for n in (5, 6, 7, 8, 9):
            base = [(RETS[i % 3], [PARAMS[i]], ["", "&", "const &&", "const"][i % 4]) for i in range(n)]
            sets.append(base)
            for i in range(n):
                for j in range(n):
                    if i != j:
                        # j becomes an overload of i: the same signature, another return type, or an allowed and a forbidden change of qualifiers
                        for q, r in ((base[i][2], base[i][0]), (base[i][2], RETS[(i + 1) % 3]), ({"": "const", "&": "&&", "const &&": "&&", "const": ""}[base[i][2]], base[i][0]), ({"": "&", "&": "", "const &&": "const", "const": "const &"}[base[i][2]], base[i][0])):
                            c = list(base)
                            c[j] = (r, base[i][1], q)
                            sets.append(c)
        want = legal(sets)
        rows = []
        for s, w in zip(sets, want):
            n = " | ".join(" ".join(sig(*x).split()) for x in s)
            rows.append(("is_overload_set: %s (%s)" % (n, "legal" if w else "illegal"), "mimicpp::is_overload_set_v<%s> == %s" % (", ".join(sig(*x) for x in s), "true" if w else "false")))
        table("sets", rows)

o.append("int main(int argc, char** argv)\n{\n\treturn mc::main(argc, argv, {\n")
for n, c in tables:
    o.append('\t\t{"%s", [] { run(%s, %d); }},\n' % (n, n, c))
o.append("\t}, 1);\n}\n")
open(out, "w").write("".join(o))
