#!/usr/bin/env python3
"""Generates all legal qualified overload sets of one parameter list (88 with noexcept patterns) for the C07 harness."""
import itertools
import sys

out = sys.argv[sys.argv.index("--out") + 1]
part = int(sys.argv[sys.argv.index("--part") + 1])
parts = int(sys.argv[sys.argv.index("--parts") + 1])

nonref = [("", ""), ("const", "")]
ref = [(c, r) for c in ("", "const") for r in ("&", "&&")]


def subsets(l):
    for n in range(1, len(l) + 1):
        yield from itertools.combinations(l, n)


sets = list(subsets(nonref)) + list(subsets(ref))
cases = []
for k, s in enumerate(sets):
    for ne in itertools.product((0, 1), repeat=len(s)):
        other = sets[(k * 7 + 3 + sum(ne)) % len(sets)]
        cases.append((s, ne, other))

o = ['#include "c07_driver.hpp"\n']
names = []
for n, (s, ne, other) in enumerate(cases):
    if n % parts != part:
        continue
    sig = ["int(int) %s %s %s" % (c, r, "noexcept" if x else "") for (c, r), x in zip(s, ne)]
    retB = "void" if n % 2 else "std::string"
    neB = [(n // 2 >> (i % 3)) & 1 for i in range(len(other))]
    sigB = ["%s(const std::string&) %s %s %s" % (retB, c, r, "noexcept" if x else "") for (c, r), x in zip(other, neB)]
    o.append("struct Set%d {\n\tusing MockT = mimicpp::Mock<%s>;\n\tstruct Oracle {\n" % (n, ", ".join(sig + sigB)))
    for i, ((c, r), x) in enumerate(zip(s, ne)):
        o.append("\t\tstd::integral_constant<int, %d> f(int) %s %s %s;\n" % (i, c, r, "noexcept" if x else ""))
    for i, (c, r) in enumerate(other):
        o.append("\t\tstd::integral_constant<int, %d> f(const std::string&) %s %s;\n" % (10 + i, c, r))
    o.append("\t};\n\tstatic constexpr Overload overloads[]{")
    for (c, r), x in zip(s, ne):
        o.append("{%d,%d,%d}," % (1 if c else 0, {"": 0, "&": 1, "&&": 2}[r], x))
    o.append("};\n\tstatic constexpr Overload others[]{")
    for (c, r), x in zip(other, neB):
        o.append("{%d,%d,%d}," % (1 if c else 0, {"": 0, "&": 1, "&&": 2}[r], x))
    o.append("};\n\tstatic constexpr bool isVoid = %d;\n\tstatic constexpr const char* name = \"%s\";\n};\n" % (n % 2, " | ".join(" ".join(x.split()) for x in sig + sigB)))
    names.append(n)
o.append("int main(int argc, char** argv)\n{\n\treturn mc::main(argc, argv, {\n")
for n in names:
    o.append('\t\t{"set-%d", [] { scenario<Set%d>(); }},\n' % (n, n))
o.append("\t}, 2);\n}\n")
open(out, "w").write("".join(o))
