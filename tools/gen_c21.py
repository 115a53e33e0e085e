#!/usr/bin/env python3
"""Interface mocks for C21: single methods (arity 0..6 x passing modes, specs x return kinds) and overload sets."""
import itertools
import sys

out = sys.argv[sys.argv.index("--out") + 1]
part = int(sys.argv[sys.argv.index("--part") + 1])
parts = int(sys.argv[sys.argv.index("--parts") + 1])

MODES = ["Cnt", "const Cnt&", "Cnt&&", "Cnt&", "int", "Uniq", "const Cnt&&", "Cnt*", "std::map<int, Cnt>", "const std::pair<int, Cnt>&", "double", "Uniq&&"]
RETS = ["void", "int", "Cnt", "Uniq", "Cnt&", "const Cnt&", "Cnt&&", "Cnt*", "std::pair<int, Cnt>", "const std::map<int, Cnt>&"]
SPECS = ["", "const", "noexcept", "const noexcept", "&", "const &", "& noexcept", "const & noexcept"]


def paren(t):
    return "(%s)" % t if "," in t else t


class Fn:
    def __init__(self, ret, params, spec):
        self.ret, self.params, self.spec = ret, list(params), spec

    def virtual(self):
        return "virtual %s foo(%s) %s = 0;" % (self.ret, ", ".join(self.params), self.spec)

    def args(self):
        a = "%s, (%s)" % (paren(self.ret), ", ".join(paren(p) for p in self.params))
        return a + (", " + self.spec if self.spec else "")

    def ov(self):
        return "Ov<%d, %d, %d, %s>" % ("const" in self.spec, "&" in self.spec, "noexcept" in self.spec, ", ".join([self.ret] + self.params))

    def sig(self):
        return "%s(%s) %s" % (self.ret, ", ".join(self.params), self.spec)


cases = []
extra = []
n = 0
for a in range(7):
    for r in range(len(MODES) if a else 1):
        ps = [MODES[(r + i) % len(MODES)] for i in range(a)]
        cases.append([Fn(RETS[n % len(RETS)], ps, SPECS[(n // 3) % len(SPECS)])])
        n += 1
for i, s in enumerate(SPECS):
    for k, r in enumerate(RETS):
        (extra if (i + k) % 2 else cases).append([Fn(r, [MODES[(i * 5 + k) % len(MODES)]], s)])
POOL = [Fn("int", [], ""), Fn("Cnt&", ["int"], ""), Fn("const Cnt&", ["int"], "const"), Fn("Cnt", ["const Cnt&"], "const noexcept"), Fn("void", ["Cnt&&"], ""),
        Fn("std::pair<int, Cnt>", ["int", "Cnt"], ""), Fn("Uniq", ["std::map<int, Cnt>"], "&"), Fn("int", ["std::map<int, Cnt>"], "const &"), Fn("int", ["Other", "Uniq", "Cnt&"], "noexcept")]
k = 0
for size in (2, 3, 4):
    for s in itertools.combinations(range(len(POOL)), size):
        l = list(s)
        rot = k % size
        l = l[rot:] + l[:rot]
        if k % 3 == 2:
            l.reverse()
        (cases if size == 2 or k % (2 if size == 3 else 5) == 0 else extra).append([POOL[i] for i in l])
        k += 1
cases.append([POOL[i] for i in range(len(POOL))][:6])
if "--extra" in sys.argv:
    cases = extra

o = ['#include "c21_driver.hpp"\n']
names = []
for n, fs in enumerate(cases):
    if n % parts != part:
        continue
    o.append("struct Case%d {\n\tstruct I {\n\t\tvirtual ~I() = default;\n" % n)
    for f in fs:
        o.append("\t\t%s\n" % f.virtual())
    o.append("\t};\n\tstruct M final : I {\n")
    prefix = "MIMICPP_" if n % 2 else ""
    if len(fs) == 1 and n % 3 != 2:
        o.append("\t\t%sMOCK_METHOD(foo, %s);\n" % (prefix, fs[0].args()))
    else:
        o.append("\t\t%sMOCK_OVERLOADED_METHOD(foo,\n%s);\n" % (prefix, ",\n".join("\t\t\t%sADD_OVERLOAD(%s)" % (prefix, f.args()) for f in fs)))
    o.append("\t};\n\tusing Overloads = std::tuple<%s>;\n" % ", ".join(f.ov() for f in fs))
    o.append("\tstatic constexpr const char* name = \"%s\";\n};\n" % " | ".join(" ".join(f.sig().split()) for f in fs))
    names.append((n, len(fs)))
if part == 0 and "--extra" not in sys.argv:
    o.append(open(__file__.replace("gen_c21.py", "../lib/c21_fixed.hpp")).read())
o.append("int main(int argc, char** argv)\n{\n\treturn mc::main(argc, argv, {\n")
if part == 0 and "--extra" not in sys.argv:
    o.append('\t\t{"several-methods", [] { fixed::several(); }},\n\t\t{"multiple-inheritance", [] { fixed::multiple(); }},\n\t\t{"derived-mocks", [] { fixed::derived(); }},\n')
for n, size in names:
    calls = {1: "2", 2: "mc::by_tier(2, 3)", 3: "mc::by_tier(2, 3)"}.get(size, "1")
    o.append('\t\t{"case-%d", [] { Driver<Case%d>::run(%s); }},\n' % (n, n, calls))
o.append("\t}, 3);\n}\n")
open(out, "w").write("".join(o))
