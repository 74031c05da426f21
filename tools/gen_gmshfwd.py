#!/usr/bin/env python3
"""Writes harness/gmshfwd.hpp from the mesher's header and the wrapper's header.

Run by hand when the wrapped interface grows; checks use the committed result.
"""
import os
import parse_api

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


# Declared by the library but left without a definition (commented out in its source).
ABSENT = {"model::getAttributeNames", "model::getAttribute", "model::setAttribute",
          "model::removeAttribute", "model::mesh::removeDuplicateElements",
          "model::mesh::computeHomology", "model::geo::addSpline", "model::occ::addSpline",
          "model::occ::addThruSections"}


def full(t):
    return t.replace("gmsh::vectorpair", "vectorpair").replace("vectorpair", "::gmsh::vectorpair")


def bare(t):
    return full(t.replace("const ", "").replace("&", "").strip())


def is_out(t):
    return t.endswith("&") and not t.startswith("const ")


def main():
    theirs = {f[0]: f for f in parse_api.functions("/usr/include/gmsh.h", "gmsh")}
    ours = parse_api.functions(REPO + "/include/um2/gmsh/base_gmsh_api.hpp", "um2::gmsh")
    ours = [f for f in ours if f[0] in theirs and f[0] not in ABSENT]
    out = ["// Written by tools/gen_gmshfwd.py", ""]
    out.append("// Recording stand-ins for the mesher's functions.")
    for q, _, _ in ours:
        _, ret, args = theirs[q]
        ns = q.split("::")[:-1]
        name = q.split("::")[-1]
        out.append("namespace gmsh" + "".join("::" + n for n in ns))
        out.append("{")
        pars = ", ".join(full(t) + " a%d" % i
                         for i, (t, _, _) in enumerate(args))
        out.append("%s %s(%s)" % (ret, name, pars))
        out.append("{")
        out.append('  fwd::begin("%s");' % q)
        for i, (t, _, _) in enumerate(args):
            if not is_out(t):
                out.append("  fwd::in(a%d);" % i)
        for i, (t, _, _) in enumerate(args):
            if is_out(t):
                out.append("  fwd::out(a%d);" % i)
        if ret != "void":
            out.append("  return fwd::ret<%s>();" % ret)
        out.append("}")
        out.append("}")
    out.append("")
    out.append("// One call of every wrapper, with a number of trailing arguments left out.")
    table = []
    for k, (q, ret, args) in enumerate(ours):
        gargs = theirs[q][2]
        out.append("static void t%d(vh::Rng & r, int omit)" % k)
        out.append("{")
        for i, (t, _, _) in enumerate(args):
            out.append("  auto a%d = fwd::gen<%s>(r);" % (i, bare(t)))
        ndef = len([a for a in args if a[2] is not None])
        out.append('  fwd::expect("%s");' % q)
        for i, (t, _, _) in enumerate(gargs):
            if is_out(t):
                continue
            d = gargs[i][2]
            if i >= len(args):
                out.append("  fwd::want(%s(%s));" % (bare(t), d))
            elif d is None or args[i][2] is None:
                out.append("  fwd::want(a%d);" % i)
            else:
                out.append("  if (omit >= %d) fwd::want(static_cast<%s>(%s)); else fwd::want(a%d);"
                           % (len(args) - i, bare(t), full(d), i))
        if ret != "void":
            out.append("  %s rv{};" % ret)
        out.append("  switch (omit) {")
        for o in range(ndef + 1):
            call = "um2::gmsh::%s(%s)" % (q, ", ".join("a%d" % i for i in range(len(args) - o)))
            out.append("  %s: %s%s; break;" % ("default" if o == 0 else "case %d" % o,
                                              "rv = " if ret != "void" else "", call))
        out.append("  }")
        for i, (t, _, _) in enumerate(args):
            if is_out(t):
                out.append("  fwd::got(a%d);" % i)
        if ret != "void":
            out.append("  fwd::gotRet(rv);")
        out.append("}")
        table.append('  {"%s", t%d, %d},' % (q, k, ndef))
    out.append("static Wrapped const table[] = {")
    out += table
    out.append("};")
    with open(os.path.join(HERE, "..", "harness", "gmshfwd.hpp"), "w") as f:
        f.write("\n".join(out) + "\n")
    print(len(ours))


main()
