// C23: data library files generated from a model, read and compared with it.
#include "vh.hpp"

#include <um2/common/logger.hpp>
#include <um2/physics/cross_section_library.hpp>

#include <algorithm>
#include <set>

struct MXs {
  std::vector<Float> a, f, nuf, tr, s;
  std::vector<Float> ss; // row (to) * g + column (from)
  bool fissile = false;
};
struct MNuc {
  int zaid = 0;
  Float mass = 0;
  std::vector<Float> t;
  std::vector<MXs> xs;
};

struct Style {
  int digits = 5;
  bool upper = true;
  bool plain = false;
  int width = 14;
  int per_line = 10;
  bool trailing = false;
};

static std::string
num(vh::Rng & rng, Style const & st, double v, Float & value)
{
  char buf[64];
  if (st.plain && std::abs(v) > 1e-3 && std::abs(v) < 1e6) {
    snprintf(buf, sizeof buf, "%.*f", st.digits, v);
  } else if (st.upper) {
    snprintf(buf, sizeof buf, "%.*E", st.digits, v);
  } else {
    snprintf(buf, sizeof buf, "%.*e", st.digits, v);
  }
  (void)rng;
  value = sizeof(Float) == 4 ? (Float)strtof(buf, nullptr) : (Float)strtod(buf, nullptr);
  return buf;
}

static std::string
field(Style const & st, std::string const & s)
{
  std::string r;
  if ((int)s.size() < st.width) {
    r.assign((size_t)st.width - s.size(), ' ');
  } else {
    r = " ";
  }
  return r + s;
}

static std::string
block(vh::Rng & rng, Style const & st, std::vector<std::string> const & items)
{
  std::string t;
  size_t i = 0;
  while (i < items.size()) {
    for (int k = 0; k < st.per_line && i < items.size(); ++k, ++i) {
      t += field(st, items[i]);
    }
    if (st.trailing && rng.chance(0.5)) {
      t += std::string((size_t)rng.range(1, 5), ' ');
    }
    t += "\n";
  }
  return t;
}

static void
oneLibrary(vh::Rng & rng, uint64_t index)
{
  Style st;
  st.digits = rng.range(3, 12);
  st.upper = rng.chance(0.5);
  st.plain = rng.chance(0.3);
  st.width = rng.range(1, 20);
  st.per_line = rng.chance(0.3) ? 10 : rng.range(1, 12);
  st.trailing = rng.chance(0.3);
  int const ng = rng.chance(0.04) ? rng.range(60, 260) : rng.chance(0.15) ? rng.range(20, 60) : rng.range(1, 12);
  int const nn = ng > 60 ? rng.range(1, 2) : rng.range(1, 7);
  std::string t = "%VER:\n" + std::string((size_t)rng.range(0, 4), ' ') + "4.2m5 " + (rng.chance(0.5) ? "12062016\n" : "\n");
  int const dims[10] = {ng, rng.range(0, ng), rng.range(0, 9), rng.range(0, 9), nn, rng.range(0, 99), rng.range(0, 99), rng.range(0, 99), rng.range(0, 9), rng.range(0, 9)};
  t += "%DIM:\n";
  for (int const d : dims) {
    t += vh::fmt("%*d", rng.range(1, 2) * 3 + 3, d);
  }
  t += (st.trailing && rng.chance(0.5) ? "  \n" : "\n");
  std::vector<Float> bounds((size_t)ng);
  std::vector<Float> chi((size_t)ng);
  std::vector<std::string> items;
  double e = 2e7;
  Style gs = st;
  gs.digits = std::max(st.digits, 6);
  for (auto & b : bounds) {
    items.push_back(num(rng, gs, e, b));
    e *= ng > 60 ? rng.uni(0.9, 0.95) : rng.uni(0.1, 0.8);
  }
  bool ordered = true;
  for (size_t i = 1; i < bounds.size(); ++i) {
    ordered = ordered && bounds[i] < bounds[i - 1];
  }
  if (!ordered) {
    return; // plain notation ran out of digits
  }
  t += "%GRP:\n" + block(rng, st, items);
  items.clear();
  for (auto & c : chi) {
    items.push_back(num(rng, st, rng.chance(0.3) ? 0.0 : rng.logu(1e-8, 1), c));
  }
  t += "%CHI:\n" + block(rng, st, items);
  // nuclides
  std::vector<MNuc> model;
  std::set<int> ids;
  while ((int)model.size() < nn) {
    MNuc n;
    n.zaid = rng.range(1, 98) * 1000 + rng.range(0, 999);
    if (ids.insert(n.zaid).second) {
      model.push_back(n);
    }
  }
  t += "%DIR:\n";
  int k = 0;
  for (auto const & n : model) {
    t += vh::fmt("  %d %d 1 2 3 NUCL-%d\n", ++k, n.zaid, n.zaid);
  }
  if (rng.chance(0.3)) {
    t += "\n some more of the directory\n";
  }
  k = 0;
  bool banded = false;
  bool only_absorption = false;
  size_t longest = 0;
  for (auto & n : model) {
    int const nt = rng.range(1, ng > 60 ? 2 : 6);
    t += vh::fmt("%%NUC%s", rng.chance(0.5) ? ":" : "");
    t += vh::fmt(" %*d %*d %s", rng.range(1, 6), ++k, rng.range(1, 7), n.zaid, num(rng, st, rng.uni(1, 255), n.mass).c_str());
    t += vh::fmt(" %d %d %d %d %d %d %d  name-%d\n", rng.range(0, 3), rng.range(0, 9), rng.range(0, 9), rng.range(0, 9), nt, rng.range(0, 9), rng.range(0, 9), n.zaid);
    t += rng.chance(0.5) ? "TP1+\n" : "  TP1+\n";
    double temp = rng.uni(250, 600);
    n.t.resize((size_t)nt);
    n.xs.resize((size_t)nt);
    std::string line;
    for (auto & x : n.t) {
      line += field(st, num(rng, gs, temp, x));
      temp += rng.uni(5, 500);
    }
    t += line + (st.trailing && rng.chance(0.5) ? "   " : "") + "\n";
    t += rng.chance(0.5) ? "XSD+\n" : " XSD+ \n";
    for (auto & x : n.xs) {
      x.a.assign((size_t)ng, 0);
      x.f = x.nuf = x.tr = x.s = x.a;
      x.ss.assign((size_t)(ng * ng), 0);
    }
    bool const fissile = rng.chance(0.4);
    bool const full = rng.chance(0.3);
    bool const absorber = rng.chance(0.2);
    for (int g = 0; g < ng; ++g) {
      for (int it = 0; it < nt; ++it) {
        MXs & x = n.xs[(size_t)it];
        auto const q = (size_t)g;
        auto val = [&](double lo, double hi) { return rng.logu(lo, hi) * (rng.chance(0.02) ? -1 : 1); };
        line = vh::fmt("%*d%*d", rng.range(1, 5), g + 1, rng.range(1, 3) + 2, it + 1);
        line += field(st, num(rng, st, val(1e-6, 1e4), x.a[q]));
        if (absorber && rng.chance(0.8)) {
          only_absorption = true;
        } else {
          double const f = fissile && rng.chance(0.9) ? rng.logu(1e-2, 1e3) : 0.0;
          line += field(st, num(rng, st, f, x.f[q]));
          line += field(st, num(rng, st, f * rng.uni(2.2, 3), x.nuf[q]));
          x.fissile = x.fissile || x.f[q] > 0;
          line += field(st, num(rng, st, val(1e-3, 1e3), x.tr[q]));
          line += field(st, num(rng, st, val(1e-3, 1e3), x.s[q]));
          int lo = 0;
          int hi = ng - 1;
          if (!full) {
            lo = rng.range(0, g);
            hi = rng.range(g, ng - 1);
            banded = banded || lo > 0 || hi < ng - 1;
          }
          line += vh::fmt(" %d %d", lo + 1, hi + 1);
          for (int c = lo; c <= hi; ++c) {
            line += field(st, num(rng, st, rng.chance(0.1) ? 0.0 : val(1e-7, 1e2), x.ss[(size_t)(g * ng + c)]));
          }
        }
        if (st.trailing && rng.chance(0.3)) {
          line += "  ";
        }
        longest = std::max(longest, line.size());
        t += line + "\n";
      }
    }
    // sections the library does not use
    if (rng.chance(0.6)) {
      t += "SUB+\n";
      for (int q = rng.range(0, 5); q > 0; --q) {
        t += vh::fmt("  %d 1.0 2.0 3.0E+00\n", q);
      }
      if (rng.chance(0.3)) {
        t += "\n";
      }
    }
  }
  t += "%END\n";
  if (rng.chance(0.2)) {
    t += "trailing text\n";
  }
  std::string const path = vh::ctx().scratch + "/lib.fmt";
  FILE * fp = fopen(path.c_str(), "w");
  if (fp == nullptr) {
    exit(3);
  }
  fwrite(t.data(), 1, t.size(), fp);
  fclose(fp);

  um2::XSLibrary const lib(um2::String(path.c_str()));
  std::string const what = vh::fmt("%d groups, %d nuclides, %d per line, %d digits, longest line %zu%s", ng, nn, st.per_line, st.digits, longest, st.trailing ? ", trailing blanks" : "");
  if (lib.numGroups() != ng || lib.chi().size() != ng || lib.nuclides().size() != nn) {
    vh::fail("size", "read %d groups, %d spectrum values, %d nuclides: %s", lib.numGroups(), lib.chi().size(), lib.nuclides().size(), what.c_str());
    return;
  }
  for (Int i = 0; i < ng; ++i) {
    VH(lib.groupBounds()[i] == bounds[(size_t)i], "bounds", "bound %d is %.17g instead of %.17g: %s", i, (double)lib.groupBounds()[i], (double)bounds[(size_t)i], what.c_str());
    VH(lib.chi()[i] == chi[(size_t)i], "spectrum", "value %d is %.17g instead of %.17g: %s", i, (double)lib.chi()[i], (double)chi[(size_t)i], what.c_str());
  }
  std::vector<int> order;
  for (int i = 0; i < nn; ++i) {
    order.push_back(i);
  }
  rng.shuffle(order);
  for (int const i : order) {
    MNuc const & m = model[(size_t)i];
    auto const & direct = lib.nuclides()[i];
    um2::Nuclide const & n = lib.getNuclide(m.zaid);
    VH(&n == &direct, "lookup", "looking up %d gives %d: %s", m.zaid, n.zaid(), what.c_str());
    VH(direct.zaid() == m.zaid, "identity", "nuclide %d is %d instead of %d: %s", i, direct.zaid(), m.zaid, what.c_str());
    VH(direct.mass() == m.mass, "mass", "nuclide %d: %.17g instead of %.17g: %s", i, (double)direct.mass(), (double)m.mass, what.c_str());
    if (n.temperatures().size() != (Int)m.t.size() || n.xs().size() != (Int)m.t.size()) {
      vh::fail("temperatures", "nuclide %d has %d temperatures instead of %zu: %s", i, n.temperatures().size(), m.t.size(), what.c_str());
      continue;
    }
    bool fissile = false;
    for (size_t it = 0; it < m.t.size(); ++it) {
      VH(n.temperatures()[(Int)it] == m.t[it], "temperatures", "nuclide %d: %.17g instead of %.17g: %s", i, (double)n.temperatures()[(Int)it], (double)m.t[it], what.c_str());
      auto const & x = n.xs()[(Int)it];
      MXs const & r = m.xs[it];
      fissile = fissile || r.fissile;
      VH(!x.isMacro(), "macro", "nuclide %d is macroscopic: %s", i, what.c_str());
      VH(x.isFissile() == r.fissile, "fissile", "nuclide %d temperature %zu: %s", i, it, what.c_str());
      if (x.numGroups() != ng) {
        vh::fail("size", "nuclide %d: %d groups: %s", i, x.numGroups(), what.c_str());
        continue;
      }
      for (Int g = 0; g < ng; ++g) {
        auto const q = (size_t)g;
        VH(x.a()[g] == r.a[q], "absorption", "nuclide %d group %d: %.17g instead of %.17g: %s", i, g, (double)x.a()[g], (double)r.a[q], what.c_str());
        VH(x.f()[g] == r.f[q], "fission", "nuclide %d group %d: %.17g instead of %.17g: %s", i, g, (double)x.f()[g], (double)r.f[q], what.c_str());
        VH(x.nuf()[g] == r.nuf[q], "nu_fission", "nuclide %d group %d: %.17g instead of %.17g: %s", i, g, (double)x.nuf()[g], (double)r.nuf[q], what.c_str());
        VH(x.tr()[g] == r.tr[q], "transport", "nuclide %d group %d: %.17g instead of %.17g: %s", i, g, (double)x.tr()[g], (double)r.tr[q], what.c_str());
        VH(x.s()[g] == r.s[q], "scattering", "nuclide %d group %d: %.17g instead of %.17g: %s", i, g, (double)x.s()[g], (double)r.s[q], what.c_str());
        for (Int c = 0; c < ng; ++c) {
          auto const w = r.ss[(size_t)(g * ng + c)];
          VH(x.ss()(g, c) == w, "matrix", "nuclide %d to %d from %d: %.17g instead of %.17g: %s", i, g, c, (double)x.ss()(g, c), (double)w, what.c_str());
        }
      }
    }
    VH(n.isFissile() == fissile, "fissile", "nuclide %d: %s", i, what.c_str());
    vh::count(fissile ? "fissile nuclides" : "nuclides without fission");
    vh::count("temperatures", (long)m.t.size());
  }
  vh::count("libraries");
  if (banded) {
    vh::count("libraries with banded scattering");
  }
  if (only_absorption) {
    vh::count("libraries with absorption-only rows");
  }
  if (st.trailing) {
    vh::count("libraries with trailing blanks");
  }
  if (longest > 1023) {
    vh::count("libraries with very long lines");
  }
  vh::nontrivial(vh::hashStr(t));
  vh::sample(what);
  (void)index;
}

// Files that are not libraries are reported and yield nothing.
static void
notALibrary(vh::Rng & rng)
{
  std::string const path = vh::ctx().scratch + "/bad.fmt";
  static std::vector<std::string> const bad = {
      "", "\n", "hello\n", "%VER:\n3.0\n%DIM:\n1 1 1 1 1 1 1 1 1 1\n", "%DIM:\n1 1 1 1 1 1 1 1 1 1\n",
      "%VER:\n4.2\n%GRP:\n 1.0\n", "%VER:\n4.2\n%DIM:\n1 0 0 0 1 0 0 0 0 0\n%CHI:\n 1.0\n"};
  bool const missing = rng.chance(0.2);
  if (!missing) {
    FILE * f = fopen(path.c_str(), "w");
    if (f == nullptr) {
      exit(3);
    }
    std::string const & b = rng.pick(bad);
    fwrite(b.data(), 1, b.size(), f);
    fclose(f);
  } else {
    remove(path.c_str());
  }
  vh::Capture cap;
  um2::logger::level = um2::logger::levels::error;
  um2::XSLibrary const lib(um2::String(path.c_str()));
  um2::logger::level = um2::logger::levels::off;
  cap.stop();
  VH((cap.err + cap.out).find("ERROR") != std::string::npos, "not_reported", "a file that is not a library is read without an error");
  VH(lib.nuclides().empty(), "not_a_library", "%d nuclides from a file that is not a library", lib.nuclides().size());
  vh::count("rejected files");
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "xslib", [](vh::Rng & rng, uint64_t i) {
    if (i % 25 == 24) {
      notALibrary(rng);
    } else {
      oneLibrary(rng, i);
    }
  });
}
