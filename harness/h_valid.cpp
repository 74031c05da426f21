// C36: validation of cross sections, nuclides and materials.
#include "vh.hpp"

#include <um2/common/logger.hpp>
#include <um2/mpact/model.hpp>
#include <um2/physics/material.hpp>

using um2::Material;
using um2::Nuclide;
using um2::XSec;

struct Said {
  bool error = false;
  bool warning = false;
  std::string text;
};

// What a validation reports.
template <class F>
static Said
listen(F && f)
{
  vh::Capture cap;
  um2::logger::level = um2::logger::levels::warn;
  f();
  um2::logger::level = um2::logger::levels::off;
  cap.stop();
  Said s;
  s.text = cap.out + cap.err;
  s.error = s.text.find("ERROR") != std::string::npos;
  s.warning = s.text.find("WARN") != std::string::npos;
  return s;
}

// Everything a validation could change, as text.
static void
dump(std::string & o, XSec const & x)
{
  o += vh::fmt("g%d m%d f%d;", x.numGroups(), (int)x.isMacro(), (int)x.isFissile());
  for (auto const * v : {&x.a(), &x.f(), &x.nuf(), &x.tr(), &x.s()}) {
    for (Int i = 0; i < v->size(); ++i) {
      o += vh::fmt("%a,", (double)(*v)[i]);
    }
    o += ";";
  }
  o += vh::fmt("%dx%d:", x.ss().rows(), x.ss().cols());
  for (Int i = 0; i < x.ss().rows() * x.ss().cols(); ++i) {
    o += vh::fmt("%a,", (double)x.ss()(i));
  }
}

static std::string
show(XSec const & x)
{
  std::string o;
  dump(o, x);
  return o;
}

static std::string
show(Nuclide const & n)
{
  std::string o = vh::fmt("f%d z%d m%a;", (int)n.isFissile(), n.zaid(), (double)n.mass());
  for (Int i = 0; i < n.temperatures().size(); ++i) {
    o += vh::fmt("%a,", (double)n.temperatures()[i]);
  }
  for (Int i = 0; i < n.xs().size(); ++i) {
    dump(o, n.xs()[i]);
  }
  return o;
}

static std::string
show(Material const & m)
{
  std::string o = m.getName().data();
  o += vh::fmt(";%a %a;", (double)m.getTemperature(), (double)m.getDensity());
  for (Int i = 0; i < m.numDensities().size(); ++i) {
    o += vh::fmt("%a,", (double)m.numDensity(i));
  }
  for (Int i = 0; i < m.zaids().size(); ++i) {
    o += vh::fmt("%d,", m.zaid(i));
  }
  dump(o, m.xsec());
  return o;
}

// Sound data; values may be zero anywhere, and the last or first group may be the only fissile one.
static XSec
sound(vh::Rng & rng, Int g, bool macro, bool fissile)
{
  XSec x(g);
  x.isMacro() = macro;
  x.isFissile() = fissile;
  auto val = [&]() -> Float { return rng.chance(0.15) ? (Float)0 : (Float)rng.logu(1e-6, 1e3); };
  Int const only = rng.chance(0.4) ? rng.range(0, g - 1) : -1;
  for (Int i = 0; i < g; ++i) {
    x.a()[i] = val();
    bool const here = fissile && (only < 0 || only == i);
    x.f()[i] = here ? (Float)rng.logu(1e-6, 1e3) : (Float)0;
    x.nuf()[i] = here ? x.f()[i] * (Float)2.4 : (Float)0;
    x.tr()[i] = val();
    x.s()[i] = val();
    for (Int j = 0; j < g; ++j) {
      x.ss()(i, j) = val();
    }
  }
  return x;
}

enum class Want { nothing, warning, error };

// Makes one thing wrong and returns what validation has to say about it.
static Want
spoil(vh::Rng & rng, XSec & x, std::string & what, int k)
{
  Int const g = x.numGroups();
  Int const i = rng.chance(0.3) ? g - 1 : rng.chance(0.3) ? 0 : rng.range(0, g - 1);
  Float const bad = -(Float)rng.logu(1e-9, 1e3);
  um2::Vector<Float> * const row[5] = {&x.a(), &x.f(), &x.nuf(), &x.tr(), &x.s()};
  char const * const names[5] = {"absorption", "fission", "nu-fission", "transport", "scattering"};
  Want const negative = x.isMacro() ? Want::warning : Want::nothing;
  if (k < 5) {
    what = vh::fmt("negative %s in group %d of %d", names[k], i, g);
    (*row[k])[i] = bad;
    return negative;
  }
  if (k == 5) {
    Int const j = rng.chance(0.3) ? g - 1 : rng.range(0, g - 1);
    what = vh::fmt("negative scattering from %d to %d of %d", j, i, g);
    x.ss()(i, j) = bad;
    return negative;
  }
  if (k == 6 || k == 7) {
    for (Int q = 0; q < g; ++q) {
      x.f()[q] = 0;
      x.nuf()[q] = 0;
    }
    x.isFissile() = false;
    (*row[k - 5])[i] = -bad;
    what = vh::fmt("%s in group %d of %d without being fissile", names[k - 5], i, g);
    return x.isMacro() ? Want::warning : Want::error;
  }
  if (k < 13) {
    auto & v = *row[k - 8];
    Int const n = v.size();
    if (rng.chance(0.5)) {
      v.emplace_back((Float)0);
    } else {
      um2::Vector<Float> w;
      for (Int q = 0; q + 1 < n; ++q) {
        w.emplace_back(v[q]);
      }
      v = w;
    }
    what = vh::fmt("%d %s values for %d groups", v.size(), names[k - 8], g);
    return Want::error;
  }
  Int r = g;
  Int c = g;
  (rng.chance(0.5) ? r : c) += rng.chance(0.5) && g > 1 ? -1 : 1;
  x.ss() = um2::Matrix<Float>(r, c);
  for (Int q = 0; q < r * c; ++q) {
    x.ss()(q) = 0;
  }
  what = vh::fmt("a %d x %d scattering matrix for %d groups", r, c, g);
  return Want::error;
}
static constexpr int xsec_faults = 14;

static void
judge(Said const & s, Want w, char const * key, std::string const & what)
{
  bool const e = w == Want::error;
  bool const a = w == Want::warning;
  if (w == Want::nothing) {
    VH(!s.error && !s.warning, std::string(key) + ".false_alarm", "sound data reported (%s): %s", what.c_str(), s.text.c_str());
    vh::count("sound data");
  } else {
    VH(!e || s.error, std::string(key) + ".missed", "no error for %s", what.c_str());
    VH(!a || s.warning, std::string(key) + ".missed_warning", "no warning for %s", what.c_str());
    VH(!a || !s.error, std::string(key) + ".too_strict", "error instead of a warning for %s: %s", what.c_str(), s.text.c_str());
    vh::count(e ? "errors expected" : "warnings expected");
    vh::nontrivial(std::hash<std::string>{}(what));
  }
}

static void
crossSections(vh::Rng & rng, uint64_t i)
{
  Int const g = rng.chance(0.2) ? 1 : rng.range(1, 12);
  bool const macro = rng.chance(0.5);
  bool const fissile = rng.chance(0.5);
  XSec x = sound(rng, g, macro, fissile);
  std::string what = "nothing";
  judge(listen([&] { x.validate(); }), Want::nothing, "cross_section", vh::fmt("%d groups, macro %d, fissile %d", g, (int)macro, (int)fissile));
  int const k = (int)(i % (uint64_t)xsec_faults);
  Want const w = spoil(rng, x, what, k);
  std::string const before = show(x);
  judge(listen([&] { x.validate(); }), w, "cross_section", what);
  VH(show(x) == before, "cross_section.changed", "validation changed the data (%s)", what.c_str());
  vh::sample(what);

  // the same data as the cross section of a material
  Material m;
  m.setName("m");
  m.xsec() = x;
  std::string const mb = show(m);
  Want const wm = macro ? w : Want::error;
  std::string const mw = macro ? what : "cross sections per atom (" + what + ")";
  judge(listen([&] { m.validateXSec(); }), wm, "material_xsec", mw);
  um2::mpact::Model model;
  Int id = -1;
  judge(listen([&] { id = model.addMaterial(m); }), wm, "model", mw);
  VH(id == 0 && show(model.materials()[0]) == mb, "model.stored", "the material is not stored as given (%s)", mw.c_str());
  VH(show(m) == mb, "material_xsec.changed", "validation changed the data (%s)", mw.c_str());
  judge(listen([&] { id = model.addMaterial(m, false); }), Want::nothing, "model_unvalidated", mw);
  VH(id == 1 && show(model.materials()[1]) == mb, "model.stored", "the material is not stored as given (%s)", mw.c_str());
  vh::count("cross sections");
}

static void
nuclides(vh::Rng & rng, uint64_t i)
{
  Nuclide n;
  Int const g = rng.range(1, 6);
  Int const nt = rng.chance(0.25) ? 1 : rng.range(1, 6);
  bool const fissile = rng.chance(0.5);
  n.zaid() = rng.range(1, 99) * 1000 + rng.range(1, 260);
  n.mass() = (Float)rng.uni(1, 260);
  n.isFissile() = fissile;
  Float t = (Float)rng.uni(1, 300);
  for (Int q = 0; q < nt; ++q) {
    n.temperatures().emplace_back(t);
    t += (Float)rng.uni(0.5, 400);
    n.xs().emplace_back(sound(rng, g, false, fissile));
  }
  judge(listen([&] { n.validate(); }), Want::nothing, "nuclide", vh::fmt("%d temperatures, fissile %d", nt, (int)fissile));
  Int const at = rng.chance(0.4) ? nt - 1 : rng.range(0, nt - 1);
  Want w = Want::error;
  std::string what;
  switch (i % 10) {
  case 0:
    n.zaid() = -rng.range(0, 92235);
    what = vh::fmt("id %d", n.zaid());
    break;
  case 1:
    n.mass() = rng.chance(0.4) ? (Float)0 : -(Float)rng.logu(1e-6, 300);
    what = vh::fmt("mass %g", (double)n.mass());
    break;
  case 2:
    n.isFissile() = !fissile;
    what = vh::fmt("fissile mark %d with fissile %d data", (int)n.isFissile(), (int)fissile);
    break;
  case 3:
    n.xs()[at].isMacro() = true;
    what = vh::fmt("data per volume at temperature %d of %d", at, nt);
    break;
  case 4:
    n.temperatures().emplace_back(t);
    what = vh::fmt("%d temperatures for %d cross sections", nt + 1, nt);
    break;
  case 5:
    n.xs().emplace_back(sound(rng, g, false, fissile));
    what = vh::fmt("%d temperatures for %d cross sections", nt, nt + 1);
    break;
  case 6:
    // the lowest temperature, so that the order stays right
    n.temperatures()[0] = rng.chance(0.4) ? (Float)0 : -(Float)rng.logu(1e-6, 300);
    what = vh::fmt("temperature %g", (double)n.temperatures()[0]);
    break;
  case 7:
    if (nt < 2) {
      return;
    } else {
      Int const p = rng.chance(0.4) ? nt - 2 : rng.range(0, nt - 2);
      std::swap(n.temperatures()[p], n.temperatures()[p + 1]);
      what = vh::fmt("temperatures %d and %d of %d out of order", p, p + 1, nt);
    }
    break;
  case 8:
    // one of several data sets without fission does not change the nuclide
    if (!fissile || nt < 2) {
      return;
    }
    n.xs()[at] = sound(rng, g, false, false);
    w = Want::nothing;
    what = vh::fmt("data set %d of %d without fission", at, nt);
    break;
  default:
    w = spoil(rng, n.xs()[at], what, rng.range(8, xsec_faults - 1));
    what += vh::fmt(" at temperature %d of %d", at, nt);
  }
  std::string const before = show(n);
  judge(listen([&] { n.validate(); }), w, "nuclide", what);
  VH(show(n) == before, "nuclide.changed", "validation changed the data (%s)", what.c_str());
  vh::sample(what);
  vh::count("nuclides");
}

static void
materials(vh::Rng & rng, uint64_t i)
{
  Material m;
  Int const n = rng.range(1, 8);
  bool const named = i % 9 != 0;
  if (named) {
    m.setName(rng.chance(0.5) ? "a" : "a longer name of a material that is not stored inline");
  }
  m.setTemperature((Float)rng.logu(1e-3, 3000));
  m.setDensity((Float)rng.logu(1e-6, 30));
  for (Int q = 0; q < n; ++q) {
    m.zaids().emplace_back((q + 1) * 1000 + rng.range(1, 260));
    m.numDensities().emplace_back(rng.chance(0.2) ? (Float)0 : (Float)rng.logu(1e-12, 1));
  }
  std::string what = vh::fmt("%d nuclides", n);
  if (named) {
    judge(listen([&] { m.validateProperties(); }), Want::nothing, "material", what);
  }
  Int const at = rng.chance(0.4) ? n - 1 : rng.range(0, n - 1);
  Float const bad = rng.chance(0.4) ? (Float)0 : -(Float)rng.logu(1e-9, 300);
  switch (i % 9) {
  case 0:
    what = "no name";
    break;
  case 1:
    m.setTemperature(bad);
    what = vh::fmt("temperature %g", (double)bad);
    break;
  case 2:
    m.setDensity(bad);
    what = vh::fmt("density %g", (double)bad);
    break;
  case 3:
    m.zaids().clear();
    m.numDensities().clear();
    what = "no nuclides";
    break;
  case 4:
    m.zaids().emplace_back(92235);
    what = vh::fmt("%d densities for %d nuclides", n, n + 1);
    break;
  case 5:
    m.numDensities().emplace_back((Float)0.1);
    what = vh::fmt("%d densities for %d nuclides", n + 1, n);
    break;
  case 6:
    m.numDensity(at) = -(Float)rng.logu(1e-12, 1);
    what = vh::fmt("negative density of nuclide %d of %d", at, n);
    break;
  case 7:
    m.zaid(at) = -rng.range(0, 92235);
    what = vh::fmt("id %d of nuclide %d of %d", m.zaid(at), at, n);
    break;
  default:
    m.numDensities().clear();
    what = "no densities";
  }
  std::string const before = show(m);
  judge(listen([&] { m.validateProperties(); }), Want::error, "material", what);
  VH(show(m) == before, "material.changed", "validation changed the data (%s)", what.c_str());
  vh::sample(what);
  vh::count("materials");
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "valid", [](vh::Rng & rng, uint64_t i) {
    switch (i % 3) {
    case 0:
      crossSections(rng, i / 3);
      break;
    case 1:
      nuclides(rng, i / 3);
      break;
    default:
      materials(rng, i / 3);
    }
  });
}
