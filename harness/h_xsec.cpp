// C22: temperature interpolation, mixing and collapsing of cross sections.
#include "vh.hpp"

#include <um2/common/logger.hpp>
#include <um2/physics/material.hpp>

#include <algorithm>

using LD = long double;
using um2::Nuclide;
using um2::XSec;

struct Data {
  int g = 0;
  bool fissile = false;
  std::vector<LD> a, f, nuf, tr, s, ss; // ss[to + g * from]
};

static Data
zero(int g)
{
  Data d;
  d.g = g;
  d.a.assign((size_t)g, 0);
  d.f = d.nuf = d.tr = d.s = d.a;
  d.ss.assign((size_t)(g * g), 0);
  return d;
}

static void
axpy(Data & y, LD c, Data const & x)
{
  for (size_t i = 0; i < x.a.size(); ++i) {
    y.a[i] += c * x.a[i];
    y.f[i] += c * x.f[i];
    y.nuf[i] += c * x.nuf[i];
    y.tr[i] += c * x.tr[i];
    y.s[i] += c * x.s[i];
  }
  for (size_t i = 0; i < x.ss.size(); ++i) {
    y.ss[i] += c * x.ss[i];
  }
}

static XSec
make(Data & d, bool macro)
{
  XSec x(d.g);
  x.isMacro() = macro;
  x.isFissile() = d.fissile;
  for (Int i = 0; i < d.g; ++i) {
    auto const k = (size_t)i;
    x.a()[i] = (Float)d.a[k];
    x.f()[i] = (Float)d.f[k];
    x.nuf()[i] = (Float)d.nuf[k];
    x.tr()[i] = (Float)d.tr[k];
    x.s()[i] = (Float)d.s[k];
    for (Int j = 0; j < d.g; ++j) {
      x.ss()(i, j) = (Float)d.ss[(size_t)(i + d.g * j)];
    }
  }
  return x;
}

// Random data, stored rounded to the library's precision.
static Data
randData(vh::Rng & rng, int g, bool fissile)
{
  Data d = zero(g);
  auto val = [&](double lo, double hi) { return (LD)(Float)rng.logu(lo, hi); };
  for (int i = 0; i < g; ++i) {
    auto const k = (size_t)i;
    d.a[k] = val(1e-5, 1e3);
    if (fissile && (rng.chance(0.7) || i == g - 1)) {
      d.f[k] = val(1e-8, 1e3);
      d.nuf[k] = (LD)(Float)(d.f[k] * (LD)rng.uni(2.3, 3));
      d.fissile = true;
    }
    d.tr[k] = val(1e-3, 1e3);
    LD sum = 0;
    for (int j = 0; j < g; ++j) { // to j from i
      LD & e = d.ss[(size_t)(j + g * i)];
      e = rng.chance(0.6) ? val(1e-6, 1e2) : 0;
      sum += e;
    }
    d.s[k] = (LD)(Float)sum;
  }
  return d;
}

static bool
same(LD got, LD want, LD scale)
{
  return std::abs(got - want) <= 64 * (LD)std::numeric_limits<Float>::epsilon() * scale;
}

// d: expected values, m: magnitudes of the terms they were summed from
static void
compare(XSec const & x, Data const & d, Data const & m, char const * key, std::string const & what)
{
  if (x.numGroups() != d.g) {
    vh::fail(std::string(key) + ".groups", "%d groups instead of %d: %s", x.numGroups(), d.g, what.c_str());
    return;
  }
  for (Int i = 0; i < d.g; ++i) {
    auto const k = (size_t)i;
    VH(same(x.a()[i], d.a[k], m.a[k]), std::string(key) + ".absorption", "group %d: %.17g instead of %.17Lg: %s", i, (double)x.a()[i], d.a[k], what.c_str());
    VH(same(x.f()[i], d.f[k], m.f[k]), std::string(key) + ".fission", "group %d: %.17g instead of %.17Lg: %s", i, (double)x.f()[i], d.f[k], what.c_str());
    VH(same(x.nuf()[i], d.nuf[k], m.nuf[k]), std::string(key) + ".nu_fission", "group %d: %.17g instead of %.17Lg: %s", i, (double)x.nuf()[i], d.nuf[k], what.c_str());
    VH(same(x.tr()[i], d.tr[k], m.tr[k]), std::string(key) + ".transport", "group %d: %.17g instead of %.17Lg: %s", i, (double)x.tr()[i], d.tr[k], what.c_str());
    VH(same(x.s()[i], d.s[k], m.s[k]), std::string(key) + ".scattering", "group %d: %.17g instead of %.17Lg: %s", i, (double)x.s()[i], d.s[k], what.c_str());
    VH(same(x.t(i), d.a[k] + d.s[k], m.a[k] + m.s[k]), std::string(key) + ".total", "group %d: %.17g instead of %.17Lg: %s", i, (double)x.t(i), d.a[k] + d.s[k], what.c_str());
    for (Int j = 0; j < d.g; ++j) {
      auto const q = (size_t)(i + d.g * j);
      VH(same(x.ss()(i, j), d.ss[q], m.ss[q]), std::string(key) + ".matrix", "to %d from %d: %.17g instead of %.17Lg: %s", i, j, (double)x.ss()(i, j), d.ss[q], what.c_str());
    }
  }
}

static bool
anyFission(XSec const & x)
{
  for (auto const v : x.f()) {
    if (v > 0) {
      return true;
    }
  }
  return false;
}

struct RefNuclide {
  int zaid = 0;
  std::vector<double> t;
  std::vector<Data> d;
};

static RefNuclide
randNuclide(vh::Rng & rng, int g, int zaid, Nuclide & n)
{
  RefNuclide r;
  r.zaid = zaid;
  int const nt = rng.chance(0.2) ? 1 : rng.range(2, 7);
  double t = rng.uni(200, 700);
  int const kind = rng.range(0, 3); // 0,1 never, 2 always, 3 at some temperatures only
  n.zaid() = zaid;
  n.mass() = rng.uni(1, 250);
  for (int i = 0; i < nt; ++i) {
    r.t.push_back(t);
    t += rng.chance(0.1) ? rng.uni(0.01, 1) : rng.uni(10, 500);
    r.d.push_back(randData(rng, g, kind == 2 || (kind == 3 && rng.chance(0.5))));
    n.temperatures().emplace_back(r.t.back());
    n.xs().emplace_back(make(r.d.back(), false));
    n.isFissile() = n.isFissile() || r.d.back().fissile;
  }
  return r;
}

// Expected data at a temperature; mag: magnitude of the terms
static Data
interp(RefNuclide const & r, double temp, Data & mag, bool & some, bool & all)
{
  Data d = zero(r.d[0].g);
  mag = d;
  size_t i = 0;
  while (i < r.t.size() && r.t[i] <= temp) {
    ++i;
  }
  if (i == 0 || i == r.t.size()) {
    Data const & e = i == 0 ? r.d.front() : r.d.back();
    axpy(d, 1, e);
    axpy(mag, 1, e);
    some = all = e.fissile;
    return d;
  }
  LD const s0 = std::sqrt((LD)r.t[i - 1]);
  LD const s1 = std::sqrt((LD)r.t[i]);
  LD const w = (std::sqrt((LD)temp) - s0) / (s1 - s0);
  axpy(d, 1 - w, r.d[i - 1]);
  axpy(d, w, r.d[i]);
  // the weight itself is a quotient of differences of rounded roots
  LD const amp = 1 + s1 / (s1 - s0);
  axpy(mag, amp, r.d[i - 1]);
  axpy(mag, amp, r.d[i]);
  some = r.d[i - 1].fissile || r.d[i].fissile;
  all = r.d[i - 1].fissile || (w > 0 && r.d[i].fissile);
  return d;
}

static double
randTemp(vh::Rng & rng, RefNuclide const & r)
{
  switch (rng.range(0, 5)) {
  case 0:
    return rng.uni(1, r.t.front());
  case 1:
    return r.t.back() + rng.uni(0, 2000);
  case 2:
    return rng.pick(r.t);
  default: {
    if (r.t.size() == 1) {
      return rng.uni(1, 3000);
    }
    auto const i = (size_t)rng.range(0, (int)r.t.size() - 2);
    double const w = rng.chance(0.2) ? 1e-9 : rng.u();
    return r.t[i] + (r.t[i + 1] - r.t[i]) * w;
  }
  }
}

static void
interpolation(vh::Rng & rng)
{
  int const g = rng.chance(0.1) ? rng.range(20, 60) : rng.range(1, 9);
  Nuclide n;
  RefNuclide const r = randNuclide(rng, g, 92235, n);
  for (int k = 0; k < 5; ++k) {
    double const t = randTemp(rng, r);
    bool some = false;
    bool all = false;
    Data mag;
    Data const d = interp(r, t, mag, some, all);
    XSec const x = n.interpXS(t);
    std::string const what = vh::fmt("%zu temperatures from %g to %g, at %.17g", r.t.size(), r.t.front(), r.t.back(), t);
    compare(x, d, mag, "interpolation", what);
    VH(!x.isMacro(), "interpolation.macro", "microscopic data became macroscopic");
    VH(x.isFissile() || !all, "interpolation.fissile", "not fissile although fission data is not zero: %s", what.c_str());
    VH(!x.isFissile() || some, "interpolation.fissile", "fissile although fission data is zero: %s", what.c_str());
    vh::count(t < r.t.front() || t > r.t.back() ? "temperatures outside the table" : "temperatures inside the table");
    if (std::find(r.t.begin(), r.t.end(), t) != r.t.end()) {
      vh::count("tabulated temperatures");
    }
  }
  // a cleared nuclide is like a new one
  n.clear();
  VH(n.zaid() == 0 && n.mass() == 0 && n.temperatures().empty() && n.xs().empty() && !n.isFissile(), "clear", "something of the nuclide remains after clearing it");
}

static void
mixing(vh::Rng & rng)
{
  int const g = rng.chance(0.1) ? rng.range(20, 60) : rng.range(1, 9);
  int const nn = rng.range(1, 8);
  um2::XSLibrary lib;
  for (int i = 0; i < g; ++i) {
    lib.groupBounds().emplace_back(2e7 / (i + 1));
    lib.chi().emplace_back(0);
  }
  std::vector<RefNuclide> refs;
  for (int i = 0; i < nn; ++i) {
    Nuclide n;
    refs.push_back(randNuclide(rng, g, 1000 * (i + 1) + rng.range(1, 200), n));
    lib.nuclides().emplace_back(n);
  }
  um2::Material m;
  m.setName("mix");
  m.setDensity(rng.uni(0.1, 20));
  std::vector<int> used;
  for (int i = 0; i < nn; ++i) {
    if (used.empty() || rng.chance(0.7)) {
      used.push_back(i);
    }
  }
  rng.shuffle(used);
  double const t = randTemp(rng, refs[(size_t)used[0]]);
  m.setTemperature(t);
  Data d = zero(g);
  Data mag = zero(g);
  bool some = false;
  bool all = false;
  std::string what = vh::fmt("%d groups at %.6g K:", g, t);
  for (int const i : used) {
    double const nd = rng.logu(1e-8, 1);
    m.addNuclide(refs[(size_t)i].zaid, nd);
    bool s1 = false;
    bool a1 = false;
    Data mg;
    Data const e = interp(refs[(size_t)i], t, mg, s1, a1);
    axpy(d, nd, e);
    axpy(mag, nd, mg);
    some = some || s1;
    all = all || a1;
    what += vh::fmt(" %d x %.4g", refs[(size_t)i].zaid, nd);
  }
  m.populateXSec(lib);
  if (rng.chance(0.3)) {
    m.populateXSec(lib); // again: not accumulated
  }
  compare(m.xsec(), d, mag, "mixing", what);
  VH(m.xsec().isMacro(), "mixing.macro", "the mixture is not macroscopic: %s", what.c_str());
  bool const pos = anyFission(m.xsec());
  VH(m.xsec().isFissile() || !pos, "mixing.fissile", "not fissile although fission data is not zero: %s", what.c_str());
  VH(!m.xsec().isFissile() || some, "mixing.fissile", "fissile although fission data is zero: %s", what.c_str());
  vh::count("mixtures");
  vh::count(some ? "fissile mixtures" : "mixtures without fission");
  if (used.size() > 1) {
    vh::nontrivial(vh::hashStr(what));
    vh::sample(what);
  }
}

static void
collapse(XSec const & x, std::string const & what)
{
  int const g = x.numGroups();
  XSec const o = x.collapseTo1GroupAvg();
  if (o.numGroups() != 1) {
    vh::fail("collapse.groups", "%d groups: %s", o.numGroups(), what.c_str());
    return;
  }
  auto avg = [&](um2::Vector<Float> const & v, Float got, char const * name) {
    LD s = 0;
    LD lo = v[0];
    LD hi = v[0];
    for (auto const e : v) {
      s += e;
      lo = std::min<LD>(lo, e);
      hi = std::max<LD>(hi, e);
    }
    VH(same(got, s / g, hi), std::string("collapse.") + name, "%.17g instead of %.17Lg: %s", (double)got, s / g, what.c_str());
    VH(got >= lo * (1 - 1e-12L) && got <= hi * (1 + 1e-12L), "collapse.range", "%s %.17g outside %.17Lg..%.17Lg: %s", name, (double)got, lo, hi, what.c_str());
  };
  avg(x.a(), o.a()[0], "absorption");
  avg(x.f(), o.f()[0], "fission");
  avg(x.nuf(), o.nuf()[0], "nu_fission");
  avg(x.tr(), o.tr()[0], "transport");
  avg(x.s(), o.s()[0], "scattering");
  LD s = 0;
  for (Int i = 0; i < g; ++i) {
    for (Int j = 0; j < g; ++j) {
      s += x.ss()(i, j);
    }
  }
  VH(same(o.ss()(0), s / g, s), "collapse.matrix", "%.17g instead of %.17Lg: %s", (double)o.ss()(0), s / g, what.c_str());
  VH(o.isFissile() == x.isFissile(), "collapse.fissile", "the fissile flag changed: %s", what.c_str());
  VH(o.isMacro() == x.isMacro(), "collapse.macro", "the macroscopic flag changed: %s", what.c_str());
  vh::count("collapsed cross sections");
}

static void
collapsing(vh::Rng & rng)
{
  int const g = rng.chance(0.1) ? rng.range(20, 60) : rng.range(1, 12);
  Data d = randData(rng, g, rng.chance(0.5));
  bool const macro = rng.chance(0.5);
  XSec const x = make(d, macro);
  std::string const what = vh::fmt("%d groups, absorption %.8Lg in the first", g, d.a[0]);
  collapse(x, what);
  if (g > 1) {
    vh::nontrivial(vh::hashStr(what));
  }
}

// The benchmark data set: transport-corrected totals equal absorption plus scattering.
static void
benchmark()
{
  auto const xs = um2::getC5G7XSecs();
  auto const mats = um2::getC5G7Materials();
  VH(xs.size() == 7 && mats.size() == 7, "benchmark.count", "%d cross sections, %d materials", (int)xs.size(), (int)mats.size());
  for (Int m = 0; m < xs.size(); ++m) {
    XSec const & x = xs[m];
    VH(x.numGroups() == 7 && x.isMacro(), "benchmark.shape", "material %d", m);
    VH(x.isFissile() == (m < 5), "benchmark.fissile", "material %d", m);
    for (Int g = 0; g < x.numGroups(); ++g) {
      LD s = 0;
      for (Int j = 0; j < 7; ++j) {
        s += x.ss()(j, g);
      }
      VH(std::abs(s - x.s()[g]) < 1e-12L, "benchmark.scattering", "material %d group %d: total %g, sum %Lg", m, g, (double)x.s()[g], s);
      VH(std::abs(s + x.a()[g] - x.tr()[g]) < 1e-5L, "benchmark.transport", "material %d group %d: transport %.7g, absorption and scattering %.7Lg", m, g, (double)x.tr()[g], s + x.a()[g]);
      VH(x.f()[g] == 0 ? x.nuf()[g] == 0 : x.nuf()[g] / x.f()[g] > 2.4 && x.nuf()[g] / x.f()[g] < 2.95, "benchmark.nu", "material %d group %d", m, g);
      VH(x.f()[g] <= x.a()[g], "benchmark.fission", "material %d group %d", m, g);
      VH(mats[m].xsec().a()[g] == x.a()[g] && mats[m].xsec().tr()[g] == x.tr()[g] && mats[m].xsec().nuf()[g] == x.nuf()[g], "benchmark.material", "material %d", m);
    }
    collapse(x, vh::fmt("benchmark material %d", m));
    vh::count("benchmark materials");
  }
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "xsec", [](vh::Rng & rng, uint64_t i) {
    if (i % 1000 == 0) {
      benchmark();
    }
    switch (i % 3) {
    case 0:
      interpolation(rng);
      break;
    case 1:
      mixing(rng);
      break;
    default:
      collapsing(rng);
      break;
    }
  });
}
