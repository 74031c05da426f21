// C21: material compositions against an independent mass balance.
#include "refmass.hpp"
#include "vh.hpp"

#include <um2/common/logger.hpp>
#include <um2/physics/material.hpp>

#include <algorithm>
#include <set>

using LD = long double;
static constexpr LD AV = 0.602214076L;

static char const * const elements[118] = {
    "H",  "He", "Li", "Be", "B",  "C",  "N",  "O",  "F",  "Ne", "Na", "Mg", "Al", "Si", "P",  "S",  "Cl", "Ar", "K",  "Ca",
    "Sc", "Ti", "V",  "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr", "Rb", "Sr", "Y",  "Zr",
    "Nb", "Mo", "Tc", "Ru", "Rh", "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I",  "Xe", "Cs", "Ba", "La", "Ce", "Pr", "Nd",
    "Pm", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf", "Ta", "W",  "Re", "Os", "Ir", "Pt", "Au", "Hg",
    "Tl", "Pb", "Bi", "Po", "At", "Rn", "Fr", "Ra", "Ac", "Th", "Pa", "U",  "Np", "Pu", "Am", "Cm", "Bk", "Cf", "Es", "Fm",
    "Md", "No", "Lr", "Rf", "Db", "Sg", "Bh", "Hs", "Mt", "Ds", "Rg", "Cn", "Nh", "Fl", "Mc", "Lv", "Ts", "Og"};

static bool
rel(LD a, LD b, LD tol)
{
  return std::abs(a - b) <= tol * std::max(std::abs(a), std::abs(b));
}

static std::string
symbol(vh::Rng & rng, int zaid)
{
  std::string s = elements[zaid / 1000 - 1];
  s += rng.chance(0.5) ? "-" : "";
  return s + std::to_string(zaid % 1000);
}

static um2::String
S(std::string const & s)
{
  return um2::String(s.c_str());
}

// Runs f and tells whether it reported an error.
template <class F>
static bool
reports(F && f)
{
  vh::Capture cap;
  um2::logger::level = um2::logger::levels::error;
  f();
  um2::logger::level = um2::logger::levels::off;
  cap.stop();
  return cap.err.find("ERROR") != std::string::npos || cap.out.find("ERROR") != std::string::npos;
}

static void
identifiers(vh::Rng & rng, int z)
{
  // every element once per batch, random mass numbers, both spellings
  for (int k = 0; k < 3; ++k) {
    int const a = k == 0 ? rng.range(1, 9) : k == 1 ? rng.range(10, 99) : rng.range(100, 299);
    std::string const el = elements[z - 1];
    for (auto const * sep : {"", "-"}) {
      std::string const s = el + sep + std::to_string(a);
      Int const got = um2::toZAID(S(s));
      VH(got == 1000 * z + a, "identifier", "'%s' gives %d", s.c_str(), got);
      vh::count("identifiers");
    }
  }
}

static void
badIdentifier(vh::Rng & rng)
{
  static std::vector<std::string> const bad = {"Xx-10", "A1", "u235", "URA1", "J-12", "he4", "Zz99", "HE4"};
  std::string const s = rng.pick(bad);
  bool const r = reports([&] { (void)um2::toZAID(S(s)); });
  VH(r, "identifier.unknown", "'%s' is accepted", s.c_str());
  um2::Material m;
  m.setDensity(1.0);
  bool const r2 = reports([&] { m.addNuclide(S(s), 0.1); });
  VH(r2, "identifier.unknown", "adding '%s' is accepted", s.c_str());
  vh::count("unknown identifiers");
}

static std::vector<int>
pickNuclides(vh::Rng & rng, int n, bool named)
{
  std::set<int> s;
  std::vector<int> v;
  int const total = (int)(sizeof(ref_mass) / sizeof(ref_mass[0]));
  while ((int)v.size() < n) {
    int const i = rng.range(0, total - 1);
    int const z = ref_mass[i].zaid;
    if (named && (z % 1000 == 0)) {
      continue;
    }
    if (s.insert(z).second) {
      v.push_back(i);
    }
  }
  return v;
}

static int
findZaid(um2::Material const & m, int zaid)
{
  int at = -1;
  for (Int i = 0; i < m.numNuclides(); ++i) {
    if (m.zaid(i) == zaid) {
      VH(at == -1, "composition.twice", "nuclide %d appears twice", zaid);
      at = i;
    }
  }
  return at;
}

static LD
nd(um2::Material const & m, int zaid)
{
  int const i = findZaid(m, zaid);
  if (i < 0) {
    return -1;
  }
  return m.numDensity(i);
}

static void
weightFractions(vh::Rng & rng)
{
  int const n = rng.range(1, 12);
  auto const nuc = pickNuclides(rng, n, true);
  double const rho = rng.logu(1e-4, 25);
  std::vector<double> w((size_t)n);
  double sum = 0;
  for (auto & x : w) {
    x = rng.logu(1e-6, 1);
    sum += x;
  }
  for (auto & x : w) {
    x = n == 1 ? 1.0 : x / sum;
  }
  um2::Material m;
  m.setDensity(rho);
  std::string desc = vh::fmt("weight fractions, density %.6g:", rho);
  for (int i = 0; i < n; ++i) {
    int const z = ref_mass[nuc[(size_t)i]].zaid;
    if (rng.chance(0.5)) {
      m.addNuclideWt(z, w[(size_t)i]);
    } else {
      m.addNuclideWt(S(symbol(rng, z)), w[(size_t)i]);
    }
    desc += vh::fmt(" %d:%.5g", z, w[(size_t)i]);
  }
  VH(m.numNuclides() == n, "composition.count", "%d of %d nuclides", m.numNuclides(), n);
  LD mass = 0;
  for (int i = 0; i < n; ++i) {
    auto const & r = ref_mass[nuc[(size_t)i]];
    LD const expect = (LD)w[(size_t)i] * rho * AV / r.mass;
    LD const got = nd(m, r.zaid);
    VH(rel(got, expect, 1e-5L), "weight.density", "nuclide %d: number density %.12Lg, mass balance gives %.12Lg (%s)", r.zaid, got, expect, desc.c_str());
    mass += got * r.mass / AV;
  }
  VH(rel(mass, rho, 2e-5L), "weight.mass", "masses add up to %.12Lg (%s)", mass, desc.c_str());
  // the order of addition does not matter
  um2::Material m2;
  m2.setDensity(rho);
  std::vector<int> order((size_t)n);
  for (int i = 0; i < n; ++i) {
    order[(size_t)i] = i;
  }
  rng.shuffle(order);
  for (int const i : order) {
    m2.addNuclideWt(ref_mass[nuc[(size_t)i]].zaid, w[(size_t)i]);
  }
  for (int i = 0; i < n; ++i) {
    int const z = ref_mass[nuc[(size_t)i]].zaid;
    VH(nd(m, z) == nd(m2, z), "weight.order", "nuclide %d depends on the order of addition", z);
  }
  vh::count("weight-fraction materials");
  if (n > 1) {
    vh::nontrivial(vh::hashStr(desc));
    vh::sample(desc);
  }
}

static void
atomFractions(vh::Rng & rng)
{
  int const n = rng.range(1, 10);
  auto const nuc = pickNuclides(rng, n, true);
  double const rho = rng.logu(1e-4, 25);
  std::vector<double> p((size_t)n);
  double sum = 0;
  for (auto & x : p) {
    x = rng.logu(1e-5, 1);
    sum += x;
  }
  for (auto & x : p) {
    x = n == 1 ? 1.0 : x / sum;
  }
  um2::Material m;
  m.setDensity(rho);
  um2::Vector<um2::String> sy;
  um2::Vector<Float> pe;
  LD mean = 0;
  std::string desc = vh::fmt("atom fractions, density %.6g:", rho);
  for (int i = 0; i < n; ++i) {
    auto const & r = ref_mass[nuc[(size_t)i]];
    sy.emplace_back(S(symbol(rng, r.zaid)));
    pe.emplace_back(p[(size_t)i]);
    mean += (LD)p[(size_t)i] * r.mass;
    desc += vh::fmt(" %d:%.5g", r.zaid, p[(size_t)i]);
  }
  m.addNuclidesAtomPercent(sy, pe);
  VH(m.numNuclides() == n, "composition.count", "%d of %d nuclides", m.numNuclides(), n);
  LD mass = 0;
  LD const first = nd(m, ref_mass[nuc[0]].zaid) / p[0];
  for (int i = 0; i < n; ++i) {
    auto const & r = ref_mass[nuc[(size_t)i]];
    LD const got = nd(m, r.zaid);
    LD const expect = (LD)p[(size_t)i] * rho * AV / mean;
    VH(rel(got, expect, 1e-5L), "atom.density", "nuclide %d: number density %.12Lg, mass balance gives %.12Lg (%s)", r.zaid, got, expect, desc.c_str());
    VH(rel(got / p[(size_t)i], first, 1e-12L), "atom.ratio", "nuclide %d: atom ratios differ from the stated ones (%s)", r.zaid, desc.c_str());
    mass += got * r.mass / AV;
  }
  VH(rel(mass, rho, 2e-5L), "atom.mass", "masses add up to %.12Lg (%s)", mass, desc.c_str());
  // the equivalent weight fractions give the same material
  um2::Material m2;
  m2.setDensity(rho);
  for (int i = 0; i < n; ++i) {
    auto const & r = ref_mass[nuc[(size_t)i]];
    m2.addNuclideWt(r.zaid, (Float)std::min(1.0L, (LD)p[(size_t)i] * r.mass / mean));
  }
  for (int i = 0; i < n; ++i) {
    int const z = ref_mass[nuc[(size_t)i]].zaid;
    VH(rel(nd(m, z), nd(m2, z), 2e-5L), "atom.weight", "nuclide %d: atom and weight fractions disagree (%s)", z, desc.c_str());
  }
  // reversed order
  um2::Material m3;
  m3.setDensity(rho);
  um2::Vector<um2::String> sy3;
  um2::Vector<Float> pe3;
  for (int i = n - 1; i >= 0; --i) {
    sy3.emplace_back(sy[i]);
    pe3.emplace_back(pe[i]);
  }
  m3.addNuclidesAtomPercent(sy3, pe3);
  for (int i = 0; i < n; ++i) {
    int const z = ref_mass[nuc[(size_t)i]].zaid;
    VH(rel(nd(m, z), nd(m3, z), 1e-12L), "atom.order", "nuclide %d depends on the order (%s)", z, desc.c_str());
  }
  vh::count("atom-fraction materials");
  if (n > 1) {
    vh::nontrivial(vh::hashStr(desc));
    vh::sample(desc);
  }
}

static void
numberDensities(vh::Rng & rng)
{
  int const n = rng.range(1, 10);
  um2::Material m;
  auto const nuc = pickNuclides(rng, n, true);
  std::vector<double> v;
  for (int i = 0; i < n; ++i) {
    v.push_back(rng.logu(1e-12, 1));
    int const z = ref_mass[nuc[(size_t)i]].zaid;
    if (rng.chance(0.5)) {
      m.addNuclide(z, v.back());
    } else {
      m.addNuclide(S(symbol(rng, z)), v.back());
    }
  }
  VH(m.numNuclides() == n, "composition.count", "%d of %d nuclides", m.numNuclides(), n);
  for (int i = 0; i < n; ++i) {
    int const z = ref_mass[nuc[(size_t)i]].zaid;
    VH(nd(m, z) == (LD)v[(size_t)i], "number.density", "nuclide %d: %.17Lg instead of %.17g", z, nd(m, z), v[(size_t)i]);
  }
  vh::count("number-density materials");
}

static void
oxide(vh::Rng & rng)
{
  double const rho = rng.uni(0.5, 15);
  double e = 0;
  switch (rng.range(0, 4)) {
  case 0:
    e = 0;
    break;
  case 1:
    e = rng.logu(1e-6, 1e-2);
    break;
  case 2:
    e = rng.uni(0.007, 0.05);
    break;
  case 3:
    e = rng.uni(0.05, 0.2);
    break;
  default:
    e = rng.uni(0.2, 0.98);
    break;
  }
  double const g = rng.chance(0.35) ? 0.0 : rng.chance(0.05) ? 1.0 : rng.chance(0.7) ? rng.uni(0.001, 0.12) : rng.uni(0.1, 0.99);
  std::string const desc = vh::fmt("oxide fuel, density %.6g, enrichment %.6g, gadolinia %.6g", rho, e, g);
  um2::Material m;
  m.setName("fuel");
  m.setTemperature(600);
  m.setDensity(rho);
  bool const bad = reports([&] {
    if (g == 0.0 && rng.chance(0.5)) {
      m.setUO2(e);
    } else {
      m.setUO2(e, g);
    }
  });
  VH(!bad, "oxide.error", "an error is reported for %s", desc.c_str());
  if (bad) {
    return;
  }
  struct Iso {
    int zaid;
    LD mass;
    LD w; // weight fraction within uranium, or atom fraction within gadolinium
  };
  LD const e4 = 0.0089L * e;
  LD const e6 = 0.0046L * e;
  Iso const u[4] = {{92234, 234.040946L, e4}, {92235, 235.043923L, e}, {92236, 236.045562L, e6}, {92238, 238.050783L, 1 - (e4 + e + e6)}};
  Iso const gd[7] = {{64152, 151.919786L, 0.0020L}, {64154, 153.920861L, 0.0218L}, {64155, 154.922618L, 0.1480L}, {64156, 155.922118L, 0.2047L}, {64157, 156.923956L, 0.1565L}, {64158, 157.924019L, 0.2484L}, {64160, 159.927049L, 0.2186L}};
  LD const mo = 15.9949146L;
  auto get = [&](int z) {
    LD const x = nd(m, z);
    return x < 0 ? 0.0L : x;
  };
  LD mass = 0;
  LD nu = 0;
  LD mu = 0;
  for (auto const & i : u) {
    nu += get(i.zaid);
    mu += get(i.zaid) * i.mass;
  }
  LD ng = 0;
  LD mg = 0;
  for (auto const & i : gd) {
    ng += get(i.zaid);
    mg += get(i.zaid) * i.mass;
  }
  LD const no = get(8016);
  mass = (mu + mg + no * mo) / AV;
  // masses of individual nuclides are constants of nature known to about 1e-6
  VH(rel(mass, rho, 1e-5L), "oxide.mass", "masses add up to %.12Lg (%s)", mass, desc.c_str());
  VH(rel(no, 2 * nu + 1.5L * ng, 1e-9L), "oxide.oxygen", "oxygen %.12Lg for U %.12Lg Gd %.12Lg (%s)", no, nu, ng, desc.c_str());
  if (g < 1) {
    for (auto const & i : u) {
      VH(std::abs(get(i.zaid) * i.mass / mu - i.w) <= 1e-5L * std::max(i.w, 1e-9L) + 1e-14L, "oxide.enrichment", "weight fraction of %d in uranium is %.12Lg, stated %.12Lg (%s)", i.zaid, get(i.zaid) * i.mass / mu, i.w, desc.c_str());
    }
  }
  for (auto const & i : gd) {
    if (g > 0) {
      VH(std::abs(get(i.zaid) / ng - i.w) <= 1e-6L, "oxide.gadolinium", "atom fraction of %d in gadolinium is %.12Lg (%s)", i.zaid, get(i.zaid) / ng, desc.c_str());
    } else {
      VH(findZaid(m, i.zaid) < 0, "oxide.gadolinium", "%d present without gadolinia", i.zaid);
    }
  }
  LD const frac = (mg + 1.5L * ng * mo) / AV / rho;
  VH(std::abs(frac - g) <= 1e-5L * g + 1e-14L, "oxide.gadolinia", "weight fraction of gadolinia is %.12Lg (%s)", frac, desc.c_str());
  for (Int i = 0; i < m.numNuclides(); ++i) {
    bool known = m.zaid(i) == 8016;
    for (auto const & k : u) {
      known = known || k.zaid == m.zaid(i);
    }
    for (auto const & k : gd) {
      known = known || k.zaid == m.zaid(i);
    }
    VH(known, "oxide.extra", "unexpected nuclide %d", m.zaid(i));
  }
  VH(!reports([&] { m.validateProperties(); }), "oxide.valid", "the material is reported invalid (%s)", desc.c_str());
  vh::count(e == 0 ? "oxide fuels without enrichment" : "oxide fuels");
  vh::count(g > 0 ? "oxide fuels with gadolinia" : "oxide fuels without gadolinia");
  vh::nontrivial(vh::hashStr(desc));
  vh::sample(desc);
}

static void
validity(vh::Rng & rng)
{
  int const n = rng.range(1, 5);
  auto const nuc = pickNuclides(rng, n, true);
  um2::Material m;
  if (rng.chance(0.5)) {
    m.setName("material");
  } else {
    m.setName(S("a name of more than thirty-two characters " + std::to_string(rng.range(0, 99))));
  }
  m.setDensity(rng.uni(0.1, 20));
  m.setTemperature(rng.uni(200, 2000));
  for (int i = 0; i < n; ++i) {
    m.addNuclide(ref_mass[nuc[(size_t)i]].zaid, rng.logu(1e-9, 1));
  }
  VH(!reports([&] { m.validateProperties(); }), "validity.false_alarm", "a valid composition is reported");
  um2::Material b = m;
  std::string what;
  switch (rng.range(0, 8)) {
  case 0: {
    what = "no temperature";
    b.setTemperature(rng.chance(0.5) ? 0.0 : -rng.uni(0, 1000));
    VH(reports([&] { b.validateProperties(); }), "validity.missed", "%s not reported", what.c_str());
    break;
  }
  case 1:
    what = "density not positive";
    b.setDensity(rng.chance(0.5) ? 0.0 : -rng.uni(0, 10));
    VH(reports([&] { b.validateProperties(); }), "validity.missed", "%s not reported", what.c_str());
    break;
  case 2:
    what = "negative number density";
    b.numDensity(rng.range(0, n - 1)) = -rng.logu(1e-12, 1);
    VH(reports([&] { b.validateProperties(); }), "validity.missed", "%s not reported", what.c_str());
    break;
  case 3:
    what = "bad nuclide id";
    b.zaid(rng.range(0, n - 1)) = -rng.range(0, 10000);
    VH(reports([&] { b.validateProperties(); }), "validity.missed", "%s not reported", what.c_str());
    break;
  case 4:
    what = "counts differ";
    b.numDensities().emplace_back(0.1);
    VH(reports([&] { b.validateProperties(); }), "validity.missed", "%s not reported", what.c_str());
    break;
  case 5:
    what = "no name";
    b = um2::Material();
    b.setDensity(1);
    b.setTemperature(300);
    b.addNuclide(1001, 0.1);
    VH(reports([&] { b.validateProperties(); }), "validity.missed", "%s not reported", what.c_str());
    break;
  case 6:
    what = "nuclide added twice";
    VH(reports([&] { b.addNuclide(b.zaid(rng.range(0, n - 1)), 0.01); }), "validity.missed", "%s not reported", what.c_str());
    break;
  case 7:
    what = "number density not positive when adding";
    VH(reports([&] { b.addNuclide(98999, rng.chance(0.5) ? 0.0 : -rng.uni(0, 1)); }), "validity.missed", "%s not reported", what.c_str());
    break;
  default:
    what = "unknown atomic mass";
    if (rng.chance(0.5)) {
      VH(reports([&] { b.addNuclideWt(92000 + rng.range(400, 900), 0.1); }), "validity.missed", "%s not reported", what.c_str());
    } else {
      um2::Vector<um2::String> const sy = {"H1", "U999"};
      um2::Vector<Float> const p = {0.5, 0.5};
      um2::Material c;
      c.setDensity(1);
      VH(reports([&] { c.addNuclidesAtomPercent(sy, p); }), "validity.missed", "%s not reported", what.c_str());
    }
    break;
  }
  vh::count("invalid compositions");
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "material", [](vh::Rng & rng, uint64_t i) {
    identifiers(rng, (int)(i % 118) + 1);
    switch (rng.range(0, 9)) {
    case 0:
      badIdentifier(rng);
      break;
    case 1:
    case 2:
      weightFractions(rng);
      break;
    case 3:
    case 4:
      atomFractions(rng);
      break;
    case 5:
      numberDensities(rng);
      break;
    case 6:
      validity(rng);
      break;
    default:
      oxide(rng);
      break;
    }
  });
}
