// C29: power regions and sources of flat source region output.
#include "modelgen.hpp"

#include <um2/common/logger.hpp>
#include <um2/mesh/polytope_soup.hpp>
#include <um2/mpact/powers.hpp>
#include <um2/mpact/source.hpp>

#include <numeric>

using um2::PolytopeSoup;

template <class F>
static bool
reports(F && f)
{
  vh::Capture cap;
  um2::logger::level = um2::logger::levels::error;
  f();
  um2::logger::level = um2::logger::levels::off;
  cap.stop();
  return cap.err.find("ERROR") != std::string::npos || cap.out.find("ERROR") != std::string::npos;
}

// faces given by their own points
struct Soup {
  int k = 3;
  bool curved = false;
  std::vector<P2> v;
  std::vector<std::vector<int>> f;
  std::vector<Float> power;
  Face face(size_t i) const
  {
    std::vector<P2> p;
    for (int const j : f[i]) {
      p.push_back(v[(size_t)j]);
    }
    return makeFace(p, k);
  }
};

static GMesh
piece(vh::Rng & rng, int k, bool curved, int nmax)
{
  GOpts o;
  o.k = k;
  o.curved = curved;
  o.nmax = nmax;
  o.offset = 3;
  o.slo = 1;
  o.shi = 20;
  return randMesh(rng, o);
}

static Soup
generate(vh::Rng & rng)
{
  Soup s;
  s.k = rng.range(3, 4);
  s.curved = rng.chance(0.5);
  int const parts = rng.chance(0.6) ? 1 : rng.range(2, 4);
  LD right = 0;
  int const nmax = rng.chance(0.1) ? 9 : 5;
  double const gap = rng.pick(std::vector<double>{2e-3, 0.01, 1, 30});
  for (int q = 0; q < parts; ++q) {
    GMesh const g = piece(rng, s.k, s.curved, nmax);
    LD lo = 1e30L, hi = -1e30L;
    for (size_t i = 0; i < g.f.size(); ++i) {
      for (auto const & e : g.face(i).e) {
        for (int t = 0; t <= 20; ++t) {
          LD const x = e(t / 20.0L).x;
          lo = std::min(lo, x);
          hi = std::max(hi, x);
        }
      }
    }
    LD const dx = q == 0 ? 0 : right + static_cast<LD>(gap) - lo;
    int const base = (int)s.v.size();
    for (auto const & p : g.v) {
      s.v.push_back({static_cast<LD>(static_cast<Float>(p.x + dx)), p.y});
    }
    right = (q == 0 ? hi : hi + dx);
    for (auto f : g.f) {
      for (int & i : f) {
        i += base;
      }
      s.f.push_back(f);
    }
  }
  // not watertight: every face gets its own, slightly moved vertices
  if (rng.chance(0.4)) {
    std::vector<P2> v;
    double const jig = rng.chance(0.5) ? 0 : rng.logu(1e-12, 5e-7);
    for (auto & f : s.f) {
      for (int & i : f) {
        P2 p = s.v[(size_t)i];
        p.x = static_cast<LD>(static_cast<Float>(p.x + static_cast<LD>(rng.uni(-1, 1) * jig)));
        p.y = static_cast<LD>(static_cast<Float>(p.y + static_cast<LD>(rng.uni(-1, 1) * jig)));
        i = (int)v.size();
        v.push_back(p);
      }
    }
    s.v = v;
    vh::count("meshes with gaps");
  }
  rng.shuffle(s.f);
  // the power
  P2 const c = s.v[(size_t)rng.range(0, (int)s.v.size() - 1)];
  LD size = 0;
  for (auto const & p : s.v) {
    size = std::max(size, len(p - c));
  }
  int const kind = rng.range(0, 6);
  double const share = rng.pick(std::vector<double>{0.05, 0.2, 0.4, 0.7, 0.95});
  double const scale = rng.logu(1e-6, 1e8);
  for (size_t i = 0; i < s.f.size(); ++i) {
    bool on = false;
    P2 const p = s.face(i).centroid();
    switch (kind) {
    case 0:
      on = true;
      break;
    case 1: // rings
      on = (int)(8 * len(p - c) / size) % 2 == 0;
      break;
    case 2: // stripes
      on = ((int)std::floor(6 * (p.x - c.x + p.y - c.y) / size)) % 2 == 0;
      break;
    case 3: // blobs
      on = std::sin(9 * (p.x - c.x) / size) * std::sin(9 * (p.y - c.y) / size) > 0;
      break;
    default:
      on = rng.chance(share);
      break;
    }
    s.power.push_back(on ? static_cast<Float>(scale * rng.logu(1e-3, 1)) : rng.chance(0.02) ? static_cast<Float>(-scale * rng.u()) : 0);
  }
  return s;
}

static void
writeVtk(vh::Rng & rng, Soup const & s, std::string const & path, bool withPower, std::vector<Float> const & other)
{
  FILE * o = fopen(path.c_str(), "w");
  if (o == nullptr) {
    exit(3);
  }
  size_t const n = (size_t)(s.curved ? 2 * s.k : s.k);
  int const type = s.k == 3 ? (s.curved ? 22 : 5) : (s.curved ? 23 : 9);
  fprintf(o, "# vtk DataFile Version 3.0\nfsr output\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS %zu double\n", s.v.size());
  for (auto const & p : s.v) {
    fprintf(o, "%.17g %.17g 0\n", static_cast<double>(p.x), static_cast<double>(p.y));
  }
  fprintf(o, "\nCELLS %zu %zu\n", s.f.size(), s.f.size() * (n + 1));
  for (auto const & f : s.f) {
    fprintf(o, "%zu", n);
    for (int const i : f) {
      fprintf(o, " %d", i);
    }
    fprintf(o, "\n");
  }
  fprintf(o, "\nCELL_TYPES %zu\n", s.f.size());
  for (size_t i = 0; i < s.f.size(); ++i) {
    fprintf(o, "%d\n", type);
  }
  fprintf(o, "\nCELL_DATA %zu\n", s.f.size());
  bool const first = rng.chance(0.5);
  auto array = [&](char const * name, std::vector<Float> const & v) {
    fprintf(o, "SCALARS %s double 1\nLOOKUP_TABLE default\n", name);
    for (Float const x : v) {
      fprintf(o, "%.17g\n", static_cast<double>(x));
    }
    fprintf(o, "\n");
  };
  if (first) {
    array("material", other);
  }
  if (withPower) {
    array("power", s.power);
  }
  if (!first) {
    array("material", other);
  }
  fclose(o);
}

static void
writeXdmf(vh::Rng & rng, Soup const & s, std::string const & path, bool withPower, std::vector<Float> const & other)
{
  PolytopeSoup p;
  GMesh g;
  g.k = s.k;
  g.curved = s.curved;
  g.v = s.v;
  g.f = s.f;
  addToSoup(p, g);
  um2::Vector<Int> ids;
  for (size_t i = 0; i < s.f.size(); ++i) {
    ids.emplace_back((Int)i);
  }
  bool const first = rng.chance(0.5);
  if (first) {
    p.addElset("material", ids, toVec<Float>(other));
  }
  if (withPower) {
    p.addElset("power", ids, toVec<Float>(s.power));
  }
  if (!first) {
    p.addElset("material", ids, toVec<Float>(other));
  }
  p.write(umS(path));
}

static void
powers(vh::Rng & rng)
{
  Soup s = generate(rng);
  int const fault = rng.chance(0.06) ? rng.range(0, 1) : -1;
  if (fault == 1) {
    for (auto & p : s.power) {
      p = 0;
    }
  }
  std::vector<Float> other;
  for (size_t i = 0; i < s.f.size(); ++i) {
    other.push_back(static_cast<Float>(rng.range(1, 4)));
  }
  bool const vtk = rng.chance(0.6);
  std::string const path = vh::ctx().scratch + (vtk ? "/fsr.vtk" : "/fsr.xdmf");
  if (vtk) {
    writeVtk(rng, s, path, fault != 0, other);
  } else {
    writeXdmf(rng, s, path, fault != 0, other);
  }
  // regions by union-find over shared vertices
  std::vector<size_t> on;
  for (size_t i = 0; i < s.f.size(); ++i) {
    if (s.power[i] > 0) {
      on.push_back(i);
    }
  }
  std::string const what = vh::fmt("%zu faces of %d nodes, %zu powered, %s", s.f.size(), s.curved ? 2 * s.k : s.k, on.size(), vtk ? "vtk" : "xdmf");
  um2::Vector<um2::Pair<Float, um2::Point2F>> got;
  bool const err = reports([&] { got = um2::mpact::getPowers(umS(path)); });
  if (fault >= 0 || on.empty()) {
    VH(err && got.empty(), "no_power", "%s: %s, %d regions", what.c_str(), err ? "reported" : "not reported", got.size());
    vh::count("files without power");
    return;
  }
  VH(!err, "reported", "%s: an error was reported", what.c_str());
  std::vector<size_t> root(on.size());
  std::iota(root.begin(), root.end(), 0);
  auto find = [&](size_t i) {
    while (root[i] != i) {
      root[i] = root[root[i]];
      i = root[i];
    }
    return i;
  };
  std::vector<std::array<LD, 4>> bb;
  for (size_t const i : on) {
    std::array<LD, 4> b{1e30L, -1e30L, 1e30L, -1e30L};
    for (int const j : s.f[i]) {
      P2 const p = s.v[(size_t)j];
      b = {std::min(b[0], p.x), std::max(b[1], p.x), std::min(b[2], p.y), std::max(b[3], p.y)};
    }
    bb.push_back(b);
  }
  for (size_t a = 0; a < on.size(); ++a) {
    for (size_t b = a + 1; b < on.size(); ++b) {
      LD const m = 1e-3L;
      if (bb[a][0] > bb[b][1] + m || bb[b][0] > bb[a][1] + m || bb[a][2] > bb[b][3] + m || bb[b][2] > bb[a][3] + m) {
        continue;
      }
      for (int const i : s.f[on[a]]) {
        for (int const j : s.f[on[b]]) {
          LD const d = len(s.v[(size_t)i] - s.v[(size_t)j]);
          if (d < 2e-6L) {
            root[find(a)] = find(b);
          } else if (d < 1e-3L) {
            vh::count("skipped: vertices too close to tell apart");
            return;
          }
        }
      }
    }
  }
  struct Region {
    LD power = 0, area = 0;
    P2 m;
    size_t faces = 0;
  };
  std::map<size_t, Region> regs;
  LD mag = 0;
  for (size_t a = 0; a < on.size(); ++a) {
    Region & r = regs[find(a)];
    Face const f = s.face(on[a]);
    LD const ar = f.area();
    P2 const c = f.centroid();
    r.area += ar;
    r.power += ar * static_cast<LD>(s.power[on[a]]);
    r.m = r.m + ar * c;
    r.faces++;
    mag = std::max({mag, std::fabs(c.x), std::fabs(c.y)});
  }
  VH(got.size() == (Int)regs.size(), "region_count", "%s: %d regions instead of %zu", what.c_str(), got.size(), regs.size());
  if (got.size() == (Int)regs.size()) {
    std::vector<bool> used(regs.size(), false);
    for (auto const & [k, r] : regs) {
      P2 const c = (1 / r.area) * r.m;
      bool ok = false;
      for (Int i = 0; i < got.size() && !ok; ++i) {
        LD const p = static_cast<LD>(got[i].first);
        P2 const q = {static_cast<LD>(got[i].second[0]), static_cast<LD>(got[i].second[1])};
        if (!used[(size_t)i] && std::fabs(p - r.power) <= 1e-9L * r.power && len(q - c) <= 1e-9L * (1 + mag)) {
          used[(size_t)i] = true;
          ok = true;
        }
      }
      VH(ok, "region", "%s: no region of power %.12Lg at (%.12Lg, %.12Lg) made of %zu faces", what.c_str(), r.power, c.x, c.y, r.faces);
    }
  }
  vh::count("files");
  vh::count(vtk ? "vtk files" : "xdmf files");
  vh::count(vh::fmt("meshes of %d-node faces", s.curved ? 2 * s.k : s.k));
  if (regs.size() > 1) {
    vh::count("several regions");
  }
  if (regs.size() > 5) {
    vh::count("many regions");
  }
  if (on.size() > regs.size()) {
    vh::nontrivial(rng.next());
  }
  vh::sample(what + vh::fmt(", %zu regions", regs.size()));
}

static void
source(vh::Rng & rng)
{
  GMesh const g = piece(rng, rng.range(3, 4), rng.chance(0.5), 4);
  int const ng = rng.chance(0.1) ? rng.range(95, 120) : rng.range(1, 12);
  int const nm = rng.range(1, 6);
  um2::Vector<um2::Material> mats;
  std::vector<RMat> ref;
  for (int i = 0; i < nm; ++i) {
    RMat r;
    r.name = "m" + std::to_string(i);
    r.xs = randXs(rng, ng);
    ref.push_back(r);
    mats.push_back(toMaterial(r));
  }
  PolytopeSoup p;
  addToSoup(p, g);
  um2::Vector<Int> ids;
  std::vector<Float> mat;
  for (size_t i = 0; i < g.f.size(); ++i) {
    ids.emplace_back((Int)i);
    mat.push_back(static_cast<Float>(rng.range(1, nm)));
  }
  std::vector<std::pair<std::string, std::vector<Float>>> sets;
  sets.emplace_back("material", mat);
  std::vector<std::vector<Float>> flux;
  for (int q = 0; q < ng; ++q) {
    std::vector<Float> v;
    for (size_t i = 0; i < g.f.size(); ++i) {
      v.push_back(rng.chance(0.1) ? 0 : static_cast<Float>(rng.logu(1e-6, 1e3)));
    }
    flux.push_back(v);
    sets.emplace_back(vh::fmt("flux_%03d", q + 1), v);
  }
  sets.emplace_back("flux_000", mat);
  sets.emplace_back(vh::fmt("flux_%03d", ng + 1), mat);
  rng.shuffle(sets);
  for (auto const & x : sets) {
    p.addElset(umS(x.first), ids, toVec<Float>(x.second));
  }
  std::string const what = vh::fmt("%zu faces of %d nodes, %d groups, %d materials", g.f.size(), g.n(), ng, nm);
  um2::Vector<um2::Vec2F> got;
  bool const err = reports([&] { got = um2::mpact::getSource(p, mats); });
  VH(!err, "source.reported", "%s", what.c_str());
  if (got.size() != (Int)g.f.size()) {
    vh::fail("source.count", "%s: %d values", what.c_str(), got.size());
    return;
  }
  for (size_t i = 0; i < g.f.size(); ++i) {
    LD a = 0, b = 0;
    RXs const & x = ref[(size_t)mat[i] - 1].xs;
    for (size_t q = 0; q < (size_t)ng; ++q) {
      a += static_cast<LD>(flux[q][i]) * static_cast<LD>(x.s[q]);
      b += static_cast<LD>(flux[q][i]) * static_cast<LD>(x.nuf[q]);
    }
    VH(std::fabs(static_cast<LD>(got[(Int)i][0]) - a) <= 1e-12L * a, "source.scattering", "%s: face %zu %.15g instead of %.15Lg", what.c_str(), i, (double)got[(Int)i][0], a);
    VH(std::fabs(static_cast<LD>(got[(Int)i][1]) - b) <= 1e-12L * b, "source.fission", "%s: face %zu %.15g instead of %.15Lg", what.c_str(), i, (double)got[(Int)i][1], b);
  }
  vh::count("source extractions");
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "powers", [](vh::Rng & rng, uint64_t) {
    um2::logger::level = um2::logger::levels::off;
    um2::logger::exit_on_error = false;
    if (rng.chance(0.75)) {
      powers(rng);
    } else {
      source(rng);
    }
  });
}
