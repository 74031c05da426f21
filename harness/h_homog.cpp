// C27: cell averages and material volumes against an independent loop over faces.
#include "modelcheck.hpp"

#include <um2/common/logger.hpp>

static void
homogenise(Model const & m, RModel const & r, size_t ic, std::string const & what)
{
  RCell const & c = r.cells[ic];
  size_t const ng = (size_t)r.groups;
  std::vector<LD> area(r.mats.size(), 0);
  LD total = 0;
  for (size_t f = 0; f < c.g.f.size(); ++f) {
    LD const a = c.g.face(f).area();
    area[(size_t)c.mats[f]] += a;
    total += a;
  }
  auto const x = m.getCoarseCellHomogenizedXSec((Int)ic);
  std::string const w = vh::fmt("cell %zu with %zu faces: ", ic, c.g.f.size()) + what;
  if (x.numGroups() != r.groups || x.a().size() != r.groups || x.ss().rows() != r.groups || x.ss().cols() != r.groups) {
    vh::fail("average.groups", "%d groups: %s", x.numGroups(), w.c_str());
    return;
  }
  auto avg = [&](auto && get) {
    LD s = 0;
    for (size_t k = 0; k < area.size(); ++k) {
      s += area[k] * static_cast<LD>(get(r.mats[k].xs));
    }
    return s / total;
  };
  auto check = [&](char const * name, Float got, LD want, size_t g) {
    VH(vh::near((double)got, (double)want, 1e-10, 1e-14), std::string("average.") + name, "group %zu: %.15g instead of %.15Lg: %s", g, (double)got, want,
       w.c_str());
  };
  bool fissile = false;
  int used = 0;
  for (LD const a : area) {
    used += a > 0 ? 1 : 0;
  }
  for (size_t g = 0; g < ng; ++g) {
    Int const i = (Int)g;
    check("absorption", x.a()[i], avg([&](RXs const & q) { return q.a[g]; }), g);
    LD const f = avg([&](RXs const & q) { return q.f[g]; });
    fissile = fissile || f > 0;
    check("fission", x.f()[i], f, g);
    check("nu_fission", x.nuf()[i], avg([&](RXs const & q) { return q.nuf[g]; }), g);
    check("transport", x.tr()[i], avg([&](RXs const & q) { return q.tr[g]; }), g);
    check("scattering", x.s()[i], avg([&](RXs const & q) { return q.s[g]; }), g);
    check("total", x.t(i), avg([&](RXs const & q) { return q.a[g] + q.s[g]; }), g);
    for (size_t t = 0; t < ng; ++t) {
      check("matrix", x.ss()((Int)t, i), avg([&](RXs const & q) { return q.ss[t][g]; }), g);
    }
  }
  VH(x.isMacro(), "average.macro", "%s", w.c_str());
  VH(x.isFissile() == fissile, "average.fissile", "%d: %s", (int)x.isFissile(), w.c_str());
  vh::count("averaged cells");
  if (used > 1) {
    vh::count("averaged cells with several materials");
    vh::nontrivial(vh::hashStr(w) ^ (uint64_t)(total * 1e9L));
  }
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "homog", [](vh::Rng & rng, uint64_t) {
    MOpts o;
    o.unused = rng.chance(0.5);
    o.maxMats = rng.chance(0.95) ? 8 : 120;
    o.maxGroups = rng.chance(0.9) ? 8 : 40;
    bool const vol = rng.chance(0.1);
    if (!vol) {
      o.maxCore = 1;
      o.maxZ = 1;
      o.nmax = 5;
    } else {
      o.nmax = 2;
    }
    Plan p = planModel(rng, o);
    Model m;
    if (!buildModel(rng, p, m)) {
      return;
    }
    std::string const what = p.r.str();
    for (size_t i = 0; i < p.r.cells.size(); ++i) {
      homogenise(m, p.r, i, what);
    }
    if (vol) {
      std::string const base = vh::ctx().scratch + "/v";
      m.write(umS(base + ".xdmf"));
      volumes(base + ".volumes", p.r, what);
    }
    vh::sample(what);
  });
}
