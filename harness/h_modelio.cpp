// C26: models written and read back, and the companion summaries.
#include "modelcheck.hpp"

#include <um2/common/logger.hpp>

#include <sstream>

struct Nuc {
  int zaid;
  double n;
};

struct Extra { // composition of a material
  double density = 0, temperature = 0;
  std::vector<Nuc> nuc;
};

static void
crossSections(std::string const & path, RModel const & r, std::string const & what)
{
  char const * w = what.c_str();
  auto const ls = lines(path);
  size_t const n = 1 + r.mats.size() * (size_t)(1 + r.groups);
  if (ls.size() != n) {
    vh::fail("xs.lines", "%zu lines instead of %zu: %s", ls.size(), n, w);
    return;
  }
  VH(ls[0] == vh::fmt("%zu %d", r.mats.size(), r.groups), "xs.header", "'%s': %s", ls[0].c_str(), w);
  size_t l = 1;
  for (auto const & m : r.mats) {
    VH(ls[l] == m.name, "xs.name", "'%s' instead of %s: %s", ls[l].c_str(), m.name.c_str(), w);
    ++l;
    for (size_t g = 0; g < (size_t)r.groups; ++g, ++l) {
      std::istringstream is(ls[l]);
      double const want[5] = {m.xs.a[g], m.xs.f[g], m.xs.nuf[g], m.xs.tr[g], m.xs.s[g]};
      for (double const x : want) {
        double got = -1;
        is >> got;
        VH(vh::near(got, x, 1e-14), "xs.value", "%.17g instead of %.17g, %s group %zu: %s", got, x, m.name.c_str(), g, w);
      }
    }
  }
  vh::count("cross section summaries");
}

static void
input(std::string const & path, std::string const & xdmf, RModel const & r, std::vector<Extra> const & ex, std::string const & what)
{
  char const * w = what.c_str();
  auto const ls = lines(path);
  // materials: a comment with the name, the number, density, temperature and nuclides
  size_t l = 0;
  while (l < ls.size() && ls[l] != "MATERIAL") {
    ++l;
  }
  ++l;
  for (size_t i = 0; i < r.mats.size(); ++i) {
    if (l + 1 >= ls.size()) {
      vh::fail("input.short", "%zu lines: %s", ls.size(), w);
      return;
    }
    VH(ls[l] == "  ! " + r.mats[i].name, "input.material_name", "'%s' instead of %s: %s", ls[l].c_str(), r.mats[i].name.c_str(), w);
    ++l;
    size_t const bs = ls[l].find('\\');
    std::istringstream is(ls[l].substr(0, bs));
    std::string mat, type, gcc, K;
    int num = -1;
    double den = -1, temp = -1;
    is >> mat >> num >> type >> den >> gcc >> temp >> K;
    VH(mat == "mat" && num == (int)i + 1 && gcc == "g/cc" && K == "K", "input.material_line", "'%s': %s", ls[l].c_str(), w);
    VH(std::fabs(den - ex[i].density) <= 1e-6 && std::fabs(temp - ex[i].temperature) <= 1e-6, "input.material_state",
       "'%s' instead of %.9g g/cc %.9g K: %s", ls[l].c_str(), ex[i].density, ex[i].temperature, w);
    for (size_t k = 0; k < ex[i].nuc.size(); ++k) {
      std::istringstream ns(k == 0 ? ls[l].substr(bs + 1) : ls[l]);
      int z = -1;
      double d = -1;
      ns >> z >> d;
      VH(z == ex[i].nuc[k].zaid && vh::near(d, ex[i].nuc[k].n, 1e-5), "input.nuclide", "'%s' instead of %d %.9g: %s", ls[l].c_str(), ex[i].nuc[k].zaid,
         ex[i].nuc[k].n, w);
      ++l;
      if (l >= ls.size()) {
        vh::fail("input.short", "%zu lines: %s", ls.size(), w);
        return;
      }
    }
    if (ex[i].nuc.empty()) {
      return; // nothing ends the line then
    }
  }
  bool geom = false, ray = false;
  for (size_t k = l; k < ls.size(); ++k) {
    std::istringstream is(ls[k]);
    std::string a;
    is >> a;
    if (a == "um2_core" && k + 1 < ls.size()) {
      geom = ls[k + 1].find(xdmf) != std::string::npos;
    }
    if (a == "ray") {
      double d = -1;
      is >> d;
      // a tenth of the faces have a smaller mean chord length than four times the spacing
      std::vector<LD> mcl;
      std::map<std::pair<int, size_t>, LD> memo;
      for (auto const & q : r.instances()) {
        RCell const & c = r.cells[(size_t)q.cell];
        for (size_t f = 0; f < c.g.f.size(); ++f) {
          auto it = memo.find({q.cell, f});
          if (it == memo.end()) {
            Face const fc = c.g.face(f);
            it = memo.emplace(std::make_pair(q.cell, f), 3.14159265358979323846L * fc.area() / fc.perimeter()).first;
          }
          mcl.push_back(it->second);
        }
      }
      std::sort(mcl.begin(), mcl.end());
      // the tenth itself may round either way
      size_t const n = mcl.size();
      size_t const k1 = n / 10;
      size_t const k0 = n % 10 == 0 && k1 > 0 ? k1 - 1 : k1;
      VH(vh::near(d, (double)(mcl[k1] / 4), 1e-5) || vh::near(d, (double)(mcl[k0] / 4), 1e-5), "input.ray", "spacing %.9g instead of %.9Lg: %s", d,
         mcl[k1] / 4, w);
      ray = true;
    }
  }
  VH(geom, "input.geometry", "no reference to %s: %s", xdmf.c_str(), w);
  VH(ray, "input.ray_missing", "%s", w);
  vh::count("input summaries");
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "modelio", [](vh::Rng & rng, uint64_t) {
    MOpts o;
    o.nmax = 2;
    o.unused = rng.chance(0.02);
    Plan p = planModel(rng, o);
    RModel & r = p.r;
    Model m;
    // compositions
    std::vector<Extra> ex(r.mats.size());
    if (!buildModel(rng, p, m)) {
      return;
    }
    bool const comp = rng.chance(0.7);
    for (size_t i = 0; i < ex.size() && comp; ++i) {
      auto & mat = m.materials()[(Int)i];
      ex[i].density = rng.uni(0.5, 20);
      ex[i].temperature = rng.uni(250, 1500);
      mat.setDensity(static_cast<Float>(ex[i].density));
      mat.setTemperature(static_cast<Float>(ex[i].temperature));
      int z = 1001;
      for (int k = rng.range(1, 4); k > 0; --k) {
        z += rng.range(1, 20000);
        ex[i].nuc.push_back({z, rng.logu(1e-8, 1)});
        mat.addNuclide(z, static_cast<Float>(ex[i].nuc.back().n));
      }
    }
    std::string const what = r.str();
    std::string const base = vh::ctx().scratch + "/" + rng.pick(std::vector<std::string>{"model", "m.1", "a_b-c"});
    bool const kn = rng.chance(0.4), xs = rng.chance(0.4);
    std::vector<char> placed(r.cells.size(), 0), pr(r.rtms.size(), 0), pl(r.lats.size(), 0), pa(r.asys.size(), 0);
    for (auto const & k : r.instances()) {
      placed[(size_t)k.cell] = pr[(size_t)k.rtm] = pl[(size_t)k.lat] = pa[(size_t)k.asy] = 1;
    }
    bool all = true;
    for (auto const * v : {&placed, &pr, &pl, &pa}) {
      all = all && std::find(v->begin(), v->end(), 0) == v->end();
    }
    m.write(umS(base + ".xdmf"), kn, xs);
    if (!all) {
      int const st = vh::isolated([&] {
        Model const q(umS(base + ".xdmf"));
        return q.numCoarseCells() == m.numCoarseCells() && q.numAssemblies() == m.numAssemblies();
      });
      VH(st == 0, "read.unplaced_parts", "%s: %s", st == 2 ? "reading ends the program" : "parts are missing", what.c_str());
      vh::count("models with unplaced parts");
      return;
    }
    {
      Model const q(umS(base + ".xdmf"));
      sameModel(q, r, 1e-9L, "read", what, false);
      if (q.numAssemblies() == m.numAssemblies()) {
        sameCore(q, r, 1e-9L, "read", what);
        for (size_t i = 0; i < r.asys.size(); ++i) {
          auto const & d = q.getAssembly((Int)i).grid().divs(0);
          for (Int k = 0; k < d.size() && k < (Int)r.asys[i].z.size(); ++k) {
            VH(d[k] == r.asys[i].z[(size_t)k], "read.plane", "assembly %zu plane %d at %.17g instead of %.17g: %s", i, k, (double)d[k],
               (double)r.asys[i].z[(size_t)k], what.c_str());
          }
        }
      }
      if (rng.chance(0.2)) {
        // once more, from what was read
        q.write(umS(base + "2.xdmf"), false, false);
        Model const q2(umS(base + "2.xdmf"));
        sameModel(q2, r, 1e-9L, "reread", what, false);
        vh::count("models written again");
      }
    }
    volumes(base + ".volumes", r, what);
    crossSections(base + ".xs", r, what);
    if (comp) {
      input(base + ".input", base + ".xdmf", r, ex, what);
    }
    vh::count("models");
    if (r.asys.size() > 1 || r.lats.size() > 1) {
      vh::nontrivial(vh::hashStr(what) ^ rng.next());
    }
    bool differ = false;
    for (auto const & A : r.asys) {
      for (int const l : A.lats) {
        differ = differ || l != (int)(&A - r.asys.data());
      }
    }
    if (differ) {
      vh::count("models whose lattice and assembly numbers differ");
    }
    vh::sample(what);
  });
}
