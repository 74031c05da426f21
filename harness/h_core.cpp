// C25: nested layouts against an explicit enumeration of the placed cells.
#include "modelcheck.hpp"

#include <um2/common/logger.hpp>

#include <set>

template <class F>
static bool
reports(F && f)
{
  vh::Capture cap;
  um2::logger::level = um2::logger::levels::error;
  f();
  um2::logger::level = um2::logger::levels::off;
  cap.stop();
  return cap.err.find("ERROR") != std::string::npos || cap.out.find("ERROR") != std::string::npos;
}

static void
flatten(Model const & m, RModel const & r, std::string const & what)
{
  char const * w = what.c_str();
  um2::PolytopeSoup const s(m);
  auto const I = r.instances();
  std::vector<FlatElem> fe;
  if (!flatGeometry(s, r, I, 1e-9L, "flat", what, fe)) {
    return;
  }
  size_t const ne = fe.size();
  // container sets: every element in exactly one set per level, with the right id,
  // and sharing it with exactly the elements of the same container
  std::array<std::vector<std::string>, 4> in;
  for (auto & v : in) {
    v.assign(ne, "");
  }
  static char const * const prefix[4] = {"Coarse_Cell_", "RTM_", "Lattice_", "Assembly_"};
  std::map<std::string, std::vector<Float>> data;
  std::set<std::string> seen;
  for (Int k = 0; k < s.numElsets(); ++k) {
    um2::String name;
    um2::Vector<Int> ids;
    um2::Vector<Float> d;
    s.getElset(k, name, ids, d);
    std::string const n = name.data();
    VH(seen.insert(n).second, "sets.duplicate", "set %s twice: %s", n.c_str(), w);
    int level = -1;
    for (int l = 0; l < 4; ++l) {
      if (n.rfind(prefix[l], 0) == 0) {
        level = l;
      }
    }
    if (level >= 0) {
      VH(d.empty(), "sets.data", "set %s has data: %s", n.c_str(), w);
      for (auto const e : ids) {
        if (e < 0 || (size_t)e >= ne) {
          vh::fail("sets.range", "set %s holds %d: %s", n.c_str(), e, w);
          return;
        }
        std::string & t = in[(size_t)level][(size_t)e];
        VH(t.empty(), "sets.twice", "element %d is in %s and %s: %s", e, t.c_str(), n.c_str(), w);
        t = n;
      }
    } else {
      auto & v = data[n];
      if ((size_t)ids.size() != ne || d.size() != ids.size()) {
        vh::fail("data.size", "%s has %d values for %zu elements: %s", n.c_str(), d.size(), ne, w);
        return;
      }
      v.assign(ne, 0);
      for (Int i = 0; i < ids.size(); ++i) {
        if (ids[i] < 0 || (size_t)ids[i] >= ne) {
          vh::fail("data.range", "%s: %s", n.c_str(), w);
          return;
        }
        v[(size_t)ids[i]] = d[i];
      }
    }
  }
  for (int l = 0; l < 4; ++l) {
    std::map<std::string, int> owner;
    std::map<int, std::string> label;
    for (size_t e = 0; e < ne; ++e) {
      Inst const & k = I[(size_t)fe[e].inst];
      int const id = l == 0 ? k.cell : l == 1 ? k.rtm : l == 2 ? k.lat : k.asy;
      int const occ = l == 0 ? fe[e].inst : l == 1 ? k.irtm : l == 2 ? k.ilat : k.iasy;
      std::string const & n = in[(size_t)l][e];
      std::string const want = std::string(prefix[l]) + vh::fmt("%05d_", id);
      if (n.size() != want.size() + 5 || n.compare(0, want.size(), want) != 0) {
        vh::fail("sets.id", "element %zu is in '%s' instead of %s*: %s", e, n.c_str(), want.c_str(), w);
        return;
      }
      auto const a = owner.emplace(n, occ);
      auto const b = label.emplace(occ, n);
      VH(a.first->second == occ && b.first->second == n, "sets.occurrence", "element %zu: set %s mixes two containers or a container has two sets: %s", e,
         n.c_str(), w);
    }
  }
  // data
  for (auto const * n : {"Material_ID", "One_Group_XS", "Mean_Chord_Length", "Knudsen_Number"}) {
    if (data.count(n) == 0) {
      vh::fail("data.missing", "%s: %s", n, w);
      return;
    }
  }
  std::map<std::pair<int, int>, std::pair<LD, LD>> geo;
  for (size_t e = 0; e < ne; ++e) {
    Inst const & k = I[(size_t)fe[e].inst];
    RCell const & c = r.cells[(size_t)k.cell];
    int const mat = c.mats[(size_t)fe[e].face];
    VH(data["Material_ID"][e] == static_cast<Float>(mat), "data.material", "element %zu has material %g instead of %d: %s", e,
       (double)data["Material_ID"][e], mat, w);
    LD t = 0;
    for (int g = 0; g < r.groups; ++g) {
      t += static_cast<LD>(r.mats[(size_t)mat].xs.a[(size_t)g]) + static_cast<LD>(r.mats[(size_t)mat].xs.s[(size_t)g]);
    }
    t /= r.groups;
    auto it = geo.find({k.cell, fe[e].face});
    if (it == geo.end()) {
      Face const f = c.g.face((size_t)fe[e].face);
      it = geo.emplace(std::make_pair(k.cell, fe[e].face), std::make_pair(f.area(), f.perimeter())).first;
    }
    LD const mcl = 3.14159265358979323846L * it->second.first / it->second.second;
    VH(vh::near((double)data["One_Group_XS"][e], (double)t, 1e-9), "data.xsec", "element %zu: %.12g instead of %.12Lg: %s", e,
       (double)data["One_Group_XS"][e], t, w);
    VH(vh::near((double)data["Mean_Chord_Length"][e], (double)mcl, 1e-6), "data.chord", "element %zu: %.12g instead of %.12Lg: %s", e,
       (double)data["Mean_Chord_Length"][e], mcl, w);
    VH(vh::near((double)data["Knudsen_Number"][e], (double)(1 / (t * mcl)), 1e-6), "data.knudsen", "element %zu: %.12g instead of %.12Lg: %s", e,
       (double)data["Knudsen_Number"][e], 1 / (t * mcl), w);
  }
  // the same chord lengths through the model, in the order of the flattened mesh
  auto const mcls = m.getMeanChordLengths();
  VH((size_t)mcls.size() == ne, "chords.count", "%d: %s", mcls.size(), w);
  for (size_t e = 0; e < ne && (size_t)mcls.size() == ne; ++e) {
    VH(mcls[(Int)e] == data["Mean_Chord_Length"][e], "chords.value", "element %zu: %.12g and %.12g: %s", e, (double)mcls[(Int)e],
       (double)data["Mean_Chord_Length"][e], w);
  }
  vh::count("flattened elements", (long)ne);
}

struct Sizes {
  Int n[10];
  bool operator==(Sizes const & o) const { return memcmp(n, o.n, sizeof n) == 0; }
};

static Sizes
sizes(Model const & m)
{
  return {{m.triMeshes().size(), m.quadMeshes().size(), m.tri6Meshes().size(), m.quad8Meshes().size(), m.numCoarseCells(), m.numRTMs(), m.numLattices(),
           m.numAssemblies(), m.core().children().size(), m.materials().size()}};
}

static void
inconsistent(vh::Rng & rng, Model & m, RModel const & r, bool core, std::string const & what)
{
  std::string kind;
  Sizes const before = sizes(m);
  Int id = -2;
  std::function<Int()> call;
  auto badId = [&](size_t n) { return rng.chance(0.5) ? (int)n + rng.range(0, 3) : -rng.range(1, 3); };
  auto spoil = [&](Rows rows, size_t n) {
    int const how = rng.range(0, 3);
    if (how == 0) {
      auto & row = rng.chance(0.5) ? rows.back() : rows[0];
      row[(size_t)rng.range(0, (int)row.size() - 1)] = badId(n);
      kind += " unknown id";
    } else if (how == 1 && rows.size() > 1) {
      rows[(size_t)rng.range(0, (int)rows.size() - 1)].push_back(rows[0][0]);
      kind += " ragged rows";
    } else if (how == 2) {
      rows.clear();
      kind += " no rows";
    } else {
      rows.assign(1, {});
      kind += " no columns";
    }
    return rows;
  };
  switch (rng.range(0, 8)) {
  case 0: {
    kind = "cell:";
    size_t const c = (size_t)rng.range(0, (int)r.cells.size() - 1);
    RCell q = r.cells[c];
    um2::MeshType type = meshType(q.g);
    Int mesh = q.mesh;
    switch (rng.range(0, 4)) {
    case 0:
      kind += " extent";
      (rng.chance(0.5) ? q.w : q.h) = rng.chance(0.5) ? 0 : -1;
      break;
    case 1:
      kind += " missing mesh";
      mesh = before.n[typeIndex(q.g)] + rng.range(0, 2);
      break;
    case 2:
      kind += " too many materials";
      q.mats.push_back(0);
      break;
    case 3:
      kind += " unknown material";
      q.mats[(size_t)rng.range(0, (int)q.mats.size() - 1)] = rng.chance(0.5) ? (int)r.mats.size() : -1;
      break;
    default:
      kind += " mesh type";
      type = um2::MeshType::Invalid;
      break;
    }
    call = [&m, q, type, mesh] { return m.addCoarseCell(um2::Vec2F(q.w, q.h), type, mesh, toMatIDs(q.mats)); };
    break;
  }
  case 1: {
    kind = "module:";
    Rows const rows = spoil(r.rtms[(size_t)rng.range(0, (int)r.rtms.size() - 1)], r.cells.size());
    call = [&m, rows] { return m.addRTM(toRows(rows)); };
    break;
  }
  case 2: {
    // a module of another size
    kind = "module: other size";
    Rows rows = r.rtms[(size_t)rng.range(0, (int)r.rtms.size() - 1)];
    for (auto & row : rows) {
      row.push_back(row[0]);
    }
    call = [&m, rows] { return m.addRTM(toRows(rows)); };
    break;
  }
  case 3: {
    // cells that do not line up
    kind = "module: misaligned";
    int a = -1, b = -1;
    for (size_t i = 0; i < r.cells.size(); ++i) {
      for (size_t j = 0; j < r.cells.size(); ++j) {
        if (std::fabs((double)(r.cells[i].w - r.cells[j].w)) > 1e-3) {
          a = (int)i;
          b = (int)j;
        }
      }
    }
    if (a < 0) {
      return;
    }
    Rows const rows{{a}, {b}};
    call = [&m, rows] { return m.addRTM(toRows(rows)); };
    break;
  }
  case 4: {
    kind = "lattice:";
    Rows const rows = spoil(r.lats[(size_t)rng.range(0, (int)r.lats.size() - 1)], r.rtms.size());
    call = [&m, rows] { return m.addLattice(toRows(rows)); };
    break;
  }
  case 5:
  case 6: {
    kind = "assembly:";
    RAsy A = r.asys[(size_t)rng.range(0, (int)r.asys.size() - 1)];
    switch (rng.range(0, 6)) {
    case 0:
      kind += " unknown lattice";
      A.lats[(size_t)rng.range(0, (int)A.lats.size() - 1)] = badId(r.lats.size());
      break;
    case 1:
      kind += " too many planes";
      A.z.push_back(A.z.back() + 1);
      break;
    case 2:
      kind += " planes out of order";
      std::swap(A.z[0], A.z[1]);
      break;
    case 3:
      kind += " other height";
      A.z.back() += 1;
      break;
    case 4:
      kind += " other bottom";
      A.z[0] -= 1;
      break;
    case 5: {
      kind += " lattices of different sizes";
      int other = -1;
      for (size_t i = 0; i < r.lats.size(); ++i) {
        if (r.lats[i].size() != r.lats[(size_t)A.lats[0]].size() || r.lats[i][0].size() != r.lats[(size_t)A.lats[0]][0].size()) {
          other = (int)i;
        }
      }
      if (other < 0 || A.lats.size() < 2) {
        return;
      }
      A.lats[(size_t)rng.range(0, (int)A.lats.size() - 1)] = other;
      break;
    }
    default:
      kind += " no lattices";
      A.lats.clear();
      A.z.resize(1);
      break;
    }
    call = [&m, A] { return m.addAssembly(toVec<Int>(A.lats), toVec<Float>(A.z)); };
    break;
  }
  case 7: {
    kind = "core:";
    Rows const rows = core ? r.core : spoil(r.core, r.asys.size());
    if (core) {
      kind += " second core";
    }
    call = [&m, rows] { return m.addCore(toRows(rows)); };
    break;
  }
  default: {
    kind = "core: misaligned";
    if (core) {
      return;
    }
    int a = -1, b = -1;
    for (size_t i = 0; i < r.asys.size(); ++i) {
      for (size_t j = 0; j < r.asys.size(); ++j) {
        if (r.lats[(size_t)r.asys[i].lats[0]][0].size() != r.lats[(size_t)r.asys[j].lats[0]][0].size()) {
          a = (int)i;
          b = (int)j;
        }
      }
    }
    if (a < 0) {
      return;
    }
    Rows const rows{{a}, {b}};
    call = [&m, rows] { return m.addCore(toRows(rows)); };
    break;
  }
  }
  bool const err = reports([&] { id = call(); });
  VH(id == -1, "reject.id", "%s: gave %d: %s", kind.c_str(), id, what.c_str());
  VH(err, "reject.silent", "%s: no error reported: %s", kind.c_str(), what.c_str());
  VH(sizes(m) == before, "reject.changed", "%s: the model changed: %s", kind.c_str(), what.c_str());
  vh::count("rejected " + kind.substr(0, kind.find(':')));
}

static void
coarseGrid(vh::Rng & rng)
{
  Model m;
  Float const w = static_cast<Float>(rng.logu(0.5, 100)), h = static_cast<Float>(rng.logu(0.5, 100));
  Int const nx = rng.range(1, 5), ny = rng.range(1, 5);
  std::string const what = vh::fmt("grid %.12g x %.12g in %d x %d", (double)w, (double)h, nx, ny);
  m.addCoarseGrid(um2::Vec2F(w, h), um2::Vec2I(nx, ny));
  if (m.numCoarseCells() != nx * ny || m.numRTMs() != nx * ny || m.numLattices() != 1 || m.numAssemblies() != 1 || m.core().children().size() != 1 ||
      m.numCoarseCellsTotal() != nx * ny) {
    vh::fail("grid.counts", "%s", what.c_str());
    return;
  }
  auto const & L = m.getLattice(0);
  VH(L.grid().numCells(0) == nx && L.grid().numCells(1) == ny, "grid.shape", "%s", what.c_str());
  for (Int j = 0; j < ny; ++j) {
    for (Int i = 0; i < nx; ++i) {
      // cells are numbered left to right, bottom to top
      Int const rtm = L.getChild(i, j);
      auto const & R = m.getRTM(rtm);
      auto const b = L.grid().getBox(i, j);
      auto const & c = m.getCoarseCell(R.getChild(0, 0));
      VH(R.children().size() == 1 && R.getChild(0, 0) == j * nx + i, "grid.order", "cell at (%d, %d) is %d: %s", i, j, R.getChild(0, 0), what.c_str());
      VH(closeTo(b.minima()[0], (LD)w * i / nx, 1e-9L * w) && closeTo(b.minima()[1], (LD)h * j / ny, 1e-9L * h) &&
             closeTo(b.maxima()[0], (LD)w * (i + 1) / nx, 1e-9L * w) && closeTo(b.maxima()[1], (LD)h * (j + 1) / ny, 1e-9L * h),
         "grid.place", "cell (%d, %d): %s", i, j, what.c_str());
      VH(closeTo(c.xy_extents[0], (LD)w / nx, 1e-9L * w) && closeTo(c.xy_extents[1], (LD)h / ny, 1e-9L * h) && c.mesh_id == -1, "grid.cell",
         "cell (%d, %d): %s", i, j, what.c_str());
    }
  }
  vh::count("regular grids");
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "core", [](vh::Rng & rng, uint64_t) {
    if (rng.chance(0.1)) {
      coarseGrid(rng);
      return;
    }
    MOpts o;
    o.unused = rng.chance(0.5);
    Plan p = planModel(rng, o);
    Model m;
    if (rng.chance(0.1)) {
      // a model that was used before and cleared
      Plan q = planModel(rng, MOpts{.maxCore = 1, .maxLat = 1, .maxZ = 1});
      vh::Rng r2(rng.next());
      if (!buildModel(r2, q, m)) {
        return;
      }
      m.clear();
      Sizes const z = sizes(m);
      for (Int const n : z.n) {
        VH(n == 0, "clear", "something is left: %s", q.r.str().c_str());
      }
      vh::count("cleared models");
    }
    if (!buildModel(rng, p, m, false)) {
      return;
    }
    RModel const & r = p.r;
    std::string const what = r.str();
    for (int k = rng.range(0, 2); k > 0; --k) {
      inconsistent(rng, m, r, false, what);
    }
    VH(m.core().children().empty(), "core.early", "%s", what.c_str());
    if (m.addCore(toRows(r.core)) != 0) {
      vh::fail("build.refused", "core: %s", what.c_str());
      return;
    }
    for (int k = rng.range(0, 2); k > 0; --k) {
      inconsistent(rng, m, r, true, what);
    }
    sameModel(m, r, 1e-9L, "model", what, true);
    sameCore(m, r, 1e-9L, "model", what);
    flatten(m, r, what);
    vh::count("models");
    bool multi = r.asys.size() > 1 && r.lats.size() > 1 && r.rtms.size() > 1;
    if (multi) {
      vh::nontrivial(vh::hashStr(what) ^ rng.next());
      vh::count("models with several parts at every level");
    }
    vh::sample(what);
  });
}
