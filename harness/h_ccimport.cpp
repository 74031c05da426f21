// C28: mesh files with cells and materials generated from a model, imported into declared cells.
#include "modelcheck.hpp"

#include <um2/common/logger.hpp>
#include <um2/mesh/polytope_soup.hpp>

using um2::PolytopeSoup;
using um2::Vec2F;

template <class F>
static bool
reports(F && f)
{
  vh::Capture cap;
  um2::logger::level = um2::logger::levels::error;
  f();
  um2::logger::level = um2::logger::levels::off;
  cap.stop();
  return cap.err.find("ERROR") != std::string::npos || cap.out.find("ERROR") != std::string::npos;
}

struct Cell {
  Float w = 1, h = 1;
  GMesh g;                // local coordinates
  Float x = 0, y = 0;     // placement in the file
  std::vector<int> mat;   // per face
  std::vector<int> order; // faces in the order of the file
};

struct Elem {
  int cell, face;
};

struct File {
  std::vector<Cell> cells;
  std::vector<std::string> names; // of the materials
  std::vector<Elem> elems;
  std::vector<std::array<Float, 2>> v;
  std::vector<std::vector<int>> vid; // per cell: local vertex -> file vertex
  std::vector<std::pair<std::string, std::vector<int>>> sets;
  std::string path;
};

static File
generate(vh::Rng & rng, std::vector<std::array<Float, 2>> const & ext, std::vector<std::string> const & names)
{
  File f;
  f.names = names;
  int const same = rng.chance(0.3) ? rng.range(0, 3) : -1;
  double const off = rng.chance(0.7) ? 1 : rng.logu(1, 1000);
  for (auto const & e : ext) {
    Cell c;
    c.w = e[0];
    c.h = e[1];
    int const t = same >= 0 ? same : rng.range(0, 3);
    c.g = cellMesh(rng, t % 2 == 0 ? 3 : 4, t >= 2, rng.range(1, 4), c.w, c.h);
    c.x = static_cast<Float>(rng.sign() * rng.u() * off * 10);
    c.y = static_cast<Float>(rng.sign() * rng.u() * off * 10);
    int const one = rng.chance(0.2) ? rng.range(0, (int)names.size() - 1) : -1;
    for (size_t i = 0; i < c.g.f.size(); ++i) {
      c.mat.push_back(one >= 0 ? one : rng.range(0, (int)names.size() - 1));
    }
    f.cells.push_back(c);
  }
  // vertices and elements in any order
  std::vector<std::pair<int, int>> vs;
  for (size_t c = 0; c < f.cells.size(); ++c) {
    f.vid.emplace_back(f.cells[c].g.v.size());
    for (size_t i = 0; i < f.cells[c].g.v.size(); ++i) {
      vs.emplace_back((int)c, (int)i);
    }
    for (size_t i = 0; i < f.cells[c].g.f.size(); ++i) {
      f.elems.push_back({(int)c, (int)i});
    }
  }
  if (rng.chance(0.7)) {
    rng.shuffle(vs);
  }
  int const mode = rng.range(0, 2);
  if (mode > 0) {
    rng.shuffle(f.elems);
  }
  for (auto const & [c, i] : vs) {
    Cell const & C = f.cells[(size_t)c];
    P2 const p = C.g.v[(size_t)i];
    f.vid[(size_t)c][(size_t)i] = (int)f.v.size();
    f.v.push_back({static_cast<Float>(p.x + static_cast<LD>(C.x)), static_cast<Float>(p.y + static_cast<LD>(C.y))});
  }
  return f;
}

static void
makeSets(vh::Rng & rng, File & f)
{
  for (size_t c = 0; c < f.cells.size(); ++c) {
    f.sets.emplace_back(vh::fmt("Coarse_Cell_%05zu", c), std::vector<int>());
  }
  std::vector<std::vector<int>> m(f.names.size());
  std::vector<int> some;
  for (size_t e = 0; e < f.elems.size(); ++e) {
    Cell & c = f.cells[(size_t)f.elems[e].cell];
    c.order.push_back(f.elems[e].face);
    f.sets[(size_t)f.elems[e].cell].second.push_back((int)e);
    m[(size_t)c.mat[(size_t)f.elems[e].face]].push_back((int)e);
    if (rng.chance(0.3)) {
      some.push_back((int)e);
    }
  }
  for (size_t i = 0; i < m.size(); ++i) {
    if (!m[i].empty()) {
      f.sets.emplace_back("Material_" + f.names[i], m[i]);
    }
  }
  for (char const * n : {"Materials", "Surface7", "Coarse_Cell", "Coarse_Cell_99998", "aMaterial_X", "Z"}) {
    if (!some.empty() && rng.chance(0.15)) {
      f.sets.emplace_back(n, some);
    }
  }
  rng.shuffle(f.sets);
}

static void
writeInp(vh::Rng & rng, File & f)
{
  // the elements of a block have one type, so the order becomes the order of the file
  f.path = vh::ctx().scratch + "/cells.inp";
  FILE * o = fopen(f.path.c_str(), "w");
  if (o == nullptr) {
    exit(3);
  }
  fprintf(o, "*Heading\n mesh.inp\n*NODE\n");
  for (size_t i = 0; i < f.v.size(); ++i) {
    fprintf(o, "%zu, %.17g, %.17g, 0\n", i + 1, static_cast<double>(f.v[i][0]), static_cast<double>(f.v[i][1]));
  }
  fprintf(o, "******* E L E M E N T S *************\n");
  int last = -1, block = 0;
  for (size_t e = 0; e < f.elems.size(); ++e) {
    Cell const & c = f.cells[(size_t)f.elems[e].cell];
    if (c.g.n() != last || rng.chance(0.05)) {
      last = c.g.n();
      fprintf(o, "*ELEMENT, type=CPS%d, ELSET=Surface%d\n", last, ++block);
    }
    fprintf(o, "%zu", e + 1);
    for (int const v : c.g.f[(size_t)f.elems[e].face]) {
      fprintf(o, ", %d", f.vid[(size_t)f.elems[e].cell][(size_t)v] + 1);
    }
    fprintf(o, "\n");
  }
  for (auto const & s : f.sets) {
    fprintf(o, "*ELSET,ELSET=%s\n", s.first.c_str());
    for (size_t i = 0; i < s.second.size(); ++i) {
      fprintf(o, "%d, ", s.second[i] + 1);
      if (i % 10 == 9 && i + 1 < s.second.size()) {
        fprintf(o, "\n");
      }
    }
    fprintf(o, "\n");
  }
  fclose(o);
}

static void
writeXdmf(File & f)
{
  f.path = vh::ctx().scratch + "/cells.xdmf";
  PolytopeSoup s;
  for (auto const & v : f.v) {
    s.addVertex(v[0], v[1]);
  }
  for (auto const & e : f.elems) {
    Cell const & c = f.cells[(size_t)e.cell];
    um2::Vector<Int> conn;
    for (int const v : c.g.f[(size_t)e.face]) {
      conn.emplace_back(f.vid[(size_t)e.cell][(size_t)v]);
    }
    s.addElement(vtkType(c.g), conn);
  }
  for (auto const & e : f.sets) {
    s.addElset(umS(e.first), toVec<Int>(e.second));
  }
  s.write(umS(f.path));
}

static void
put(vh::Rng & rng, File & f)
{
  if (rng.chance(0.6)) {
    writeInp(rng, f);
    vh::count("inp files");
  } else {
    writeXdmf(f);
    vh::count("xdmf files");
  }
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "ccimport", [](vh::Rng & rng, uint64_t) {
    um2::logger::level = um2::logger::levels::off;
    um2::logger::exit_on_error = false;
    Model m;
    // declared cells
    std::vector<std::array<Float, 2>> ext;
    int const n = rng.chance(0.03) ? rng.range(90, 120) : rng.range(1, 9);
    std::vector<std::string> names;
    int const nm = rng.range(1, 7);
    std::vector<std::string> pool = {"Fuel", "Fuel2", "Fuel_2", "fuel", "H2O", "Clad", "Moderator", "M", "Material_X", "UO2-3.3", "a_very_long_material_name_that_is_not_inline"};
    rng.shuffle(pool);
    for (int i = 0; i < nm; ++i) {
      names.push_back(pool[(size_t)i]);
      RMat r;
      r.name = names.back();
      r.xs = randXs(rng, 2);
      m.addMaterial(toMaterial(r));
    }
    Float const bw = static_cast<Float>(rng.logu(0.2, 20)), bh = static_cast<Float>(rng.logu(0.2, 20));
    if (rng.chance(0.2)) {
      int const nx = rng.range(1, 4), ny = rng.range(1, 4);
      m.addCoarseGrid(Vec2F(bw, bh), um2::Vec2I(nx, ny));
      for (int i = 0; i < nx * ny; ++i) {
        ext.push_back({m.getCoarseCell(i).xy_extents[0], m.getCoarseCell(i).xy_extents[1]});
      }
      vh::count("regular grids");
    } else {
      bool const same = rng.chance(0.5);
      for (int i = 0; i < n; ++i) {
        ext.push_back({same ? bw : static_cast<Float>(rng.logu(0.2, 20)), same ? bh : static_cast<Float>(rng.logu(0.2, 20))});
        m.addCoarseCell(Vec2F(ext.back()[0], ext.back()[1]));
      }
    }
    int const fault = rng.chance(0.25) ? rng.range(0, 3) : -1;
    int const rounds = fault < 0 && rng.chance(0.1) ? 2 : 1;
    for (int round = 0; round < rounds; ++round) {
      size_t const bad = (size_t)rng.range(0, (int)ext.size() - 1);
      auto fileExt = ext;
      if (fault == 1) {
        double const s = rng.chance(0.5) ? rng.uni(1.01, 3) : 1 / rng.uni(1.01, 3);
        fileExt[bad][(size_t)rng.range(0, 1)] *= static_cast<Float>(s);
      }
      auto fileNames = names;
      if (fault == 2) {
        fileNames[(size_t)rng.range(0, nm - 1)] = rng.pick(std::vector<std::string>{"Fue", "Unknown", "fUEL", "Fuel22", "0"});
      }
      File f = generate(rng, fileExt, fileNames);
      makeSets(rng, f);
      std::string const what = vh::fmt("%zu cells, %d materials, %zu faces", f.cells.size(), nm, f.elems.size());
      if (fault < 0) {
        put(rng, f);
        bool const err = reports([&] { m.importCoarseCellMeshes(umS(f.path)); });
        VH(!err, "good.reported", "%s: an error was reported", what.c_str());
        std::array<int, 4> types{};
        for (size_t i = 0; i < f.cells.size(); ++i) {
          Cell const & c = f.cells[i];
          auto const & cc = m.getCoarseCell((Int)i);
          std::string const w = what + vh::fmt(", cell %zu", i);
          VH(cc.xy_extents[0] == ext[i][0] && cc.xy_extents[1] == ext[i][1], "cell.extents", "%s", w.c_str());
          if (cc.mesh_type != meshType(c.g)) {
            vh::fail("cell.mesh_type", "%s: type %d", w.c_str(), (int)cc.mesh_type);
            continue;
          }
          GMesh g = c.g;
          g.f.clear();
          std::vector<int> mats;
          for (int const k : c.order) {
            g.f.push_back(c.g.f[(size_t)k]);
            mats.push_back(c.mat[(size_t)k]);
          }
          LD const tol = 1e-12L * (std::fabs(static_cast<LD>(c.x)) + std::fabs(static_cast<LD>(c.y)) + static_cast<LD>(c.w) + static_cast<LD>(c.h));
          int const t = typeIndex(g);
          types[(size_t)t]++;
          Int const lim[] = {m.triMeshes().size(), m.quadMeshes().size(), m.tri6Meshes().size(), m.quad8Meshes().size()};
          if (cc.mesh_id < 0 || cc.mesh_id >= lim[t]) {
            vh::fail("cell.mesh_id", "%s: mesh %d of %d", w.c_str(), cc.mesh_id, lim[t]);
            continue;
          }
          switch (t) {
          case 0:
            sameMesh(m.getTriMesh(cc.mesh_id), g, tol, "mesh", w);
            break;
          case 1:
            sameMesh(m.getQuadMesh(cc.mesh_id), g, tol, "mesh", w);
            break;
          case 2:
            sameMesh(m.getTri6Mesh(cc.mesh_id), g, tol, "mesh", w);
            break;
          default:
            sameMesh(m.getQuad8Mesh(cc.mesh_id), g, tol, "mesh", w);
            break;
          }
          bool ok = cc.material_ids.size() == (Int)mats.size();
          for (size_t k = 0; ok && k < mats.size(); ++k) {
            ok = cc.material_ids[(Int)k] == mats[k];
          }
          VH(ok, "materials", "%s: wrong materials", w.c_str());
          vh::count("imported cells");
        }
        for (int t = 0; t < 4; ++t) {
          vh::count(vh::fmt("cells of type %d", t), types[(size_t)t]);
        }
        if (f.cells.size() > 1 && nm > 1) {
          vh::nontrivial(rng.next());
        }
        vh::sample(what);
        if (round == 1) {
          vh::count("cells imported again");
        }
        continue;
      }
      // faulty files
      char const * kinds[] = {"missing cell", "cell of another size", "unknown material", "face without material"};
      std::string const badName = vh::fmt("Coarse_Cell_%05zu", bad);
      bool effective = true;
      if (fault == 0) {
        for (size_t i = 0; i < f.sets.size(); ++i) {
          if (f.sets[i].first == badName) {
            f.sets.erase(f.sets.begin() + (long)i);
            break;
          }
        }
      } else if (fault == 2) {
        effective = false;
        for (auto const & s : f.sets) {
          if (s.first.rfind("Material_", 0) == 0 && std::find(names.begin(), names.end(), s.first.substr(9)) == names.end()) {
            effective = true;
          }
        }
      } else if (fault == 3) {
        std::vector<size_t> ms;
        for (size_t i = 0; i < f.sets.size(); ++i) {
          if (f.sets[i].first.rfind("Material_", 0) == 0) {
            ms.push_back(i);
          }
        }
        auto & s = f.sets[rng.pick(ms)].second;
        s.erase(s.begin() + (long)(rng.next() % s.size()));
        if (s.empty()) {
          for (size_t i = 0; i < f.sets.size(); ++i) {
            if (f.sets[i].second.empty()) {
              f.sets.erase(f.sets.begin() + (long)i);
              break;
            }
          }
        }
      }
      if (!effective) {
        continue;
      }
      put(rng, f);
      std::string out;
      um2::logger::level = um2::logger::levels::error;
      int const st = vh::isolated(
          [&] {
            m.importCoarseCellMeshes(umS(f.path));
            return true;
          },
          &out);
      um2::logger::level = um2::logger::levels::off;
      bool const asserted = out.find("Assertion failed") != std::string::npos;
      bool const err = out.find("ERROR:") == std::string::npos && out.find("ERROR") != std::string::npos;
      VH(asserted || (st == 0 && err), std::string("fault.") + kinds[fault], "%s: %s: %s", what.c_str(), st == 0 ? "nothing reported" : "died", out.substr(0, 300).c_str());
      vh::count(std::string("files with ") + kinds[fault]);
    }
  });
}
