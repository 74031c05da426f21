#pragma once
// Compares a model with its description.
#include "modelgen.hpp"

#include <fstream>

using um2::mpact::Model;

inline bool
closeTo(LD a, LD b, LD tol)
{
  return std::fabs(a - b) <= tol;
}

// The layout of a partition, bottom row first in the library, top row first here.
template <class Part>
inline bool
sameLayout(Part const & p, Rows const & rows)
{
  Int const nx = (Int)rows[0].size(), ny = (Int)rows.size();
  if (p.grid().numCells(0) != nx || p.grid().numCells(1) != ny || p.children().size() != nx * ny) {
    return false;
  }
  for (Int j = 0; j < ny; ++j) {
    for (Int i = 0; i < nx; ++i) {
      if (p.getChild(i, j) != rows[(size_t)(ny - 1 - j)][(size_t)i] || p.children()[j * nx + i] != rows[(size_t)(ny - 1 - j)][(size_t)i]) {
        return false;
      }
    }
  }
  return true;
}

// The mesh of a cell: same faces in the same order, vertices at the same places
// (vertices may be numbered differently).
template <class FVM>
inline void
sameMesh(FVM const & m, GMesh const & g, LD tol, std::string const & key, std::string const & what)
{
  if ((size_t)m.numFaces() != g.f.size()) {
    vh::fail(key + ".face_count", "%d faces instead of %zu: %s", m.numFaces(), g.f.size(), what.c_str());
    return;
  }
  for (Int i = 0; i < m.numFaces(); ++i) {
    for (Int j = 0; j < g.n(); ++j) {
      Int const v = m.faceVertexConn()[i][j];
      if (v < 0 || v >= m.numVertices()) {
        vh::fail(key + ".vertex_range", "face %d vertex %d: %s", i, v, what.c_str());
        return;
      }
      P2 const p = ref(m.getVertex(v));
      P2 const q = g.v[(size_t)g.f[(size_t)i][(size_t)j]];
      if (!(closeTo(p.x, q.x, tol) && closeTo(p.y, q.y, tol))) {
        vh::fail(key + ".vertex", "face %d vertex %d is at (%.12Lg, %.12Lg) instead of (%.12Lg, %.12Lg): %s", i, j, p.x, p.y, q.x, q.y, what.c_str());
        return;
      }
    }
  }
}

// everything below the core; tol is relative to the size of the model
inline void
sameModel(Model const & m, RModel const & r, LD tol, std::string const & key, std::string const & what, bool xsecs)
{
  char const * w = what.c_str();
  bool sizes = m.materials().size() == (Int)r.mats.size() && m.numCoarseCells() == (Int)r.cells.size() && m.numRTMs() == (Int)r.rtms.size() &&
               m.numLattices() == (Int)r.lats.size() && m.numAssemblies() == (Int)r.asys.size() && m.coarseCells().size() == (Int)r.cells.size() &&
               m.rtms().size() == (Int)r.rtms.size() && m.lattices().size() == (Int)r.lats.size() && m.assemblies().size() == (Int)r.asys.size();
  if (!sizes) {
    vh::fail(key + ".counts", "%d materials %d cells %d modules %d lattices %d assemblies instead of %s", m.materials().size(), m.numCoarseCells(),
             m.numRTMs(), m.numLattices(), m.numAssemblies(), w);
    return;
  }
  for (size_t i = 0; i < r.mats.size(); ++i) {
    auto const & mat = m.materials()[(Int)i];
    VH(r.mats[i].name == mat.getName().data(), key + ".material_name", "material %zu is %s instead of %s: %s", i, mat.getName().data(),
       r.mats[i].name.c_str(), w);
    if (xsecs) {
      for (Int g = 0; g < r.groups; ++g) {
        VH(mat.xsec().a()[g] == static_cast<Float>(r.mats[i].xs.a[(size_t)g]), key + ".material_xsec", "material %zu: %s", i, w);
      }
    }
  }
  for (size_t i = 0; i < r.cells.size(); ++i) {
    auto const & c = m.getCoarseCell((Int)i);
    RCell const & q = r.cells[i];
    LD const t = tol * std::max(q.w, q.h);
    std::string const cw = vh::fmt("cell %zu: ", i) + what;
    VH(closeTo(c.xy_extents[0], q.w, t) && closeTo(c.xy_extents[1], q.h, t), key + ".cell_extents", "%.15g x %.15g instead of %.15g x %.15g: %s",
       (double)c.xy_extents[0], (double)c.xy_extents[1], (double)q.w, (double)q.h, cw.c_str());
    if (c.mesh_type != meshType(q.g)) {
      vh::fail(key + ".cell_mesh_type", "%s", cw.c_str());
      continue;
    }
    Int const n[4] = {m.triMeshes().size(), m.quadMeshes().size(), m.tri6Meshes().size(), m.quad8Meshes().size()};
    if (c.mesh_id < 0 || c.mesh_id >= n[typeIndex(q.g)]) {
      vh::fail(key + ".cell_mesh_id", "mesh %d of %d: %s", c.mesh_id, n[typeIndex(q.g)], cw.c_str());
      continue;
    }
    switch (typeIndex(q.g)) {
    case 0:
      sameMesh(m.getTriMesh(c.mesh_id), q.g, t, key + ".mesh", cw);
      break;
    case 1:
      sameMesh(m.getQuadMesh(c.mesh_id), q.g, t, key + ".mesh", cw);
      break;
    case 2:
      sameMesh(m.getTri6Mesh(c.mesh_id), q.g, t, key + ".mesh", cw);
      break;
    default:
      sameMesh(m.getQuad8Mesh(c.mesh_id), q.g, t, key + ".mesh", cw);
    }
    bool ok = (size_t)c.material_ids.size() == q.mats.size() && (size_t)c.numFaces() == q.mats.size();
    for (size_t k = 0; k < q.mats.size() && ok; ++k) {
      ok = c.material_ids[(Int)k] == q.mats[k];
    }
    VH(ok, key + ".cell_materials", "%s", cw.c_str());
  }
  for (size_t i = 0; i < r.rtms.size(); ++i) {
    auto const & p = m.getRTM((Int)i);
    if (!sameLayout(p, r.rtms[i])) {
      vh::fail(key + ".module_layout", "module %zu: %s", i, w);
      continue;
    }
    auto const e = r.rtmExtent((int)i);
    LD const t = tol * (e[0] + e[1]);
    LD x = 0;
    for (size_t j = 0; j < r.rtms[i][0].size(); ++j) {
      VH(closeTo(p.grid().divs(0)[(Int)j], x, t), key + ".module_column", "module %zu column %zu at %.15g instead of %.15Lg: %s", i, j,
         (double)p.grid().divs(0)[(Int)j], x, w);
      x += r.cells[(size_t)r.rtms[i][0][j]].w;
    }
    VH(closeTo(p.grid().divs(0).back(), x, t), key + ".module_width", "module %zu: %s", i, w);
    LD y = 0;
    for (size_t j = 0; j < r.rtms[i].size(); ++j) {
      VH(closeTo(p.grid().divs(1)[(Int)j], y, t), key + ".module_row", "module %zu row %zu: %s", i, j, w);
      y += r.cells[(size_t)r.rtms[i][r.rtms[i].size() - 1 - j][0]].h;
    }
    VH(closeTo(p.grid().divs(1).back(), y, t), key + ".module_height", "module %zu: %s", i, w);
  }
  for (size_t i = 0; i < r.lats.size(); ++i) {
    auto const & p = m.getLattice((Int)i);
    VH(sameLayout(p, r.lats[i]), key + ".lattice_layout", "lattice %zu: %s", i, w);
    auto const e = r.latExtent((int)i);
    LD const t = tol * (e[0] + e[1]);
    VH(closeTo(p.grid().extents()[0], e[0], t) && closeTo(p.grid().extents()[1], e[1], t), key + ".lattice_extents", "lattice %zu: %s", i, w);
  }
  for (size_t i = 0; i < r.asys.size(); ++i) {
    auto const & p = m.getAssembly((Int)i);
    RAsy const & A = r.asys[i];
    bool ok = p.children().size() == (Int)A.lats.size() && p.grid().divs(0).size() == (Int)A.z.size();
    for (size_t k = 0; ok && k < A.lats.size(); ++k) {
      ok = p.getChild((Int)k) == A.lats[k];
    }
    VH(ok, key + ".assembly_layout", "assembly %zu: %s", i, w);
    for (size_t k = 0; ok && k < A.z.size(); ++k) {
      VH(closeTo(p.grid().divs(0)[(Int)k], A.z[k], tol * std::max<LD>(1, std::fabs((LD)A.z.back()))), key + ".assembly_plane",
         "assembly %zu plane %zu at %.17g instead of %.17g: %s", i, k, (double)p.grid().divs(0)[(Int)k], (double)A.z[k], w);
    }
  }
}

inline void
sameCore(Model const & m, RModel const & r, LD tol, std::string const & key, std::string const & what)
{
  char const * w = what.c_str();
  if (!sameLayout(m.getCore(), r.core)) {
    vh::fail(key + ".core_layout", "%s", w);
    return;
  }
  LD x = 0;
  for (size_t j = 0; j < r.core[0].size(); ++j) {
    LD const e = r.latExtent(r.asys[(size_t)r.core[0][j]].lats[0])[0];
    VH(closeTo(m.core().grid().divs(0)[(Int)j], x, tol * (x + e)), key + ".core_column", "column %zu: %s", j, w);
    x += e;
  }
  LD y = 0;
  for (size_t j = 0; j < r.core.size(); ++j) {
    LD const e = r.latExtent(r.asys[(size_t)r.core[r.core.size() - 1 - j][0]].lats[0])[1];
    VH(closeTo(m.core().grid().divs(1)[(Int)j], y, tol * (y + e)), key + ".core_row", "row %zu: %s", j, w);
    y += e;
  }
  auto const I = r.instances();
  int nl = 0, nr = 0;
  Int nf = 0;
  for (auto const & k : I) {
    nl = std::max(nl, k.ilat + 1);
    nr = std::max(nr, k.irtm + 1);
    nf += (Int)r.cells[(size_t)k.cell].mats.size();
  }
  VH(m.numAssembliesTotal() == (Int)(r.core.size() * r.core[0].size()) && m.numLatticesTotal() == nl && m.numRTMsTotal() == nr &&
         m.numCoarseCellsTotal() == (Int)I.size() && m.numFineCellsTotal() == nf,
     key + ".totals", "%d assemblies %d lattices %d modules %d cells %d faces: %s", m.numAssembliesTotal(), m.numLatticesTotal(), m.numRTMsTotal(),
     m.numCoarseCellsTotal(), m.numFineCellsTotal(), w);
}

struct FlatNames {
  std::map<std::string, std::vector<int>> members;             // plain sets
  std::map<std::string, std::vector<Float>> data;              // per element
  std::map<std::string, std::vector<char>> has;
};

// The flattened mesh against the enumeration of placed cells.  extra: names of data sets
// with a value per element, checked by the caller through the returned face of each element.
struct FlatElem {
  int inst = -1, face = -1;
};

inline bool
flatGeometry(um2::PolytopeSoup const & s, RModel const & r, std::vector<Inst> const & I, LD tol, std::string const & key, std::string const & what,
             std::vector<FlatElem> & out)
{
  char const * w = what.c_str();
  size_t nf = 0;
  LD size = 0;
  for (auto const & k : I) {
    nf += r.cells[(size_t)k.cell].g.f.size();
    size = std::max({size, k.x + r.cells[(size_t)k.cell].w, k.y + r.cells[(size_t)k.cell].h});
  }
  if ((size_t)s.numElements() != nf) {
    vh::fail(key + ".element_count", "%d elements instead of %zu: %s", s.numElements(), nf, w);
    return false;
  }
  LD const t = tol * size;
  std::vector<std::vector<char>> used(I.size());
  for (size_t i = 0; i < I.size(); ++i) {
    used[i].assign(r.cells[(size_t)I[i].cell].g.f.size(), 0);
  }
  out.assign(nf, {});
  um2::Vector<Int> conn;
  size_t hint = 0;
  for (Int e = 0; e < s.numElements(); ++e) {
    um2::VTKElemType type{};
    s.getElement(e, type, conn);
    std::vector<P2> p;
    LD z = 0;
    P2 c;
    for (auto const v : conn) {
      auto const & q = s.getVertex(v);
      p.push_back({static_cast<LD>(q[0]), static_cast<LD>(q[1])});
      c = c + p.back();
      z += static_cast<LD>(q[2]);
    }
    c = (1.0L / (LD)p.size()) * c;
    z /= (LD)p.size();
    auto inside = [&](Inst const & k) {
      RCell const & q = r.cells[(size_t)k.cell];
      return c.x > k.x && c.x < k.x + q.w && c.y > k.y && c.y < k.y + q.h && std::fabs(z - k.z) < k.dz / 4;
    };
    int at = -1;
    for (size_t i = 0; i < I.size() && at < 0; ++i) {
      size_t const j = (hint + i) % I.size();
      if (inside(I[j])) {
        at = (int)j;
      }
    }
    if (at < 0) {
      vh::fail(key + ".place", "element %d around (%.12Lg, %.12Lg, %.12Lg) is in no cell: %s", e, c.x, c.y, z, w);
      return false;
    }
    hint = (size_t)at;
    Inst const & k = I[(size_t)at];
    GMesh const & g = r.cells[(size_t)k.cell].g;
    if (type != vtkType(g) || (int)p.size() != g.n()) {
      vh::fail(key + ".element_type", "element %d: %s", e, w);
      return false;
    }
    for (auto const v : conn) {
      VH(closeTo(s.getVertex(v)[2], k.z, 1e-9L * std::max<LD>(1, std::fabs(k.z))), key + ".elevation", "element %d at %.12g instead of %.12Lg: %s", e,
         (double)s.getVertex(v)[2], k.z, w);
    }
    int face = -1;
    for (size_t f = 0; f < g.f.size() && face < 0; ++f) {
      if (used[(size_t)at][f] != 0) {
        continue;
      }
      bool ok = true;
      for (int j = 0; j < g.n() && ok; ++j) {
        P2 const q = g.v[(size_t)g.f[f][(size_t)j]];
        ok = closeTo(p[(size_t)j].x, q.x + k.x, t) && closeTo(p[(size_t)j].y, q.y + k.y, t);
      }
      if (ok) {
        face = (int)f;
      }
    }
    if (face < 0) {
      vh::fail(key + ".face", "element %d around (%.12Lg, %.12Lg) is no face of cell %d: %s", e, c.x, c.y, k.cell, w);
      return false;
    }
    used[(size_t)at][(size_t)face] = 1;
    out[(size_t)e] = {at, face};
  }
  return true;
}

inline std::vector<std::string>
lines(std::string const & path)
{
  std::vector<std::string> r;
  std::ifstream f(path);
  std::string l;
  while (std::getline(f, l)) {
    r.push_back(l);
  }
  return r;
}

inline void
volumes(std::string const & path, RModel const & r, std::string const & what)
{
  char const * w = what.c_str();
  std::vector<LD> v(r.mats.size(), 0);
  std::map<std::pair<int, size_t>, LD> area;
  for (auto const & k : r.instances()) {
    RCell const & c = r.cells[(size_t)k.cell];
    for (size_t f = 0; f < c.g.f.size(); ++f) {
      auto it = area.find({k.cell, f});
      if (it == area.end()) {
        it = area.emplace(std::make_pair(k.cell, f), c.g.face(f).area()).first;
      }
      v[(size_t)c.mats[f]] += it->second * k.dz;
    }
  }
  auto const ls = lines(path);
  if (ls.size() != r.mats.size()) {
    vh::fail("volumes.lines", "%zu lines for %zu materials: %s", ls.size(), r.mats.size(), w);
    return;
  }
  for (size_t i = 0; i < ls.size(); ++i) {
    size_t const sp = ls[i].rfind(' ');
    VH(sp != std::string::npos && ls[i].substr(0, sp) == r.mats[i].name, "volumes.name", "'%s' instead of %s: %s", ls[i].c_str(), r.mats[i].name.c_str(), w);
    double const got = sp == std::string::npos ? -1 : strtod(ls[i].c_str() + sp, nullptr);
    VH(vh::near(got, (double)v[i], 1e-12), "volumes.value", "material %zu has %.15g instead of %.15Lg: %s", i, got, v[i], w);
  }
  vh::count("volume summaries");
}
