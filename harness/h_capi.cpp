// C30: the C interface against the C++ interface on models read from the same file.
#include "modelcheck.hpp"

#include <um2/common/logger.hpp>
#include <um2c.h>

#include <memory>

using um2::MeshType;
using um2::Point2F;
using um2::Ray2F;
using um2::Vec2F;

struct Loaded {
  void * c = nullptr; // through the C interface
  Model m;            // through the C++ interface
  RModel r;
  std::vector<Inst> inst;
  std::string what;
};

template <class F>
static void
withMesh(Model const & m, typename Model::CoarseCell const & cc, F && f)
{
  switch (cc.mesh_type) {
  case MeshType::Tri:
    f(m.getTriMesh(cc.mesh_id), 3);
    break;
  case MeshType::Quad:
    f(m.getQuadMesh(cc.mesh_id), 4);
    break;
  case MeshType::QuadraticTri:
    f(m.getTri6Mesh(cc.mesh_id), 6);
    break;
  case MeshType::QuadraticQuad:
    f(m.getQuad8Mesh(cc.mesh_id), 8);
    break;
  default:
    vh::fail("mesh_type", "type %d", (int)cc.mesh_type);
  }
}

static bool
load(vh::Rng & rng, Loaded & l, std::string const & path)
{
  MOpts o;
  o.maxCore = 2;
  o.maxUnits = rng.range(1, 3);
  o.maxLat = rng.range(1, 2);
  o.maxGroups = 3;
  Plan p = planModel(rng, o);
  Model m;
  if (!buildModel(rng, p, m)) {
    return false;
  }
  l.r = p.r;
  l.inst = l.r.instances();
  l.what = l.r.str();
  m.write(umS(path));
  um2ReadMPACTModel(path.c_str(), &l.c);
  l.m.read(umS(path));
  vh::count("models");
  return l.c != nullptr;
}

#define SAME(a, b, key, ...)                                                                                                                              \
  do {                                                                                                                                                    \
    auto const va = (a);                                                                                                                                  \
    auto const vb = (b);                                                                                                                                  \
    if (!(va == vb)) {                                                                                                                                    \
      vh::fail(key, "%s instead of %s: %s", std::to_string(va).c_str(), std::to_string(vb).c_str(), vh::fmt(__VA_ARGS__).c_str());                       \
    }                                                                                                                                                     \
  } while (0)

static void
layout(vh::Rng & rng, Loaded & l)
{
  char const * w = l.what.c_str();
  Int n = -7, nx = -7, ny = -7, ch = -7;
  switch (rng.range(0, 3)) {
  case 0: {
    um2MPACTNumCoarseCells(l.c, &n);
    SAME(n, (Int)l.r.cells.size(), "count.cells", "%s", w);
    um2MPACTNumRTMs(l.c, &n);
    SAME(n, (Int)l.r.rtms.size(), "count.modules", "%s", w);
    um2MPACTNumLattices(l.c, &n);
    SAME(n, (Int)l.r.lats.size(), "count.lattices", "%s", w);
    um2MPACTNumAssemblies(l.c, &n);
    SAME(n, (Int)l.r.asys.size(), "count.assemblies", "%s", w);
    break;
  }
  case 1: {
    um2MPACTCoreNumCells(l.c, &nx, &ny);
    SAME(nx, (Int)l.r.core[0].size(), "core.nx", "%s", w);
    SAME(ny, (Int)l.r.core.size(), "core.ny", "%s", w);
    Int const i = rng.range(0, (int)l.r.core[0].size() - 1), j = rng.range(0, (int)l.r.core.size() - 1);
    um2MPACTCoreGetChild(l.c, i, j, &ch);
    SAME(ch, l.m.core().getChild(i, j), "core.child", "%d %d %s", i, j, w);
    SAME(ch, (Int)l.r.core[l.r.core.size() - 1 - (size_t)j][(size_t)i], "core.child", "%d %d %s", i, j, w);
    break;
  }
  case 2: {
    Int const a = rng.range(0, (int)l.r.asys.size() - 1);
    um2MPACTAssemblyNumCells(l.c, a, &nx);
    SAME(nx, (Int)l.r.asys[(size_t)a].lats.size(), "assembly.n", "%d %s", a, w);
    Int const i = rng.range(0, (int)l.r.asys[(size_t)a].lats.size() - 1);
    um2MPACTAssemblyGetChild(l.c, a, i, &ch);
    SAME(ch, (Int)l.r.asys[(size_t)a].lats[(size_t)i], "assembly.child", "%d %d %s", a, i, w);
    break;
  }
  default: {
    bool const lat = rng.chance(0.5);
    auto const & rows = lat ? l.r.lats : l.r.rtms;
    Int const a = rng.range(0, (int)rows.size() - 1);
    Rows const & R = rows[(size_t)a];
    (lat ? um2MPACTLatticeNumCells : um2MPACTRTMNumCells)(l.c, a, &nx, &ny);
    SAME(nx, (Int)R[0].size(), lat ? "lattice.nx" : "module.nx", "%d %s", a, w);
    SAME(ny, (Int)R.size(), lat ? "lattice.ny" : "module.ny", "%d %s", a, w);
    Int const i = rng.range(0, (int)R[0].size() - 1), j = rng.range(0, (int)R.size() - 1);
    (lat ? um2MPACTLatticeGetChild : um2MPACTRTMGetChild)(l.c, a, i, j, &ch);
    SAME(ch, (Int)R[R.size() - 1 - (size_t)j][(size_t)i], lat ? "lattice.child" : "module.child", "%d %d %d %s", a, i, j, w);
    if (!lat) {
      Float x = -7, y = -7;
      um2MPACTRTMWidth(l.c, a, &x);
      um2MPACTRTMHeight(l.c, a, &y);
      SAME(x, l.m.getRTM(a).grid().extents(0), "module.width", "%d %s", a, w);
      SAME(y, l.m.getRTM(a).grid().extents(1), "module.height", "%d %s", a, w);
      auto const e = l.r.rtmExtent(a);
      VH(closeTo(static_cast<LD>(x), e[0], 1e-9L * e[0]) && closeTo(static_cast<LD>(y), e[1], 1e-9L * e[1]), "module.extent", "%g %g %s", (double)x, (double)y, w);
    }
  }
  }
  vh::count("layout queries");
}

static void
cells(vh::Rng & rng, Loaded & l)
{
  char const * w = l.what.c_str();
  Int const id = rng.range(0, (int)l.r.cells.size() - 1);
  RCell const & rc = l.r.cells[(size_t)id];
  auto const & cc = l.m.getCoarseCell(id);
  size_t const nf = rc.g.f.size();
  LD const size = static_cast<LD>(rc.w) + static_cast<LD>(rc.h);
  Float x = -7, y = -7;
  Int n = -7;
  switch (rng.range(0, 6)) {
  case 0: {
    um2MPACTCoarseCellNumFaces(l.c, id, &n);
    SAME(n, (Int)nf, "cell.faces", "%d %s", id, w);
    um2MPACTCoarseCellWidth(l.c, id, &x);
    um2MPACTCoarseCellHeight(l.c, id, &y);
    SAME(x, cc.xy_extents[0], "cell.width", "%d %s", id, w);
    SAME(y, cc.xy_extents[1], "cell.height", "%d %s", id, w);
    VH(closeTo(static_cast<LD>(x), static_cast<LD>(rc.w), 1e-9L * size) && closeTo(static_cast<LD>(y), static_cast<LD>(rc.h), 1e-9L * size), "cell.extent", "%d %s", id, w);
    break;
  }
  case 1: {
    std::unique_ptr<Float[]> a(new Float[nf]);
    um2MPACTCoarseCellFaceAreas(l.c, id, a.get());
    withMesh(l.m, cc, [&](auto const & mesh, int) {
      for (Int i = 0; i < (Int)nf; ++i) {
        SAME(a[(size_t)i], mesh.getFace(i).area(), "cell.area", "%d face %d %s", id, i, w);
        LD const e = rc.g.face((size_t)i).area();
        VH(closeTo(static_cast<LD>(a[(size_t)i]), e, 1e-9L * size * size), "cell.area_value", "%d face %d: %g instead of %Lg %s", id, i, (double)a[(size_t)i], e, w);
      }
    });
    break;
  }
  case 2: {
    for (int k = 0; k < 8; ++k) {
      Float px = static_cast<Float>(rng.uni(-0.1, 1.1)) * rc.w, py = static_cast<Float>(rng.uni(-0.1, 1.1)) * rc.h;
      if (rng.chance(0.1)) {
        px = rng.chance(0.5) ? 0 : rc.w;
      }
      um2MPACTCoarseCellFaceContaining(l.c, id, px, py, &n);
      withMesh(l.m, cc, [&](auto const & mesh, int) { SAME(n, mesh.faceContaining(Point2F(px, py)), "cell.containing", "%d (%g, %g) %s", id, (double)px, (double)py, w); });
    }
    break;
  }
  case 3: {
    Int const f = rng.range(0, (int)nf - 1);
    um2MPACTCoarseCellFaceCentroid(l.c, id, f, &x, &y);
    withMesh(l.m, cc, [&](auto const & mesh, int) {
      auto const p = mesh.getFace(f).centroid();
      SAME(x, p[0], "cell.centroid_x", "%d face %d %s", id, f, w);
      SAME(y, p[1], "cell.centroid_y", "%d face %d %s", id, f, w);
    });
    break;
  }
  case 4: {
    std::unique_ptr<MatID[]> a(new MatID[nf]);
    um2MPACTCoarseCellMaterialIDs(l.c, id, a.get());
    for (size_t i = 0; i < nf; ++i) {
      SAME((int)a[i], rc.mats[i], "cell.material", "%d face %zu %s", id, i, w);
    }
    break;
  }
  case 5: {
    double const t = rng.uni(0, 6.283185307179586);
    Float const ox = static_cast<Float>(rng.uni(-0.5, 1.5)) * rc.w, oy = static_cast<Float>(rng.uni(-0.5, 1.5)) * rc.h;
    Vec2F dir(static_cast<Float>(cos(t)), static_cast<Float>(sin(t)));
    if (rng.chance(0.2)) {
      dir = rng.chance(0.5) ? Vec2F(1, 0) : Vec2F(0, 1);
    }
    withMesh(l.m, cc, [&](auto const & mesh, int nn) {
      Ray2F const ray(Point2F(ox, oy), dir);
      std::vector<Float> b(nf * (size_t)nn * 2);
      Int const k = mesh.intersect(ray, b.data());
      b.resize((size_t)k);
      std::sort(b.begin(), b.end());
      std::unique_ptr<Float[]> a(new Float[(size_t)k + 1]);
      um2MPACTIntersectCoarseCell(l.c, id, ox, oy, dir[0], dir[1], a.get(), &n);
      SAME(n, k, "cell.hits", "%d %s", id, w);
      if (n == k) {
        for (Int i = 0; i < k; ++i) {
          SAME(a[(size_t)i], b[(size_t)i], "cell.hit", "%d hit %d %s", id, i, w);
        }
      }
      if (k > 2) {
        vh::count("rays with hits");
      }
    });
    break;
  }
  default: {
    Int type = -7, nv = -7, nfc = -7;
    Float * v = nullptr;
    Int * fv = nullptr;
    um2MPACTCoarseCellFaceData(l.c, id, &type, &nv, &nfc, &v, &fv);
    SAME(type, (Int)cc.mesh_type, "data.type", "%d %s", id, w);
    SAME(nfc, (Int)nf, "data.faces", "%d %s", id, w);
    withMesh(l.m, cc, [&](auto const & mesh, int nn) {
      SAME(nv, mesh.numVertices(), "data.vertices", "%d %s", id, w);
      if (nv == mesh.numVertices() && nfc == mesh.numFaces()) {
        for (Int i = 0; i < nv; ++i) {
          SAME(v[2 * i], mesh.getVertex(i)[0], "data.vertex_x", "%d %d %s", id, i, w);
          SAME(v[2 * i + 1], mesh.getVertex(i)[1], "data.vertex_y", "%d %d %s", id, i, w);
        }
        for (Int i = 0; i < nfc; ++i) {
          for (Int j = 0; j < nn; ++j) {
            SAME(fv[i * nn + j], mesh.faceVertexConn()[i][j], "data.conn", "%d face %d %s", id, i, w);
          }
        }
      }
    });
    um2Free(v);
    um2Free(fv);
    vh::count("face data arrays");
  }
  }
  vh::count("cell queries");
}

static void
heights(vh::Rng & rng, Loaded & l)
{
  char const * w = l.what.c_str();
  int const kind = rng.range(0, 3);
  if (kind == 3) {
    Int const a = rng.range(0, (int)l.r.asys.size() - 1);
    RAsy const & A = l.r.asys[(size_t)a];
    std::unique_ptr<Float[]> h(new Float[A.lats.size()]);
    um2MPACTAssemblyHeights(l.c, a, h.get());
    for (size_t i = 0; i < A.lats.size(); ++i) {
      VH(closeTo(static_cast<LD>(h[i]), static_cast<LD>(A.z[i + 1]) - static_cast<LD>(A.z[i]), 1e-12L * static_cast<LD>(A.z.back())), "heights.assembly", "%d slice %zu %.17g %s", a, i, (double)h[i], w);
    }
    vh::count("assembly heights");
    return;
  }
  // every placed part with the heights it is placed at
  std::vector<std::pair<LD, int>> want;
  for (auto const & k : l.inst) {
    want.emplace_back(k.dz, kind == 0 ? k.cell : kind == 1 ? k.rtm : k.lat);
  }
  // heights are told apart when they differ by more than a small tolerance
  std::vector<LD> dz;
  for (auto const & p : want) {
    dz.push_back(p.first);
  }
  std::sort(dz.begin(), dz.end());
  std::vector<LD> levels;
  for (LD const d : dz) {
    if (levels.empty() || d > levels.back() + 1e-9L) {
      if (!levels.empty() && d < levels.back() + 1e-3L) {
        vh::count("skipped: heights too close to tell apart");
        return;
      }
      levels.push_back(d);
    }
  }
  for (auto & p : want) {
    p.first = *(std::lower_bound(levels.begin(), levels.end(), p.first - 1e-8L));
  }
  std::sort(want.begin(), want.end());
  want.erase(std::unique(want.begin(), want.end()), want.end());
  Int n = -7;
  Int * ids = nullptr;
  Float * h = nullptr;
  char const * names[] = {"heights.cell", "heights.module", "heights.lattice"};
  (kind == 0 ? um2MPACTCoarseCellHeights : kind == 1 ? um2MPACTRTMHeights : um2MPACTLatticeHeights)(l.c, &n, &ids, &h);
  SAME(n, (Int)want.size(), std::string(names[kind]) + "_count", "%s", w);
  if (n == (Int)want.size()) {
    for (Int i = 0; i < n; ++i) {
      VH(ids[i] == want[(size_t)i].second && closeTo(static_cast<LD>(h[i]), want[(size_t)i].first, 1e-8L), names[kind], "entry %d is (%d, %.12g) instead of (%d, %.12Lg): %s", i, ids[i], (double)h[i], want[(size_t)i].second, want[(size_t)i].first, w);
    }
  }
  um2Free(ids);
  um2Free(h);
  vh::count("height tables");
  if (levels.size() > 1) {
    vh::count("height tables with several heights");
  }
}

#if UM2_ENABLE_ASSERTS
static void
invalid(vh::Rng & rng, Loaded & l)
{
  Int const nc = (Int)l.r.cells.size(), nr = (Int)l.r.rtms.size(), nl = (Int)l.r.lats.size(), na = (Int)l.r.asys.size();
  auto bad = [&](Int n) { return rng.chance(0.6) ? n + (rng.chance(0.8) ? 0 : rng.range(1, 1000)) : -rng.range(1, 2); };
  int const kind = rng.chance(0.5) ? rng.range(0, 3) : rng.range(0, 13);
  Int a = 0, b = 0, c = 0;
  bool const onX = rng.chance(0.5);
  auto pick = [&](Rows const & R) {
    b = onX ? bad((Int)R[0].size()) : rng.range(0, (int)R[0].size() - 1);
    c = onX ? rng.range(0, (int)R.size() - 1) : bad((Int)R.size());
  };
  switch (kind) {
  case 0:
    pick(l.r.core);
    break;
  case 1:
    a = rng.range(0, na - 1);
    b = bad((Int)l.r.asys[(size_t)a].lats.size());
    break;
  case 2:
    a = rng.range(0, nl - 1);
    pick(l.r.lats[(size_t)a]);
    break;
  case 3:
    a = rng.range(0, nr - 1);
    pick(l.r.rtms[(size_t)a]);
    break;
  case 4:
  case 5:
    a = bad(na);
    break;
  case 6:
    a = bad(nl);
    break;
  case 7:
  case 8:
    a = bad(nr);
    break;
  case 13:
    a = rng.range(0, nc - 1);
    b = bad((Int)l.r.cells[(size_t)a].g.f.size());
    break;
  default:
    a = bad(nc);
  }
  std::string out;
  int const st = vh::isolated(
      [&] {
        Int n = 0, m = 0, k = 0;
        Float x = 0, y = 0;
        Float * v = nullptr;
        Int * fv = nullptr;
        switch (kind) {
        case 0:
          um2MPACTCoreGetChild(l.c, b, c, &n);
          break;
        case 1:
          um2MPACTAssemblyGetChild(l.c, a, b, &n);
          break;
        case 2:
          um2MPACTLatticeGetChild(l.c, a, b, c, &n);
          break;
        case 3:
          um2MPACTRTMGetChild(l.c, a, b, c, &n);
          break;
        case 4:
          um2MPACTAssemblyNumCells(l.c, a, &n);
          break;
        case 5:
          um2MPACTAssemblyHeights(l.c, a, &x);
          break;
        case 6:
          um2MPACTLatticeNumCells(l.c, a, &n, &m);
          break;
        case 7:
          um2MPACTRTMNumCells(l.c, a, &n, &m);
          break;
        case 8:
          um2MPACTRTMWidth(l.c, a, &x);
          break;
        case 9:
          um2MPACTCoarseCellNumFaces(l.c, a, &n);
          break;
        case 10:
          um2MPACTCoarseCellWidth(l.c, a, &x);
          break;
        case 11:
          um2MPACTCoarseCellFaceContaining(l.c, a, 0, 0, &n);
          break;
        case 12:
          um2MPACTCoarseCellFaceData(l.c, a, &n, &m, &k, &v, &fv);
          break;
        default:
          um2MPACTCoarseCellFaceCentroid(l.c, a, b, &x, &y);
          break;
        }
        return true;
      },
      &out);
  VH(st != 0 && out.find("Assertion failed") != std::string::npos, vh::fmt("invalid.%d", kind), "request %d with (%d, %d, %d) was %s: %s: %s", kind, a, b, c, st == 0 ? "answered" : "not reported cleanly", l.what.c_str(), out.substr(0, 300).c_str());
  vh::count("invalid requests");
}
#endif

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "capi", [](vh::Rng & rng, uint64_t) {
    um2::logger::level = um2::logger::levels::off;
    um2::logger::exit_on_error = false;
    int n = -7;
    um2SizeOfInt(&n);
    SAME(n, (int)sizeof(Int), "size.int", "%s", "");
    um2SizeOfFloat(&n);
    SAME(n, (int)sizeof(Float), "size.float", "%s", "");
    void * p = nullptr;
    Int const bytes = rng.range(1, 5000);
    um2Malloc(&p, bytes);
    memset(p, 0xab, (size_t)bytes);
    um2Free(p);
    if (rng.chance(0.2)) {
      void * e = nullptr;
      um2NewMPACTModel(&e);
      um2DeleteMPACTModel(e);
      vh::count("empty models");
    }
    int const models = rng.range(1, 2);
    std::vector<std::unique_ptr<Loaded>> ls;
    for (int i = 0; i < models; ++i) {
      ls.emplace_back(new Loaded);
      if (!load(rng, *ls.back(), vh::ctx().scratch + vh::fmt("/m%d.xdmf", i))) {
        vh::fail("load", "%s", ls.back()->what.c_str());
        return;
      }
    }
    int const ops = 60;
    for (int i = 0; i < ops; ++i) {
      Loaded & l = *ls[(size_t)rng.range(0, (int)ls.size() - 1)];
      int const k = rng.range(0, 9);
      if (k < 3) {
        layout(rng, l);
      } else if (k < 8) {
        cells(rng, l);
      } else {
        heights(rng, l);
      }
      if (ls.size() > 1 && rng.chance(0.02)) {
        um2DeleteMPACTModel(ls.back()->c);
        ls.pop_back();
        vh::count("models deleted while others are used");
      }
    }
#if UM2_ENABLE_ASSERTS
    for (int i = 0; i < 3; ++i) {
      invalid(rng, *ls[0]);
    }
#endif
    if (ls[0]->r.lats.size() > 1 && ls[0]->r.cells.size() > 1) {
      vh::nontrivial(rng.next());
    }
    vh::sample(ls[0]->what);
    for (auto & l : ls) {
      um2DeleteMPACTModel(l->c);
    }
  });
}
