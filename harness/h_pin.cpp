// C24: pin meshes against exact annulus areas, conformity and cover of the cell.
#include "refgeom.hpp"
#include "vh.hpp"

#include <um2/common/logger.hpp>
#include <um2/mpact/model.hpp>

#include <map>

using um2::mpact::Model;
static constexpr LD PI = 3.14159265358979323846264338327950288L;

struct Counts {
  Int n[9];
  bool operator==(Counts const & o) const { return memcmp(n, o.n, sizeof n) == 0; }
};

static Counts
counts(Model const & m)
{
  return {{m.triMeshes().size(), m.quadMeshes().size(), m.tri6Meshes().size(), m.quad8Meshes().size(), m.numCoarseCells(),
           m.numRTMs(), m.numLattices(), m.numAssemblies(), m.materials().size()}};
}

template <class F>
static bool
reports(F && f)
{
  vh::Capture cap;
  um2::logger::level = um2::logger::levels::error;
  f();
  um2::logger::level = um2::logger::levels::off;
  cap.stop();
  return cap.err.find("ERROR") != std::string::npos || cap.out.find("ERROR") != std::string::npos;
}

struct RMesh {
  int k = 4;
  bool curved = false;
  std::vector<P2> v;
  std::vector<std::vector<int>> f;
  Face face(size_t i) const
  {
    std::vector<P2> p;
    for (int const j : f[i]) {
      p.push_back(v[(size_t)j]);
    }
    return makeFace(p, k);
  }
};

template <class M>
static bool
take(M const & m, RMesh & r, char const * what)
{
  for (Int i = 0; i < m.numVertices(); ++i) {
    r.v.push_back(ref(m.getVertex(i)));
  }
  for (Int i = 0; i < m.numFaces(); ++i) {
    auto const & c = m.faceVertexConn()[i];
    std::vector<int> f;
    for (Int j = 0; j < (r.curved ? 8 : 4); ++j) {
      if (c[j] < 0 || c[j] >= m.numVertices()) {
        vh::fail("face.vertex_range", "%s: face %d vertex %d", what, i, c[j]);
        return false;
      }
      f.push_back(c[j]);
    }
    r.f.push_back(f);
  }
  return true;
}

// the mesh fills [0,w]x[0,h] edge to edge with counter-clockwise faces that do not overlap
static void
tiles(vh::Rng & rng, RMesh const & r, LD w, LD h, char const * what)
{
  LD const tol = 1e-9L * (w + h);
  std::map<std::pair<int, int>, int> dir;
  std::vector<char> used(r.v.size(), 0);
  LD total = 0;
  for (size_t i = 0; i < r.f.size(); ++i) {
    auto const & f = r.f[i];
    for (int const j : f) {
      used[(size_t)j] = 1;
    }
    for (int j = 0; j < r.k; ++j) {
      int const a = f[(size_t)j];
      int const b = f[(size_t)((j + 1) % r.k)];
      int const m = r.curved ? f[(size_t)(r.k + j)] : -2;
      bool const fresh = dir.emplace(std::make_pair(a, b), m).second;
      VH(fresh, "conform.edge_twice", "%s: edge %d-%d used twice in the same direction", what, a, b);
    }
    Face const fc = r.face(i);
    LD const ar = fc.area();
    VH(ar > 0, "face.orientation", "%s: face %zu has area %.17Lg", what, i, ar);
    total += ar;
  }
  for (size_t i = 0; i < used.size(); ++i) {
    VH(used[i] != 0, "mesh.unused_vertex", "%s: vertex %zu", what, i);
  }
  VH(std::fabs(total - w * h) <= 1e-10L * w * h, "cell.area", "%s: faces cover %.17Lg of %.17Lg", what, total, w * h);
  LD blen = 0;
  for (auto const & [ab, m] : dir) {
    auto const it = dir.find({ab.second, ab.first});
    if (it != dir.end()) {
      VH(it->second == m, "conform.midpoint", "%s: neighbours disagree on edge %d-%d", what, ab.first, ab.second);
      continue;
    }
    P2 const a = r.v[(size_t)ab.first];
    P2 const b = r.v[(size_t)ab.second];
    P2 const c = m == -2 ? 0.5L * (a + b) : r.v[(size_t)m];
    auto all = [&](auto && g) { return std::fabs(g(a)) <= tol && std::fabs(g(b)) <= tol && std::fabs(g(c)) <= tol; };
    LD along = 0; // signed length with the cell on the left
    if (all([](P2 p) { return p.y; })) {
      along = b.x - a.x;
    } else if (all([&](P2 p) { return p.x - w; })) {
      along = b.y - a.y;
    } else if (all([&](P2 p) { return p.y - h; })) {
      along = a.x - b.x;
    } else if (all([](P2 p) { return p.x; })) {
      along = a.y - b.y;
    }
    VH(along > 0, "cell.open_edge", "%s: edge %d-%d (%.12Lg,%.12Lg)-(%.12Lg,%.12Lg) has one face but is not on the cell boundary", what, ab.first,
       ab.second, a.x, a.y, b.x, b.y);
    blen += along;
  }
  VH(std::fabs(blen - 2 * (w + h)) <= 10 * tol, "cell.boundary", "%s: boundary covered %.15Lg of %.15Lg", what, blen, 2 * (w + h));
  // points are in exactly one face
  for (int q = 0; q < 3; ++q) {
    P2 const p{static_cast<LD>(rng.u()) * w, static_cast<LD>(rng.u()) * h};
    int in = 0;
    bool sure = true;
    for (size_t i = 0; i < r.f.size() && sure; ++i) {
      Face const fc = r.face(i);
      LD const sz = fc.size();
      if (len(p - fc.e[0].a) > 3 * sz) {
        continue;
      }
      if (fc.dist(p) < 1e-3L * sz) {
        sure = false;
      } else {
        in += fc.winding(p, 60);
      }
    }
    if (sure) {
      VH(in == 1, "cell.cover", "%s: point (%.12Lg, %.12Lg) is in %d faces", what, p.x, p.y, in);
      vh::count("points located");
    }
  }
}

struct Pin {
  double pitch = 1;
  std::vector<double> r;
  std::vector<int> rings;
  int na = 8;
  int order = 1;
  std::string str() const
  {
    std::string s = vh::fmt("pitch=%.17g na=%d order=%d r=", pitch, na, order);
    for (size_t i = 0; i < r.size(); ++i) {
      s += vh::fmt("%.17g/%d ", r[i], i < rings.size() ? rings[i] : -1);
    }
    return s;
  }
  um2::Vector<Float> R() const
  {
    um2::Vector<Float> v;
    for (double const x : r) {
      v.emplace_back(static_cast<Float>(x));
    }
    return v;
  }
  um2::Vector<Int> K() const
  {
    um2::Vector<Int> v;
    for (int const x : rings) {
      v.emplace_back(x);
    }
    return v;
  }
  int total() const
  {
    int t = 0;
    for (int const k : rings) {
      t += k;
    }
    return t;
  }
  // distance from the centre the outermost ring reaches when straight or curved
  // edges stand for the arcs, over half the pitch
  LD reach() const
  {
    LD const th = 2 * PI / na;
    LD const R = static_cast<LD>(static_cast<Float>(r.back()));
    LD const half = static_cast<LD>(static_cast<Float>(pitch)) / 2;
    if (order == 1) {
      return R * std::sqrt(th / std::sin(th)) / half;
    }
    LD const g = th / 2;
    LD const sector = PI * R * R / na;
    LD const tri = R * R * std::sin(g) * std::cos(g);
    return (0.75L * (sector - tri) / (R * std::sin(g)) + R * std::cos(g)) / half;
  }
};

static Pin
randPin(vh::Rng & rng)
{
  Pin p;
  p.pitch = rng.chance(0.2) ? 1.26 : rng.logu(0.1, 200);
  p.order = rng.range(1, 2);
  p.na = 8 << (rng.chance(0.9) ? rng.range(0, 2) : rng.range(3, 5));
  int const n = rng.chance(0.5) ? rng.range(1, 3) : rng.range(1, 6);
  double const top = rng.chance(0.7) ? rng.uni(0.2, 0.94) : rng.uni(0.94, 1.0);
  std::vector<double> t;
  double s = 0;
  for (int i = 0; i < n; ++i) {
    s += rng.chance(0.2) ? rng.logu(1e-3, 0.1) : rng.uni(0.1, 1);
    t.push_back(s);
  }
  for (double const x : t) {
    p.r.push_back(x / s * top * p.pitch / 2);
    p.rings.push_back(rng.chance(0.5) ? 1 : rng.range(1, 6));
  }
  return p;
}

static um2::Material
material(std::string const & name)
{
  um2::Material m;
  m.setName(um2::String(name.c_str()));
  um2::XSec x(1);
  x.isMacro() = true;
  x.a()[0] = 1;
  x.s()[0] = 0;
  x.tr()[0] = 1;
  m.xsec() = x;
  return m;
}

static void
meshChecks(vh::Rng & rng, Pin const & p, RMesh const & r)
{
  std::string const s = p.str();
  char const * w = s.c_str();
  LD const pitch = static_cast<LD>(static_cast<Float>(p.pitch));
  int const nr = p.total();
  if ((int)r.f.size() != p.na * (nr + 1)) {
    vh::fail("mesh.face_count", "%s: %zu faces", w, r.f.size());
    return;
  }
  tiles(rng, r, pitch, pitch, w);
  // areas ring by ring
  P2 const c{pitch / 2, pitch / 2};
  int ring = 0;
  LD prev = 0, prevmax = 0;
  for (size_t g = 0; g < p.r.size(); ++g) {
    LD const R = static_cast<LD>(static_cast<Float>(p.r[g]));
    LD const each = PI * (R * R - prev * prev) / p.rings[g];
    LD sum = 0;
    for (int k = 0; k < p.rings[g]; ++k, ++ring) {
      LD a = 0, mx = 0;
      for (int i = 0; i < p.na; ++i) {
        size_t const f = (size_t)(ring * p.na + i);
        a += r.face(f).area();
        for (int const v : r.f[f]) {
          mx = std::max(mx, len(r.v[(size_t)v] - c));
        }
      }
      VH(std::fabs(a - each) <= 1e-9L * each + 1e-12L * pitch * pitch, "ring.area", "%s: ring %d covers %.17Lg instead of %.17Lg", w, ring, a, each);
      VH(mx > prevmax, "ring.order", "%s: ring %d is not outside ring %d", w, ring, ring - 1);
      VH(mx < 1.06L * R + 1e-9L * pitch, "ring.place", "%s: ring %d reaches %.12Lg beyond its region's radius %.12Lg", w, ring, mx, R);
      prevmax = mx;
      sum += a;
    }
    LD const exact = PI * (R * R - prev * prev);
    VH(std::fabs(sum - exact) <= 1e-9L * exact + 1e-12L * pitch * pitch, "region.area", "%s: region %zu covers %.17Lg instead of %.17Lg", w, g, sum, exact);
    prev = R;
  }
  LD out = 0;
  for (int i = 0; i < p.na; ++i) {
    out += r.face((size_t)(nr * p.na + i)).area();
  }
  LD const exact = pitch * pitch - PI * prev * prev;
  VH(std::fabs(out - exact) <= 1e-9L * exact + 1e-12L * pitch * pitch, "region.outside_area", "%s: outside covers %.17Lg instead of %.17Lg", w, out, exact);
  vh::count(p.order == 1 ? "straight pin meshes" : "curved pin meshes");
  vh::nontrivial(vh::hashStr(s));
  vh::sample(s);
}

static RMesh
fetch(Model const & m, bool curved, Int id, char const * w, bool & ok)
{
  RMesh r;
  r.curved = curved;
  ok = curved ? take(m.getQuad8Mesh(id), r, w) : take(m.getQuadMesh(id), r, w);
  return r;
}

static void
cylinder(vh::Rng & rng, Model & m)
{
  Pin const p = randPin(rng);
  std::string const s = p.str();
  char const * w = s.c_str();
  LD const reach = p.reach();
  Counts const before = counts(m);
  Int const expect = p.order == 1 ? before.n[1] : before.n[3];
  Int id = -2;
  bool const err = reports([&] { id = m.addCylindricalPinMesh(static_cast<Float>(p.pitch), p.R(), p.K(), p.na, p.order); });
  if (reach > 1 + 1e-9L) {
    VH(id == -1 && err, "reject.outer_ring", "%s: reaches %.12Lg half pitches but gave %d", w, reach, id);
    VH(counts(m) == before, "reject.changed", "%s: model changed", w);
    vh::count("pins that do not fit");
    return;
  }
  if (reach > 1 - 1e-9L) {
    return;
  }
  if (id != expect || err) {
    vh::fail("accept", "%s: gave %d instead of %d", w, id, expect);
    return;
  }
  Counts after = before;
  after.n[p.order == 1 ? 1 : 3]++;
  VH(counts(m) == after, "accept.counts", "%s: unexpected change of the model", w);
  bool ok = false;
  RMesh const r = fetch(m, p.order == 2, id, w, ok);
  if (ok) {
    meshChecks(rng, p, r);
  }
}

static void
pinCell(vh::Rng & rng, Model & m)
{
  Pin const p = randPin(rng);
  std::string s = p.str();
  if (p.reach() > 1 - 1e-9L) {
    return;
  }
  int const nm = (int)m.materials().size();
  std::vector<int> mats;
  um2::Vector<um2::Material> mv;
  for (size_t i = 0; i <= p.r.size(); ++i) {
    mats.push_back(rng.range(0, nm - 1));
    mv.push_back(m.materials()[mats.back()]);
    s += vh::fmt("m%d ", mats.back());
  }
  char const * w = s.c_str();
  Counts const before = counts(m);
  Int id = -2;
  bool const err =
      reports([&] { id = m.addCylindricalPinCell(static_cast<Float>(p.pitch), p.R(), mv, p.K(), p.na, p.order); });
  if (id != before.n[4] || err) {
    vh::fail("cell.accept", "%s: gave %d", w, id);
    return;
  }
  Counts after = before;
  after.n[p.order == 1 ? 1 : 3]++;
  after.n[4]++;
  VH(counts(m) == after, "cell.counts", "%s: unexpected change of the model", w);
  auto const & cc = m.getCoarseCell(id);
  VH(cc.mesh_type == (p.order == 1 ? um2::MeshType::Quad : um2::MeshType::QuadraticQuad), "cell.mesh_type", "%s", w);
  VH(cc.xy_extents[0] == static_cast<Float>(p.pitch) && cc.xy_extents[1] == static_cast<Float>(p.pitch), "cell.extents", "%s", w);
  if (cc.mesh_id != (p.order == 1 ? before.n[1] : before.n[3])) {
    vh::fail("cell.mesh_id", "%s: mesh %d", w, cc.mesh_id);
    return;
  }
  bool ok = false;
  RMesh const r = fetch(m, p.order == 2, cc.mesh_id, w, ok);
  if (!ok) {
    return;
  }
  if ((size_t)cc.material_ids.size() != r.f.size() || (size_t)cc.numFaces() != r.f.size()) {
    vh::fail("cell.material_count", "%s: %d materials for %zu faces", w, cc.material_ids.size(), r.f.size());
    return;
  }
  // area of each material
  std::vector<LD> a((size_t)nm, 0), x((size_t)nm, 0);
  for (size_t i = 0; i < r.f.size(); ++i) {
    int const k = cc.material_ids[(Int)i];
    if (k < 0 || k >= nm) {
      vh::fail("cell.material_range", "%s: face %zu material %d", w, i, k);
      return;
    }
    a[(size_t)k] += r.face(i).area();
  }
  LD const pitch = static_cast<LD>(static_cast<Float>(p.pitch));
  LD prev = 0;
  for (size_t g = 0; g < p.r.size(); ++g) {
    LD const R = static_cast<LD>(static_cast<Float>(p.r[g]));
    x[(size_t)mats[g]] += PI * (R * R - prev * prev);
    prev = R;
  }
  x[(size_t)mats.back()] += pitch * pitch - PI * prev * prev;
  for (int k = 0; k < nm; ++k) {
    VH(std::fabs(a[(size_t)k] - x[(size_t)k]) <= 1e-9L * pitch * pitch, "cell.material_area", "%s: material %d covers %.15Lg instead of %.15Lg", w, k,
       a[(size_t)k], x[(size_t)k]);
  }
  // innermost ring has the first material, the outside the last
  VH(cc.material_ids[0] == mats[0] && cc.material_ids.back() == mats.back(), "cell.material_place", "%s", w);
  int f = 0;
  for (size_t g = 0; g <= p.r.size(); ++g) {
    int const n = p.na * (g < p.r.size() ? p.rings[g] : 1);
    for (int i = 0; i < n; ++i, ++f) {
      if (cc.material_ids[f] != mats[g]) {
        vh::fail("cell.material_place", "%s: face %d of region %zu has material %d", w, f, g, cc.material_ids[f]);
        return;
      }
    }
  }
  vh::count("pin cells");
}

static void
rectangle(vh::Rng & rng, Model & m)
{
  Float const w = static_cast<Float>(rng.chance(0.2) ? 1.26 : rng.logu(0.01, 500));
  Float const h = static_cast<Float>(rng.chance(0.2) ? 1.26 : rng.logu(0.01, 500));
  int const nx = rng.range(1, rng.chance(0.9) ? 6 : 40);
  int const ny = rng.range(1, rng.chance(0.9) ? 6 : 40);
  std::string const s = vh::fmt("%.17g x %.17g in %d x %d", (double)w, (double)h, nx, ny);
  Counts const before = counts(m);
  Int id = -2;
  bool const err = reports([&] { id = m.addRectangularPinMesh(um2::Vec2F(w, h), nx, ny); });
  if (id != before.n[1] || err) {
    vh::fail("rect.accept", "%s: gave %d", s.c_str(), id);
    return;
  }
  Counts after = before;
  after.n[1]++;
  VH(counts(m) == after, "rect.counts", "%s: unexpected change of the model", s.c_str());
  bool ok = false;
  RMesh const r = fetch(m, false, id, s.c_str(), ok);
  if (!ok) {
    return;
  }
  if (r.f.size() != (size_t)(nx * ny)) {
    vh::fail("rect.face_count", "%s: %zu faces", s.c_str(), r.f.size());
    return;
  }
  tiles(rng, r, static_cast<LD>(w), static_cast<LD>(h), s.c_str());
  for (int j = 0; j < ny; ++j) {
    for (int i = 0; i < nx; ++i) {
      Face const f = r.face((size_t)(j * nx + i));
      P2 const c = f.centroid();
      LD const dx = static_cast<LD>(w) / nx, dy = static_cast<LD>(h) / ny;
      VH(std::fabs(c.x - (i + 0.5L) * dx) <= 1e-10L * w && std::fabs(c.y - (j + 0.5L) * dy) <= 1e-10L * h &&
             std::fabs(f.area() - dx * dy) <= 1e-10L * w * h,
         "rect.face", "%s: face (%d, %d) is at (%.12Lg, %.12Lg) with area %.12Lg", s.c_str(), i, j, c.x, c.y, f.area());
    }
  }
  vh::count("rectangular meshes");
  if (nx * ny > 1) {
    vh::nontrivial(vh::hashStr(s));
  }
}

static void
inadmissible(vh::Rng & rng, Model & m)
{
  Pin p;
  do {
    p = randPin(rng);
  } while (p.reach() > 0.999L);
  um2::Vector<um2::Material> mv;
  for (size_t i = 0; i <= p.r.size(); ++i) {
    mv.push_back(m.materials()[rng.range(0, m.materials().size() - 1)]);
  }
  size_t const k = (size_t)rng.range(0, (int)p.r.size() - 1);
  bool cell = rng.chance(0.5);
  std::string what;
  Float rw = 1, rh = 1;
  int rnx = 1, rny = 1;
  bool rect = false;
  switch (rng.range(0, 14)) {
  case 0:
    what = "mesh order";
    p.order = rng.pick(std::vector<int>{0, 3, -1, 4});
    break;
  case 1:
    what = "too few azimuthal divisions";
    p.na = rng.pick(std::vector<int>{0, 1, 2, 4, -8});
    break;
  case 2:
    what = "azimuthal divisions not a power of two";
    p.na = rng.pick(std::vector<int>{9, 10, 12, 20, 24, 48, 63});
    break;
  case 3:
    what = "more ring counts than radii";
    p.rings.push_back(1);
    break;
  case 4:
    what = "fewer ring counts than radii";
    p.rings.pop_back();
    break;
  case 5:
    what = "radius beyond the cell";
    p.r.back() = p.pitch * rng.uni(0.51, 2);
    break;
  case 6:
    what = "no radii";
    p.r.clear();
    p.rings.clear();
    cell = cell && rng.chance(0.5);
    break;
  case 7:
    if (p.r.size() < 2) {
      return;
    }
    what = "radii out of order";
    std::swap(p.r[0], p.r[p.r.size() - 1]);
    break;
  case 8:
    if (p.r.size() < 2) {
      return;
    }
    what = "repeated radius";
    p.r[p.r.size() - 1] = p.r[p.r.size() - 2];
    break;
  case 9:
    what = "non-positive radius";
    p.r[0] = rng.chance(0.5) ? 0 : -p.r[0];
    break;
  case 10:
    what = "no rings in a region";
    p.rings[k] = rng.range(-2, 0);
    break;
  case 11:
    what = "wrong number of materials";
    cell = true;
    if (rng.chance(0.5)) {
      mv.push_back(m.materials()[0]);
    } else {
      mv.pop_back();
    }
    break;
  case 12:
    what = "unknown material";
    cell = true;
    mv[rng.range(0, mv.size() - 1)] = material("not in the model");
    break;
  case 13:
    what = "rectangle without extent";
    rect = true;
    (rng.chance(0.5) ? rw : rh) = rng.chance(0.5) ? 0 : -1;
    break;
  default:
    what = "rectangle without faces";
    rect = true;
    (rng.chance(0.5) ? rnx : rny) = rng.range(-2, 0);
    break;
  }
  std::string const s = what + ": " + p.str();
  Counts const before = counts(m);
  Int id = -2;
  bool const err = reports([&] {
    if (rect) {
      id = m.addRectangularPinMesh(um2::Vec2F(rw, rh), rnx, rny);
    } else if (cell) {
      id = m.addCylindricalPinCell(static_cast<Float>(p.pitch), p.R(), mv, p.K(), p.na, p.order);
    } else {
      id = m.addCylindricalPinMesh(static_cast<Float>(p.pitch), p.R(), p.K(), p.na, p.order);
    }
  });
  VH(id == -1, "reject.id", "%s: gave %d", s.c_str(), id);
  VH(err, "reject.silent", "%s: no error reported", s.c_str());
  VH(counts(m) == before, "reject.changed", "%s: the model changed", s.c_str());
  vh::count("rejected pins");
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "pin", [](vh::Rng & rng, uint64_t) {
    Model m;
    int const nm = rng.range(1, 6);
    for (int i = 0; i < nm; ++i) {
      m.addMaterial(material(vh::fmt("mat%d", i)));
    }
    int const ops = rng.range(1, 4);
    for (int i = 0; i < ops; ++i) {
      int const k = rng.range(0, 9);
      if (k < 4) {
        cylinder(rng, m);
      } else if (k < 6) {
        pinCell(rng, m);
      } else if (k < 8) {
        rectangle(rng, m);
      } else {
        inadmissible(rng, m);
      }
    }
  });
}
